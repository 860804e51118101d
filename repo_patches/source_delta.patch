From c87a52a7bd98d8a5933db36399a3e78de8c52f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:53 +0000
Subject: [PATCH 01/38] fix: a Cache-Control value discarded as invalid must
 not count as a subgraph that said public

---
 bin/router/src/executor/headers/cache_control.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bin/router/src/executor/headers/cache_control.rs b/bin/router/src/executor/headers/cache_control.rs
index 547d31c..37ee476 100644
--- a/bin/router/src/executor/headers/cache_control.rs
+++ b/bin/router/src/executor/headers/cache_control.rs
@@ -190,18 +190,21 @@ pub fn finalize(
     }
 
     let mut acc: Option<CacheControl> = None;
+    let mut valid_values = 0;
     for v in values {
         if let Ok(s) = v.to_str() {
             if let Some(parsed) = parse(s) {
                 merge_into(&mut acc, parsed);
+                valid_values += 1;
             }
         }
     }
 
     if let Some(mut merged) = acc {
-        // a silent subgraph (no cache-control header at all) did not assert public,
-        // so public cannot hold when not every contacted subgraph sent it
-        if total_responses > values.len() {
+        // a silent subgraph (no cache-control header at all) did not assert public, and neither
+        // did one whose value was discarded as invalid, so public cannot hold when not every
+        // contacted subgraph sent it
+        if valid_values < total_responses || valid_values < values.len() {
             merged.is_public = false;
         }
         let serialized = to_header_value(&merged);
-- 
2.43.0


From 79361d6530480040e7e0f125eb0fa95f8d0b674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:50 +0000
Subject: [PATCH 02/38] fix: sum input costs with saturation, like every other
 demand-control cost

---
 bin/router/src/pipeline/demand_control/formula.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bin/router/src/pipeline/demand_control/formula.rs b/bin/router/src/pipeline/demand_control/formula.rs
index 398e0e1..abdfbb2 100644
--- a/bin/router/src/pipeline/demand_control/formula.rs
+++ b/bin/router/src/pipeline/demand_control/formula.rs
@@ -710,7 +710,7 @@ fn estimate_input_value_cost(
                 .map(|item| {
                     estimate_input_value_cost(item, inner_type, supergraph_state, variable_payload)
                 })
-                .sum(),
+                .fold(0, u64::saturating_add),
             _ => 0,
         },
         AstValue::Null => 0,
@@ -732,7 +732,7 @@ fn estimate_input_json_value_cost(
             TypeNode::List(inner_type) => array
                 .iter()
                 .map(|item| estimate_input_json_value_cost(item, inner_type, supergraph_state))
-                .sum(),
+                .fold(0, u64::saturating_add),
             _ => 0,
         };
     }
@@ -782,7 +782,7 @@ where
                 .unwrap_or(0);
             Some(field_cost.saturating_add(nested_cost(field_value, &input_field.field_type)))
         })
-        .sum::<u64>()
+        .fold(0, u64::saturating_add)
         // Every input object instance contributes a default cost of 1 in
         // addition to any per-field `@cost(weight)` contributions, so an
         // input object without `@cost` directives still consumes budget
-- 
2.43.0


From 08b6fb51b55b0401b94fa6071790044a09d955c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:50 +0000
Subject: [PATCH 03/38] fix: key the demand-control formula by the query plan's
 key, not by the operation alone

---
 bin/router/src/pipeline/demand_control/runtime.rs |  4 ++--
 bin/router/src/pipeline/mod.rs                    | 12 ++++++++++--
 bin/router/src/pipeline/query_plan.rs             |  2 +-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/bin/router/src/pipeline/demand_control/runtime.rs b/bin/router/src/pipeline/demand_control/runtime.rs
index 7d3fdbc..6d0d83c 100644
--- a/bin/router/src/pipeline/demand_control/runtime.rs
+++ b/bin/router/src/pipeline/demand_control/runtime.rs
@@ -102,13 +102,13 @@ impl DemandControlRuntime {
         query_plan: &'exec QueryPlan,
         operation_for_plan: &'exec OperationDefinition,
         root_type_name: &'exec str,
-        normalized_operation_hash: u64,
+        formula_cache_key: u64,
         operation_identity: GraphQLSpanOperationIdentity<'exec>,
     ) -> Result<DemandControlExecutionContext, PipelineError> {
         let operation_name = operation_identity.name;
         let compiled_plan = self
             .formula_cache
-            .entry(normalized_operation_hash)
+            .entry(formula_cache_key)
             .or_insert_with(async {
                 Arc::new(self.compile_demand_control_plan(
                     query_plan,
diff --git a/bin/router/src/pipeline/mod.rs b/bin/router/src/pipeline/mod.rs
index 7e3d07d..2ecce09 100644
--- a/bin/router/src/pipeline/mod.rs
+++ b/bin/router/src/pipeline/mod.rs
@@ -67,7 +67,7 @@ use crate::{
         long_lived_client_limit::try_reserve_long_lived_client,
         normalize::{normalize_request_with_cache, FilterOutputExt, GraphQLNormalizationPayload},
         parser::{parse_operation_with_cache, ParseResult},
-        progressive_override::RequestOverrideContext,
+        progressive_override::{RequestOverrideContext, StableOverrideContext},
         query_plan::{plan_operation_with_cache, QueryPlanResult},
         request_extensions::{
             write_graphql_operation_metric_identity, write_graphql_response_metric_status,
@@ -883,7 +883,15 @@ pub async fn execute_pipeline<'exec>(
                 &query_plan_payload,
                 normalize_payload.operation_for_plan.as_ref(),
                 normalize_payload.root_type_name.as_str(),
-                normalize_payload.normalized_operation_hash,
+                // The formula is compiled from the query plan, and the same operation
+                // is planned differently for different progressive overrides.
+                query_plan::calculate_cache_key(
+                    normalize_payload.normalized_operation_hash,
+                    &StableOverrideContext::new(
+                        &supergraph.snapshot.planner.supergraph,
+                        &progressive_override_ctx,
+                    ),
+                ),
                 (&normalize_payload.operation_identity).into(),
             )
             .await
diff --git a/bin/router/src/pipeline/query_plan.rs b/bin/router/src/pipeline/query_plan.rs
index 5cde110..975b6ce 100644
--- a/bin/router/src/pipeline/query_plan.rs
+++ b/bin/router/src/pipeline/query_plan.rs
@@ -181,7 +181,7 @@ pub async fn plan_operation_with_cache(
 }
 
 #[inline]
-fn calculate_cache_key(operation_hash: u64, context: &StableOverrideContext) -> u64 {
+pub(crate) fn calculate_cache_key(operation_hash: u64, context: &StableOverrideContext) -> u64 {
     let mut hasher = Xxh3::new();
     operation_hash.hash(&mut hasher);
     context.hash(&mut hasher);
-- 
2.43.0


From a38bf97c3265e6430427b331c519499c76837ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:17 +0000
Subject: [PATCH 04/38] fix: null every rejected field in the response, also
 below a fragment and under a type guard

---
 bin/router/src/pipeline/authorization/mod.rs |   8 +-
 bin/router/src/pipeline/mod.rs               |   3 +-
 bin/router/src/pipeline/normalize.rs         |  10 +-
 bin/router/src/pipeline/nullify/rebuilder.rs | 136 +++++++++++++++----
 4 files changed, 129 insertions(+), 28 deletions(-)

diff --git a/bin/router/src/pipeline/authorization/mod.rs b/bin/router/src/pipeline/authorization/mod.rs
index 57ada33..00a34e1 100644
--- a/bin/router/src/pipeline/authorization/mod.rs
+++ b/bin/router/src/pipeline/authorization/mod.rs
@@ -285,8 +285,12 @@ pub fn apply_authorization_to_operation(
 
     let new_operation =
         rebuild_nulled_operation(&normalized_payload.operation_for_plan, &nulled_field_trie);
-    let new_projection_plan =
-        rebuild_nulled_projection_plan(&normalized_payload.projection_plan, &nulled_field_trie);
+    let new_projection_plan = rebuild_nulled_projection_plan(
+        &normalized_payload.projection_plan,
+        &normalized_payload.operation_for_plan,
+        schema_metadata,
+        &nulled_field_trie,
+    );
 
     Ok(AuthorizationDecision::Modified {
         new_operation_definition: new_operation,
diff --git a/bin/router/src/pipeline/mod.rs b/bin/router/src/pipeline/mod.rs
index 2ecce09..78aa186 100644
--- a/bin/router/src/pipeline/mod.rs
+++ b/bin/router/src/pipeline/mod.rs
@@ -851,7 +851,8 @@ pub async fn execute_pipeline<'exec>(
 
         let filter_output = analysis_payload.run_operation_filters()?;
         if filter_output.has_changes() {
-            (normalize_payload, plugin_graphql_errors) = filter_output.apply_to(&normalize_payload);
+            (normalize_payload, plugin_graphql_errors) =
+                filter_output.apply_to(&normalize_payload, &supergraph.snapshot.metadata);
         }
     }
 
diff --git a/bin/router/src/pipeline/normalize.rs b/bin/router/src/pipeline/normalize.rs
index 62665ad..8ad6ccb 100644
--- a/bin/router/src/pipeline/normalize.rs
+++ b/bin/router/src/pipeline/normalize.rs
@@ -4,6 +4,7 @@ use std::sync::Arc;
 use crate::executor::hooks::on_graphql_params::GraphQLParams;
 use crate::executor::hooks::on_supergraph_load::SupergraphSnapshot;
 use crate::executor::introspection::partition::partition_operation;
+use crate::executor::introspection::schema::SchemaMetadata;
 use crate::executor::projection::plan::FieldProjectionPlan;
 use crate::query_planner::ast::normalization::error::NormalizationError;
 use crate::query_planner::ast::normalization::normalize_operation;
@@ -90,6 +91,7 @@ pub(crate) trait FilterOutputExt<'exec> {
     fn apply_to(
         self,
         payload: &GraphQLNormalizationPayload,
+        schema_metadata: &SchemaMetadata,
     ) -> (Arc<GraphQLNormalizationPayload>, Vec<GraphQLError>);
 }
 
@@ -97,10 +99,16 @@ impl<'exec> FilterOutputExt<'exec> for OperationFilterOutput<'exec> {
     fn apply_to(
         self,
         payload: &GraphQLNormalizationPayload,
+        schema_metadata: &SchemaMetadata,
     ) -> (Arc<GraphQLNormalizationPayload>, Vec<GraphQLError>) {
         let trie = Trie::from_paths(&self.rejected_paths);
         let new_op = rebuild_nulled_operation(&payload.operation_for_plan, &trie);
-        let new_projection = rebuild_nulled_projection_plan(&payload.projection_plan, &trie);
+        let new_projection = rebuild_nulled_projection_plan(
+            &payload.projection_plan,
+            &payload.operation_for_plan,
+            schema_metadata,
+            &trie,
+        );
         (payload.with_operation(new_op, new_projection), self.errors)
     }
 }
diff --git a/bin/router/src/pipeline/nullify/rebuilder.rs b/bin/router/src/pipeline/nullify/rebuilder.rs
index 8a8c5ec..9ceedbd 100644
--- a/bin/router/src/pipeline/nullify/rebuilder.rs
+++ b/bin/router/src/pipeline/nullify/rebuilder.rs
@@ -1,5 +1,6 @@
 use std::sync::Arc;
 
+use crate::executor::introspection::schema::SchemaMetadata;
 use crate::executor::operation_filter::PathSegment;
 use crate::executor::projection::plan::{
     FieldProjectionPlan, ProjectionValueSource, TypeCondition,
@@ -136,45 +137,69 @@ fn rebuild_nulled_selection_set(
 /// Rebuilds the projection plan to set nulled fields to null.
 pub(crate) fn rebuild_nulled_projection_plan(
     original_plans: &Vec<FieldProjectionPlan>,
+    original_operation: &OperationDefinition,
+    schema_metadata: &SchemaMetadata,
     nulled_field_trie: &Trie,
 ) -> Vec<FieldProjectionPlan> {
-    rebuild_nulled_projection_plan_recursive(original_plans, nulled_field_trie, PathIndex::root())
-        .unwrap_or_default()
+    rebuild_nulled_projection_plan_recursive(
+        original_plans,
+        &[PlanSource {
+            selection_set: &original_operation.selection_set,
+            nulled: NulledPart::Below(PathIndex::root()),
+        }],
+        schema_metadata,
+        nulled_field_trie,
+    )
+    .unwrap_or_default()
+}
+
+/// A selection set of the original operation that a projection plan was built from.
+struct PlanSource<'op> {
+    selection_set: &'op SelectionSet,
+    nulled: NulledPart,
+}
+
+#[derive(Clone, Copy, PartialEq)]
+enum NulledPart {
+    /// No selection in the selection set is nulled
+    Nothing,
+    /// Some may be, as told by the trie
+    Below(PathIndex),
+    /// The field that owns the selection set is nulled
+    Everything,
 }
 
 /// Recursively filters projection plans. Nulled fields become null.
+///
+/// A plan may stand for several selections of the operation (a field selected on an interface
+/// and in a fragment), and its type guard does not tell which ones. That's why plans are matched
+/// with the selections, and a plan becomes null when all of its selections are nulled.
 fn rebuild_nulled_projection_plan_recursive(
     original_plans: &Vec<FieldProjectionPlan>,
+    parent_sources: &[PlanSource],
+    schema_metadata: &SchemaMetadata,
     nulled_field_trie: &Trie,
-    path_position: PathIndex,
 ) -> Option<Vec<FieldProjectionPlan>> {
     let mut kept_plans = Vec::with_capacity(original_plans.len());
 
     for plan in original_plans {
-        let scoped_position = match &plan.parent_type_guard {
-            Some(TypeCondition::Exact(type_name)) => {
-                match nulled_field_trie
-                    .find_segment_at_position(path_position, PathSegment::Fragment(type_name))
-                {
-                    Some((child_position, _)) => child_position,
-                    None => {
-                        kept_plans.push(plan.clone());
-                        continue;
-                    }
-                }
-            }
-            _ => path_position,
-        };
+        let mut sources = Vec::new();
+        for parent_source in parent_sources {
+            collect_plan_sources(
+                plan,
+                parent_source,
+                schema_metadata,
+                nulled_field_trie,
+                &mut sources,
+            );
+        }
 
-        let path_segment = PathSegment::Field(&plan.response_key);
-        let Some((child_path_position, is_nulled)) =
-            nulled_field_trie.find_segment_at_position(scoped_position, path_segment)
-        else {
+        if sources.iter().all(|s| s.nulled == NulledPart::Nothing) {
             kept_plans.push(plan.clone());
             continue;
-        };
+        }
 
-        if is_nulled {
+        if sources.iter().all(|s| s.nulled == NulledPart::Everything) {
             kept_plans.push(plan.with_new_value(ProjectionValueSource::Null));
             continue;
         }
@@ -185,8 +210,9 @@ fn rebuild_nulled_projection_plan_recursive(
             } => ProjectionValueSource::ResponseData {
                 selections: rebuild_nulled_projection_plan_recursive(
                     selections,
+                    &sources,
+                    schema_metadata,
                     nulled_field_trie,
-                    child_path_position,
                 )
                 .map(Arc::new),
             },
@@ -202,6 +228,68 @@ fn rebuild_nulled_projection_plan_recursive(
     }
 }
 
+/// Finds the selections in a selection set (and in its fragments) that a plan stands for.
+fn collect_plan_sources<'op>(
+    plan: &FieldProjectionPlan,
+    parent_source: &PlanSource<'op>,
+    schema_metadata: &SchemaMetadata,
+    nulled_field_trie: &Trie,
+    sources: &mut Vec<PlanSource<'op>>,
+) {
+    let nulled_at = |segment: PathSegment| match parent_source.nulled {
+        NulledPart::Below(position) => {
+            match nulled_field_trie.find_segment_at_position(position, segment) {
+                None => NulledPart::Nothing,
+                Some((_, true)) => NulledPart::Everything,
+                Some((child_position, false)) => NulledPart::Below(child_position),
+            }
+        }
+        nothing_or_everything => nothing_or_everything,
+    };
+
+    for selection in &parent_source.selection_set.items {
+        match selection {
+            SelectionItem::Field(field) => {
+                let response_key = field.alias.as_deref().unwrap_or(&field.name);
+                if response_key == plan.response_key {
+                    sources.push(PlanSource {
+                        selection_set: &field.selections,
+                        nulled: nulled_at(PathSegment::Field(response_key)),
+                    });
+                }
+            }
+            SelectionItem::InlineFragment(fragment) => {
+                let type_condition = &fragment.type_condition;
+                let covers = |type_name: &String| {
+                    schema_metadata
+                        .possible_types
+                        .entity_satisfies_type_condition(type_name, type_condition)
+                };
+                let is_covered = match &plan.parent_type_guard {
+                    None => true,
+                    Some(TypeCondition::Exact(type_name)) => covers(type_name),
+                    Some(TypeCondition::OneOf(type_names)) => type_names.iter().any(covers),
+                };
+                if is_covered {
+                    collect_plan_sources(
+                        plan,
+                        &PlanSource {
+                            selection_set: &fragment.selections,
+                            nulled: nulled_at(PathSegment::Fragment(type_condition)),
+                        },
+                        schema_metadata,
+                        nulled_field_trie,
+                        sources,
+                    );
+                }
+            }
+            SelectionItem::FragmentSpread(_) => {
+                // Fragment spreads are inlined during normalization, so they shouldn't exist here
+            }
+        }
+    }
+}
+
 /// Recursively collects variables from an entire (unfiltered) selection set.
 /// Used when a subtree is kept as-is, so it still needs to be scanned once
 /// for variable usage.
-- 
2.43.0


From 4192e0f20c7e4f26ec2c4c55c16069b4e97ea851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:17 +0000
Subject: [PATCH 05/38] fix: keep the type name of an object whose unauthorized
 fragments were removed

---
 bin/router/src/pipeline/nullify/rebuilder.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bin/router/src/pipeline/nullify/rebuilder.rs b/bin/router/src/pipeline/nullify/rebuilder.rs
index 9ceedbd..af2eb72 100644
--- a/bin/router/src/pipeline/nullify/rebuilder.rs
+++ b/bin/router/src/pipeline/nullify/rebuilder.rs
@@ -63,6 +63,7 @@ fn rebuild_nulled_selection_set(
     }
 
     let mut kept_items = Vec::with_capacity(original_selection_set.items.len());
+    let mut removed_fragment = false;
 
     for selection in &original_selection_set.items {
         match selection {
@@ -117,6 +118,7 @@ fn rebuild_nulled_selection_set(
                 );
 
                 if filtered_selections.is_empty() && !fragment.selections.is_empty() {
+                    removed_fragment = true;
                     continue;
                 }
 
@@ -131,6 +133,17 @@ fn rebuild_nulled_selection_set(
         }
     }
 
+    // The projection plan may still have to tell apart the types the removed fragments were
+    // written for, so the type of the object is needed even when no fragment is left to ask for it.
+    if removed_fragment
+        && !kept_items.is_empty()
+        && !kept_items
+            .iter()
+            .any(|item| matches!(item, SelectionItem::InlineFragment(_)))
+    {
+        kept_items.push(SelectionItem::Field(FieldSelection::new_typename()));
+    }
+
     SelectionSet { items: kept_items }
 }
 
-- 
2.43.0


From 872969d8651b0317e7ba16cb414d5bc4fc6a9639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:02 +0000
Subject: [PATCH 06/38] fix: propagate every line of a response header a
 subgraph repeats

Only the first line of a repeated header was propagated by name, so a
subgraph's `no-store` on a second Cache-Control line was lost; by pattern,
`first` and `last` kept a single line and each line counted as one response.
---
 bin/router/src/executor/headers/response.rs | 63 ++++++++++++++-------
 1 file changed, 42 insertions(+), 21 deletions(-)

diff --git a/bin/router/src/executor/headers/response.rs b/bin/router/src/executor/headers/response.rs
index d18f141..7ebb64f 100644
--- a/bin/router/src/executor/headers/response.rs
+++ b/bin/router/src/executor/headers/response.rs
@@ -82,6 +82,33 @@ impl ApplyResponseHeader for ResponseHeaderRule {
     }
 }
 
+/// Writes the header of a single subgraph response, if it is there, under the destination name.
+///
+/// A header may be split over multiple lines of the same response: never-join-headers
+/// (like `set-cookie`) keep one value per line, for any other header the lines
+/// are parts of one value (RFC 9110, section 5.3).
+fn propagate_header(
+    headers: &HeaderMap,
+    name: &HeaderName,
+    destination_name: &HeaderName,
+    strategy: HeaderAggregationStrategy,
+    accumulator: &mut ResponseHeaderAggregator,
+) -> Result<bool, HeaderRuleRuntimeError> {
+    let lines: Vec<HeaderValue> = headers.get_all(name).iter().cloned().collect();
+
+    if is_never_join_header(name) || lines.len() == 1 {
+        for value in &lines {
+            accumulator.write(destination_name, value, strategy);
+        }
+    } else if !lines.is_empty() {
+        let joined = join_with_comma(&lines)
+            .map_err(|_| HeaderRuleRuntimeError::BadHeaderValue(name.to_string()))?;
+        accumulator.write(destination_name, &joined, strategy);
+    }
+
+    Ok(!lines.is_empty())
+}
+
 impl ApplyResponseHeader for ResponsePropagateNamed {
     fn apply_response_headers(
         &self,
@@ -95,25 +122,13 @@ impl ApplyResponseHeader for ResponsePropagateNamed {
                 continue;
             }
 
-            if is_never_join_header(header_name) {
-                // Never-join-headers (like `set-cookie`) can appear multiple
-                // times in a single subgraph response, so we need to propagate them all
-                for header_value in ctx.subgraph_headers.get_all(header_name) {
-                    matched = true;
-                    accumulator.write(
-                        self.rename.as_ref().unwrap_or(header_name),
-                        header_value,
-                        self.strategy,
-                    );
-                }
-            } else if let Some(header_value) = ctx.subgraph_headers.get(header_name) {
-                matched = true;
-                accumulator.write(
-                    self.rename.as_ref().unwrap_or(header_name),
-                    header_value,
-                    self.strategy,
-                );
-            }
+            matched |= propagate_header(
+                ctx.subgraph_headers,
+                header_name,
+                self.rename.as_ref().unwrap_or(header_name),
+                self.strategy,
+                accumulator,
+            )?;
         }
 
         if !matched {
@@ -138,7 +153,7 @@ impl ApplyResponseHeader for ResponsePropagateRegex {
         ctx: &ResponseExpressionContext,
         accumulator: &mut ResponseHeaderAggregator,
     ) -> Result<(), HeaderRuleRuntimeError> {
-        for (header_name, header_value) in ctx.subgraph_headers {
+        for header_name in ctx.subgraph_headers.keys() {
             if is_denied_response_header(header_name) {
                 continue;
             }
@@ -161,7 +176,13 @@ impl ApplyResponseHeader for ResponsePropagateRegex {
                 continue;
             }
 
-            accumulator.write(header_name, header_value, self.strategy);
+            propagate_header(
+                ctx.subgraph_headers,
+                header_name,
+                header_name,
+                self.strategy,
+                accumulator,
+            )?;
         }
 
         Ok(())
-- 
2.43.0


From 62ef58466536583bed975b3d42ecaf889cde0db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:04 +0000
Subject: [PATCH 07/38] fix: never propagate a header under a denied name
 through rename

The denied list was checked against the source name (and the default) only, so
`rename` could put a client's or a subgraph's value into a hop-by-hop header,
or replace the router's own content-type.
---
 bin/router/src/executor/headers/request.rs  | 5 +++--
 bin/router/src/executor/headers/response.rs | 7 +++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/bin/router/src/executor/headers/request.rs b/bin/router/src/executor/headers/request.rs
index f7d4260..3732ef9 100644
--- a/bin/router/src/executor/headers/request.rs
+++ b/bin/router/src/executor/headers/request.rs
@@ -77,11 +77,12 @@ impl ApplyRequestHeader for RequestPropagateNamed {
         let mut matched = false;
 
         for header_name in &self.names {
-            if is_denied_header(header_name) {
+            let destination_name = self.rename.as_ref().unwrap_or(header_name);
+
+            if is_denied_header(header_name) || is_denied_header(destination_name) {
                 continue;
             }
             if let Some(header_value) = ctx.client_request.headers.get(header_name) {
-                let destination_name = self.rename.as_ref().unwrap_or(header_name);
                 output_headers.append(destination_name, header_value.into());
                 matched = true;
             }
diff --git a/bin/router/src/executor/headers/response.rs b/bin/router/src/executor/headers/response.rs
index 7ebb64f..330dc0c 100644
--- a/bin/router/src/executor/headers/response.rs
+++ b/bin/router/src/executor/headers/response.rs
@@ -118,14 +118,17 @@ impl ApplyResponseHeader for ResponsePropagateNamed {
         let mut matched = false;
 
         for header_name in &self.names {
-            if is_denied_response_header(header_name) {
+            let destination_name = self.rename.as_ref().unwrap_or(header_name);
+
+            if is_denied_response_header(header_name) || is_denied_response_header(destination_name)
+            {
                 continue;
             }
 
             matched |= propagate_header(
                 ctx.subgraph_headers,
                 header_name,
-                self.rename.as_ref().unwrap_or(header_name),
+                destination_name,
                 self.strategy,
                 accumulator,
             )?;
-- 
2.43.0


From a73ac71daad4ed1399189401ba1c8d95762295a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:06 +0000
Subject: [PATCH 08/38] fix: propagate every line of a request header the
 client repeats

By name only the first line was forwarded, by pattern all of them.
---
 bin/router/src/executor/headers/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/router/src/executor/headers/request.rs b/bin/router/src/executor/headers/request.rs
index 3732ef9..e6686b6 100644
--- a/bin/router/src/executor/headers/request.rs
+++ b/bin/router/src/executor/headers/request.rs
@@ -82,7 +82,7 @@ impl ApplyRequestHeader for RequestPropagateNamed {
             if is_denied_header(header_name) || is_denied_header(destination_name) {
                 continue;
             }
-            if let Some(header_value) = ctx.client_request.headers.get(header_name) {
+            for header_value in ctx.client_request.headers.get_all(header_name) {
                 output_headers.append(destination_name, header_value.into());
                 matched = true;
             }
-- 
2.43.0


From d4014af322431fd194693efd9610089f096b4421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:08 +0000
Subject: [PATCH 09/38] fix: honour exclude in rules that remove headers

`exclude` is part of the match of `propagate` and `remove`; a remove rule
compiled it and then removed the excluded headers too.
---
 bin/router/src/executor/headers/compile.rs  |  2 ++
 bin/router/src/executor/headers/plan.rs     |  2 ++
 bin/router/src/executor/headers/request.rs  | 12 +++++++++++-
 bin/router/src/executor/headers/response.rs | 12 +++++++++++-
 4 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/bin/router/src/executor/headers/compile.rs b/bin/router/src/executor/headers/compile.rs
index d24dc6c..8c4fc46 100644
--- a/bin/router/src/executor/headers/compile.rs
+++ b/bin/router/src/executor/headers/compile.rs
@@ -71,6 +71,7 @@ impl HeaderRuleCompiler<Vec<RequestHeaderRule>> for config::RequestHeaderRule {
                 if let Some(regex_set) = spec.include_regex {
                     actions.push(RequestHeaderRule::RemoveRegex(RequestRemoveRegex {
                         regex: regex_set,
+                        exclude: spec.exclude_regex,
                     }));
                 }
             }
@@ -153,6 +154,7 @@ impl HeaderRuleCompiler<Vec<ResponseHeaderRule>> for config::ResponseHeaderRule
                 if let Some(regex_set) = spec.include_regex {
                     actions.push(ResponseHeaderRule::RemoveRegex(ResponseRemoveRegex {
                         regex: regex_set,
+                        exclude: spec.exclude_regex,
                     }));
                 }
             }
diff --git a/bin/router/src/executor/headers/plan.rs b/bin/router/src/executor/headers/plan.rs
index de6e595..75728c3 100644
--- a/bin/router/src/executor/headers/plan.rs
+++ b/bin/router/src/executor/headers/plan.rs
@@ -85,11 +85,13 @@ pub struct ResponseRemoveNamed {
 #[derive(Clone)]
 pub struct RequestRemoveRegex {
     pub regex: Regex,
+    pub exclude: Option<Regex>,
 }
 
 #[derive(Clone)]
 pub struct ResponseRemoveRegex {
     pub regex: Regex,
+    pub exclude: Option<Regex>,
 }
 
 #[derive(Clone)]
diff --git a/bin/router/src/executor/headers/request.rs b/bin/router/src/executor/headers/request.rs
index e6686b6..ce05a6b 100644
--- a/bin/router/src/executor/headers/request.rs
+++ b/bin/router/src/executor/headers/request.rs
@@ -213,7 +213,17 @@ impl ApplyRequestHeader for RequestRemoveRegex {
                 continue;
             }
 
-            if self.regex.is_match(header_name.as_str().as_bytes()) {
+            let header_bytes = header_name.as_str().as_bytes();
+
+            if self
+                .exclude
+                .as_ref()
+                .is_some_and(|regex| regex.is_match(header_bytes))
+            {
+                continue;
+            }
+
+            if self.regex.is_match(header_bytes) {
                 headers_to_remove.push(header_name.clone());
             }
         }
diff --git a/bin/router/src/executor/headers/response.rs b/bin/router/src/executor/headers/response.rs
index 330dc0c..9c19fa1 100644
--- a/bin/router/src/executor/headers/response.rs
+++ b/bin/router/src/executor/headers/response.rs
@@ -270,7 +270,17 @@ impl ApplyResponseHeader for ResponseRemoveRegex {
                 return true;
             }
 
-            !self.regex.is_match(name.as_str().as_bytes())
+            let header_bytes = name.as_str().as_bytes();
+
+            if self
+                .exclude
+                .as_ref()
+                .is_some_and(|regex| regex.is_match(header_bytes))
+            {
+                return true;
+            }
+
+            !self.regex.is_match(header_bytes)
         });
 
         Ok(())
-- 
2.43.0


From 02b71f87390bea3cd343def5015412cdd9317204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:36 +0000
Subject: [PATCH 10/38] fix: let a CORS policy deny credentials the global
 settings allow

---
 bin/router/src/pipeline/cors.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bin/router/src/pipeline/cors.rs b/bin/router/src/pipeline/cors.rs
index 89c895a..9599b5f 100644
--- a/bin/router/src/pipeline/cors.rs
+++ b/bin/router/src/pipeline/cors.rs
@@ -35,10 +35,10 @@ impl CompiledCORSPolicy {
                 .or_else(|| global.allow_headers_value.clone()),
             expose_headers_value: header_value_from_list(&policy_config.expose_headers)
                 .or_else(|| global.expose_headers_value.clone()),
-            allow_credentials_value: if policy_config.allow_credentials == Some(true) {
-                Some(HeaderValue::from_static("true"))
-            } else {
-                global.allow_credentials_value.clone()
+            allow_credentials_value: match policy_config.allow_credentials {
+                Some(true) => Some(HeaderValue::from_static("true")),
+                Some(false) => None,
+                None => global.allow_credentials_value.clone(),
             },
             max_age_value: if let Some(max_age) = policy_config.max_age {
                 HeaderValue::from_str(&max_age.to_string()).ok()
-- 
2.43.0


From a5499e5875e3fea0ea6ab5daa8b72dec9123b688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:26 +0000
Subject: [PATCH 11/38] fix: descend into lists of lists when collecting
 entities

---
 bin/router/src/executor/utils/traverse.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/bin/router/src/executor/utils/traverse.rs b/bin/router/src/executor/utils/traverse.rs
index a09454c..f56bedb 100644
--- a/bin/router/src/executor/utils/traverse.rs
+++ b/bin/router/src/executor/utils/traverse.rs
@@ -35,7 +35,13 @@ pub fn traverse_and_callback_mut<'a, Callback>(
                 let current_error_path_for_index = current_error_path
                     .as_ref()
                     .map(|current_error_path| current_error_path.concat_index(index));
-                callback(item, current_error_path_for_index);
+                traverse_and_callback_mut(
+                    item,
+                    remaining_path,
+                    schema_metadata,
+                    current_error_path_for_index,
+                    callback,
+                );
             }
         } else {
             // If the path is empty and current_data is not an array, just call the callback
@@ -48,8 +54,12 @@ pub fn traverse_and_callback_mut<'a, Callback>(
         FlattenNodePathSegment::List => {
             // If the key is List, we expect current_data to be an array
             if let Value::Array(arr) = current_data {
-                let rest_of_path = &remaining_path[1..];
                 for (index, item) in arr.iter_mut().enumerate() {
+                    // A list of lists is a single List segment of the path
+                    let rest_of_path = match item {
+                        Value::Array(_) => remaining_path,
+                        _ => &remaining_path[1..],
+                    };
                     let current_error_path_for_index = current_error_path
                         .as_ref()
                         .map(|current_error_path| current_error_path.concat_index(index));
@@ -137,7 +147,7 @@ pub fn traverse_and_callback<'a, Callback>(
     if remaining_path.is_empty() {
         if let Value::Array(arr) = current_data {
             for item in arr.iter() {
-                callback(item);
+                traverse_and_callback(item, remaining_path, possible_types, callback);
             }
         } else {
             callback(current_data);
@@ -148,8 +158,12 @@ pub fn traverse_and_callback<'a, Callback>(
     match &remaining_path[0] {
         FlattenNodePathSegment::List => {
             if let Value::Array(arr) = current_data {
-                let rest_of_path = &remaining_path[1..];
                 for item in arr.iter() {
+                    // A list of lists is a single List segment of the path
+                    let rest_of_path = match item {
+                        Value::Array(_) => remaining_path,
+                        _ => &remaining_path[1..],
+                    };
                     traverse_and_callback(item, rest_of_path, possible_types, callback);
                 }
             }
-- 
2.43.0


From f1842f3f23e12d9b68cda7c530aeee78a48adeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:26 +0000
Subject: [PATCH 12/38] fix: null unlisted enum values inside lists too

---
 bin/router/src/executor/projection/plan.rs    | 23 +++++++++++++++++++
 .../src/executor/projection/response.rs       |  6 +++++
 2 files changed, 29 insertions(+)

diff --git a/bin/router/src/executor/projection/plan.rs b/bin/router/src/executor/projection/plan.rs
index 9ab0889..4b4d3af 100644
--- a/bin/router/src/executor/projection/plan.rs
+++ b/bin/router/src/executor/projection/plan.rs
@@ -228,6 +228,20 @@ impl FieldProjectionCondition {
     }
 }
 
+impl FieldProjectionCondition {
+    /// The values of the enum type that the condition restricts the field to.
+    fn enum_values(&self) -> Option<&HashSet<String>> {
+        match self {
+            FieldProjectionCondition::EnumValuesCondition(values) => Some(values),
+            FieldProjectionCondition::And(left, right)
+            | FieldProjectionCondition::Or(left, right) => {
+                left.enum_values().or_else(|| right.enum_values())
+            }
+            _ => None,
+        }
+    }
+}
+
 impl FieldProjectionPlan {
     #[instrument(level = "trace", skip_all)]
     pub fn from_operation<'a>(
@@ -1026,6 +1040,15 @@ impl FieldProjectionPlan {
         }
     }
 
+    /// Whether a string can be a value of this field.
+    /// It cannot when the field is of an enum type that does not have it.
+    pub fn allows_enum_value(&self, value: &str) -> bool {
+        self.conditions
+            .as_ref()
+            .and_then(|condition| condition.enum_values())
+            .is_none_or(|enum_values| enum_values.contains(value))
+    }
+
     pub fn with_new_value(&self, new_value: ProjectionValueSource) -> FieldProjectionPlan {
         FieldProjectionPlan {
             field_name: self.field_name.clone(),
diff --git a/bin/router/src/executor/projection/response.rs b/bin/router/src/executor/projection/response.rs
index 2478d9d..71a730b 100644
--- a/bin/router/src/executor/projection/response.rs
+++ b/bin/router/src/executor/projection/response.rs
@@ -305,6 +305,12 @@ fn project_selection_set<'a>(
             buffer.put(NULL);
             Ok(NullPropagationDecision::PropagateNullValue)
         }
+        Value::String(value) if !selection.allows_enum_value(value) => {
+            // An item of a list of enums, the value of any other enum field is checked by its condition
+            buffer.put(NULL);
+            errors.push(GraphQLError::from("Value is not a valid enum value"));
+            Ok(NullPropagationDecision::PropagateNullValue)
+        }
         _ => {
             // If the data is not an object or array, we serialize it directly
             serialize_value_to_buffer(data, buffer);
-- 
2.43.0


From ae3d061b0a65103648c8c80b3c09ff7056877e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:26 +0000
Subject: [PATCH 13/38] fix: report the concrete type, escaped, for an aliased
 __typename

---
 .../src/executor/projection/response.rs       | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/bin/router/src/executor/projection/response.rs b/bin/router/src/executor/projection/response.rs
index 71a730b..94734c9 100644
--- a/bin/router/src/executor/projection/response.rs
+++ b/bin/router/src/executor/projection/response.rs
@@ -388,9 +388,10 @@ fn project_selection_set_with_map<'a>(
                     ProjectionValueSource::ResponseData { .. } => {
                         if plan.is_typename {
                             // If the field is TYPENAME_FIELD, we should set it to the parent type name
-                            buffer.put(QUOTE);
-                            buffer.put(parent_type_name.get()?.as_bytes());
-                            buffer.put(QUOTE);
+                            write_and_escape_string(
+                                buffer,
+                                project_type_name(obj, field_val, &parent_type_name)?,
+                            );
                             NullPropagationDecision::KeepNullValue
                         } else if let Some(field_val) = field_val {
                             project_selection_set(
@@ -469,6 +470,25 @@ fn project_selection_set_with_map<'a>(
     Ok(NullPropagationDecision::KeepNullValue)
 }
 
+/// The value of a `__typename` field of an object.
+/// When the object carries no plain `__typename`, the value fetched under an alias
+/// is the only source of the concrete type, the parent's declared type may be abstract.
+#[inline]
+fn project_type_name<'a>(
+    obj: &'a [(&str, Value)],
+    field_val: Option<&'a Value>,
+    parent_type_name: &TypeName<'a>,
+) -> Result<&'a str, ProjectionError> {
+    let has_typename = obj
+        .binary_search_by_key(&TYPENAME_FIELD_NAME, |(k, _)| *k)
+        .is_ok();
+
+    match field_val.and_then(|value| value.as_str()) {
+        Some(type_name) if !has_typename => Ok(type_name),
+        _ => parent_type_name.get(),
+    }
+}
+
 #[inline]
 fn check<'a, F, T>(
     cond: &FieldProjectionCondition,
-- 
2.43.0


From fa17a19135bfd70505f43573e85dce99e9c56b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:26 +0000
Subject: [PATCH 14/38] fix: answer an operation with all its fields skipped
 instead of failing to plan it

---
 bin/router/src/pipeline/query_plan.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bin/router/src/pipeline/query_plan.rs b/bin/router/src/pipeline/query_plan.rs
index 975b6ce..47e327f 100644
--- a/bin/router/src/pipeline/query_plan.rs
+++ b/bin/router/src/pipeline/query_plan.rs
@@ -93,7 +93,6 @@ pub async fn plan_operation_with_cache(
         };
         let plan_cache_key = calculate_cache_key(operation_for_plan_hash, &stable_override_context);
         let is_plan_operation_empty = filtered_operation_for_plan.selection_set.is_empty();
-        let is_projection_plan_empty = normalized_operation.projection_plan.is_empty();
         let contains_introspection = normalized_operation.operation_for_introspection.is_some();
         let is_pure_introspection = is_plan_operation_empty && contains_introspection;
 
@@ -108,9 +107,7 @@ pub async fn plan_operation_with_cache(
                     return Ok(EMPTY_QUERY_PLAN.clone());
                 }
 
-                // If the operation is empty, but the projection plan is not,,
-                // we don't need to run the planner,
-                // as there is nothing to plan,
+                // If there is nothing to plan, we don't need to run the planner,
                 // but we can't error out either,
                 // as it would unwind into PipelineError,
                 // and the response would be malformed.
@@ -118,9 +115,11 @@ pub async fn plan_operation_with_cache(
                 // One example here is a scenario when all requested fields
                 // were unauthorized and stripped out from the operation,
                 // but we still need to project nulls for them in the response.
+                // Another one is an operation with all its fields skipped
+                // by `@skip` or `@include`, whose response is an empty object.
                 // That's why we return an empty plan,
                 // and allow for response projection to happen later.
-                if is_plan_operation_empty && !is_projection_plan_empty {
+                if is_plan_operation_empty {
                     return Ok(EMPTY_QUERY_PLAN.clone());
                 }
 
-- 
2.43.0


From 98d36b0311c4c50129e8b6f85e47139b9b6a0bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:26 +0000
Subject: [PATCH 15/38] fix: expand a conditional fragment on the union it is
 spread in

---
 .../pipeline/flatten_fragments.rs             | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/bin/router/src/query_planner/ast/normalization/pipeline/flatten_fragments.rs b/bin/router/src/query_planner/ast/normalization/pipeline/flatten_fragments.rs
index c39261b..92027b6 100644
--- a/bin/router/src/query_planner/ast/normalization/pipeline/flatten_fragments.rs
+++ b/bin/router/src/query_planner/ast/normalization/pipeline/flatten_fragments.rs
@@ -243,21 +243,25 @@ fn process_inline_fragment(
                 &mut fragment.selection_set,
             )?;
 
+            // The members of a union share no fields, so even `... on Union` must be expanded.
+            let should_expand = match parent_type_def {
+                SupergraphDefinition::Interface(_) => had_no_type_condition,
+                SupergraphDefinition::Union(_) => true,
+                _ => false,
+            };
+
             if had_no_type_condition {
                 fragment.type_condition =
                     Some(TypeCondition::On(parent_type_def.name().to_string()));
+            }
 
-                if matches!(
+            if should_expand {
+                return expand_abstract_fragment(
+                    state,
+                    possible_types,
                     parent_type_def,
-                    SupergraphDefinition::Interface(_) | SupergraphDefinition::Union(_)
-                ) {
-                    return expand_abstract_fragment(
-                        state,
-                        possible_types,
-                        parent_type_def,
-                        fragment,
-                    );
-                }
+                    fragment,
+                );
             }
 
             Ok(vec![Selection::InlineFragment(fragment)])
-- 
2.43.0


From ae4dc36128b506fd4539b23fb1ca74b6ac0e98e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:34 +0000
Subject: [PATCH 16/38] fix: answer an empty object when every field of the
 operation is skipped

---
 bin/router/src/executor/execution/plan.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/bin/router/src/executor/execution/plan.rs b/bin/router/src/executor/execution/plan.rs
index b673473..b407505 100644
--- a/bin/router/src/executor/execution/plan.rs
+++ b/bin/router/src/executor/execution/plan.rs
@@ -445,8 +445,6 @@ pub async fn execute_query_plan<'exec>(
     let introspection_context_clone = Arc::clone(&opts.introspection_context);
     let data = if let Some(introspection_query) = &introspection_context_clone.query {
         resolve_introspection(introspection_query, &introspection_context_clone)
-    } else if opts.projection_plan.is_empty() {
-        Value::Null
     } else {
         Value::Object(Vec::new())
     };
-- 
2.43.0


From cd19ae72abcda0ed7c81419dbfcce1991c8f36b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:34 +0000
Subject: [PATCH 17/38] fix: apply a fragment on the type it is spread in to
 objects of unknown type too

---
 bin/router/src/executor/projection/plan.rs | 26 +++++++++++++++-------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/bin/router/src/executor/projection/plan.rs b/bin/router/src/executor/projection/plan.rs
index 4b4d3af..71401af 100644
--- a/bin/router/src/executor/projection/plan.rs
+++ b/bin/router/src/executor/projection/plan.rs
@@ -1005,12 +1005,20 @@ impl FieldProjectionPlan {
             )
         };
 
-        let mut condition_for_fragment = Self::and_optional(
-            parent_condition.clone(),
-            Some(FieldProjectionCondition::ParentTypeCondition(
-                type_condition.clone(),
-            )),
-        );
+        // A fragment on the type it is spread in (`... on Node @include(...)` inside `Node`)
+        // applies to every object there, whether the concrete type of the object is known or not.
+        let narrows_type = inline_fragment_type != parent_type_name;
+
+        let mut condition_for_fragment = if narrows_type {
+            Self::and_optional(
+                parent_condition.clone(),
+                Some(FieldProjectionCondition::ParentTypeCondition(
+                    type_condition.clone(),
+                )),
+            )
+        } else {
+            parent_condition.clone()
+        };
 
         condition_for_fragment = Self::apply_directive_conditions(
             condition_for_fragment,
@@ -1025,8 +1033,10 @@ impl FieldProjectionPlan {
             &condition_for_fragment,
         ) {
             // Update the type guard for all selections from this fragment
-            for selection in &mut inline_fragment_selections {
-                selection.parent_type_guard = Some(type_condition.clone());
+            if narrows_type {
+                for selection in &mut inline_fragment_selections {
+                    selection.parent_type_guard = Some(type_condition.clone());
+                }
             }
 
             for selection in inline_fragment_selections {
-- 
2.43.0


From 9184c43ef95478348b33d99688c5ff598121d93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:27 +0000
Subject: [PATCH 18/38] fix: merge the selections of a field selected under
 several type conditions

---
 bin/router/src/executor/projection/plan.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/bin/router/src/executor/projection/plan.rs b/bin/router/src/executor/projection/plan.rs
index 71401af..2ebc220 100644
--- a/bin/router/src/executor/projection/plan.rs
+++ b/bin/router/src/executor/projection/plan.rs
@@ -891,12 +891,7 @@ impl FieldProjectionPlan {
             .as_ref()
             .and_then(Self::conditions_for_child_selections);
         let conditions_for_selections = Self::apply_directive_conditions(
-            Self::and_optional(
-                inherited_selection_conditions,
-                parent_type_guard
-                    .as_ref()
-                    .map(|_| FieldProjectionCondition::ParentTypeCondition(type_condition.clone())),
-            ),
+            inherited_selection_conditions,
             &field.include_if,
             &field.skip_if,
         );
-- 
2.43.0


From ae922b7b8e026bdddecf8d7592666829b928bd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:05 +0000
Subject: [PATCH 19/38] fix: recognise the end of a subgraph SSE event whose
 lines end in different ways

An event whose last line ends with '\n' and whose empty line with '\r\n' was not
recognised as complete, so it was delayed until, and merged with, the next event.
---
 bin/router/src/executor/executors/sse.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/bin/router/src/executor/executors/sse.rs b/bin/router/src/executor/executors/sse.rs
index 690cad2..3cf7dd2 100644
--- a/bin/router/src/executor/executors/sse.rs
+++ b/bin/router/src/executor/executors/sse.rs
@@ -103,20 +103,19 @@ struct SubgraphSseEvent {
     pub data: String,
 }
 
-/// find the boundary of a complete event in the stream, the '\n\n' or '\r\n\r\n'
+/// find the boundary of a complete event in the stream: a line followed by an empty line,
+/// whichever of '\n' and '\r\n' ends each of them
 fn find_sse_event_boundary(buffer: &[u8]) -> Option<usize> {
-    for i in 0..buffer.len().saturating_sub(1) {
-        if buffer[i] == b'\r'
-            && i + 3 < buffer.len()
-            && buffer[i + 1] == b'\n'
-            && buffer[i + 2] == b'\r'
-            && buffer[i + 3] == b'\n'
-        {
-            return Some(i + 4);
+    for i in 0..buffer.len() {
+        if buffer[i] != b'\n' || i + 1 >= buffer.len() {
+            continue;
         }
-        if buffer[i] == b'\n' && buffer[i + 1] == b'\n' {
+        if buffer[i + 1] == b'\n' {
             return Some(i + 2);
         }
+        if buffer[i + 1] == b'\r' && i + 2 < buffer.len() && buffer[i + 2] == b'\n' {
+            return Some(i + 3);
+        }
     }
     None
 }
-- 
2.43.0


From 68b341a764747bf4b8b9ea999e5db3ccf351e62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:05 +0000
Subject: [PATCH 20/38] fix: only take the multipart delimiter at the start of
 a line, and wait for its line to be complete

The text of the delimiter inside a payload cut the part in two, and a delimiter line that
arrived in several chunks was mistaken (the end marker for a mere delimiter, the rest of the
line for content).
---
 .../executor/executors/multipart_subscribe.rs | 56 +++++++++----------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/bin/router/src/executor/executors/multipart_subscribe.rs b/bin/router/src/executor/executors/multipart_subscribe.rs
index 843a07b..61f19e1 100644
--- a/bin/router/src/executor/executors/multipart_subscribe.rs
+++ b/bin/router/src/executor/executors/multipart_subscribe.rs
@@ -96,6 +96,9 @@ where
                 if !started {
                     buffer.drain(..skip_len);
                     started = true;
+                    if is_end {
+                        return;
+                    }
                     continue;
                 }
 
@@ -144,6 +147,15 @@ where
     Box::pin(stream)
 }
 
+/// Finds the next delimiter line, and returns the length of what comes before it, the length of
+/// the delimiter line itself, and whether it is the one that ends the stream.
+///
+/// The delimiter is only one at the start of a line: in the middle of a line its text belongs
+/// to the payload.
+///
+/// A part is complete as soon as its delimiter is there, although the rest of the delimiter line,
+/// which tells whether it is the last one, may still be on its way. The delimiter is then left in
+/// the buffer (with nothing before it, it is only found again once its line is complete).
 fn find_next_part(
     buffer: &[u8],
     delimiter: &str,
@@ -153,38 +165,24 @@ fn find_next_part(
     let delimiter_b = delimiter.as_bytes();
     let end_marker_b = end_marker.as_bytes();
 
-    let find_bytes = |haystack: &[u8], needle: &[u8]| -> Option<usize> {
-        haystack.windows(needle.len()).position(|w| w == needle)
+    let pos = (0..buffer.len()).find(|&pos| {
+        (pos == 0 || buffer[pos - 1] == b'\n') && buffer[pos..].starts_with(delimiter_b)
+    })?;
+    let is_end = buffer[pos..].starts_with(end_marker_b);
+    let newline_pos = buffer[pos..].iter().position(|&b| b == b'\n');
+
+    let line_len = match newline_pos {
+        Some(newline_pos) => newline_pos + 1,
+        None if is_end => end_marker_b.len(),
+        None if started && pos > 0 => 0,
+        None => return None,
     };
 
-    if !started {
-        let pos = find_bytes(buffer, delimiter_b)?;
-        let after_delimiter = pos + delimiter_b.len();
-        let newline_pos = buffer[after_delimiter..].iter().position(|&b| b == b'\n')?;
-        let skip_len = after_delimiter + newline_pos + 1;
-        return Some((0, skip_len, false));
-    }
-
-    let next_delimiter_pos = find_bytes(buffer, delimiter_b)?;
-    let is_end = buffer[next_delimiter_pos..].starts_with(end_marker_b);
-
-    let skip_len = if is_end {
-        let after_end = next_delimiter_pos + end_marker_b.len();
-        if let Some(newline) = buffer[after_end..].iter().position(|&b| b == b'\n') {
-            end_marker_b.len() + newline + 1
-        } else {
-            end_marker_b.len()
-        }
+    if started {
+        Some((pos, line_len, is_end))
     } else {
-        let after_delimiter = next_delimiter_pos + delimiter_b.len();
-        if let Some(newline) = buffer[after_delimiter..].iter().position(|&b| b == b'\n') {
-            delimiter_b.len() + newline + 1
-        } else {
-            delimiter_b.len()
-        }
-    };
-
-    Some((next_delimiter_pos, skip_len, is_end))
+        Some((0, pos + line_len, is_end))
+    }
 }
 
 fn parse_part(
-- 
2.43.0


From 4440f7ac552f47c93f6fc492cd96d93fa1218cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:05 +0000
Subject: [PATCH 21/38] fix: write each line of the JSON of an SSE event as a
 line of data

The JSON of a custom scalar is written as the subgraph formatted it, so it may span lines; the
client would have dropped all but the first of them.
---
 bin/router/src/pipeline/sse.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bin/router/src/pipeline/sse.rs b/bin/router/src/pipeline/sse.rs
index 9c9acb7..0fa99c1 100644
--- a/bin/router/src/pipeline/sse.rs
+++ b/bin/router/src/pipeline/sse.rs
@@ -21,9 +21,15 @@ pub fn create_stream(
                              match std::str::from_utf8(&resp) {
                                 Ok(json_str) => {
                                     let mut sse_event = ntex::util::BytesMut::with_capacity(json_str.len() + 25);
-                                    sse_event.put_slice(b"event: next\ndata: ");
-                                    sse_event.put_slice(json_str.as_bytes());
-                                    sse_event.put_slice(b"\n\n");
+                                    sse_event.put_slice(b"event: next\n");
+                                    // The JSON may span lines (custom scalars are written as the subgraph
+                                    // formatted them), each of them has to be a line of data.
+                                    for line in json_str.split(['\n', '\r']) {
+                                        sse_event.put_slice(b"data: ");
+                                        sse_event.put_slice(line.as_bytes());
+                                        sse_event.put_slice(b"\n");
+                                    }
+                                    sse_event.put_slice(b"\n");
                                     yield Ok(sse_event.freeze());
                                 }
                                 Err(e) => {
-- 
2.43.0


From d82c6b0873358c06cbea1ec58ef559da327d04f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:47 +0000
Subject: [PATCH 22/38] fix: reject a JWT whose nbf is in the future

---
 bin/router/src/jwt/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/router/src/jwt/mod.rs b/bin/router/src/jwt/mod.rs
index c625691..ce74b1e 100644
--- a/bin/router/src/jwt/mod.rs
+++ b/bin/router/src/jwt/mod.rs
@@ -225,6 +225,9 @@ impl JwtAuthRuntime {
 
         let mut validation = Validation::new(alg);
 
+        // `jsonwebtoken` does not look at `nbf` by default: a token that is not valid yet would be accepted.
+        validation.validate_nbf = true;
+
         // This only validates the existence of the claim, it does not validate the values, we'll do it after decoding.
         if let Some(iss) = &self.config.issuers {
             validation.set_issuer(iss);
-- 
2.43.0


From 935ff786725f880729a6b62fc07f5f9585b71832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:11 +0000
Subject: [PATCH 23/38] fix: try each key of a JWT once

The outcome of the second pass over the keys was unwrapped as an error, although it
is computed from the clock again: a token whose nbf passed in between panicked.
---
 bin/router/src/jwt/mod.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/bin/router/src/jwt/mod.rs b/bin/router/src/jwt/mod.rs
index ce74b1e..31449f4 100644
--- a/bin/router/src/jwt/mod.rs
+++ b/bin/router/src/jwt/mod.rs
@@ -184,20 +184,17 @@ impl JwtAuthRuntime {
         token: &str,
         jwks: &[Jwk],
     ) -> Result<JwtTokenPayload, JwtError> {
-        let decode_attempts = jwks
-            .iter()
-            .map(|jwk| self.try_decode_from_jwk(header, token, jwk));
+        // Each key is tried once: the outcome may depend on the clock, so it must not be computed again.
+        let mut errors = Vec::with_capacity(jwks.len());
 
-        if let Some(success) = decode_attempts.clone().find(|result| result.is_ok()) {
-            return success;
+        for jwk in jwks {
+            match self.try_decode_from_jwk(header, token, jwk) {
+                Ok(token_data) => return Ok(token_data),
+                Err(err) => errors.push(err),
+            }
         }
 
-        Err(JwtError::AllProvidersFailedToDecode(
-            decode_attempts
-                .into_iter()
-                .map(|result: Result<JwtTokenPayload, JwtError>| result.unwrap_err())
-                .collect::<Vec<_>>(),
-        ))
+        Err(JwtError::AllProvidersFailedToDecode(errors))
     }
 
     fn try_decode_from_jwk(
-- 
2.43.0


From 80ea01ca4820e83871be9b64d0b7ece99fc62a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:10 +0000
Subject: [PATCH 24/38] fix: name the subgraph of the errors of a subscription
 event

Without it they are taken for errors of the router itself and are never masked.
---
 bin/router/src/executor/executors/http.rs           |  6 ++++--
 bin/router/src/executor/executors/http_callback.rs  |  3 ++-
 bin/router/src/executor/executors/websocket.rs      |  5 ++++-
 .../src/executor/response/subgraph_response.rs      | 13 +++++++++++++
 bin/router/src/pipeline/http_callback.rs            |  7 ++++++-
 5 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/bin/router/src/executor/executors/http.rs b/bin/router/src/executor/executors/http.rs
index 83351d9..18f488e 100644
--- a/bin/router/src/executor/executors/http.rs
+++ b/bin/router/src/executor/executors/http.rs
@@ -634,6 +634,7 @@ impl SubgraphExecutor for HTTPSubgraphExecutor {
                     SubscriptionTransport::HttpMultipart,
                 );
 
+            let subgraph_name = self.subgraph_name.clone();
             let mapped = Box::pin(async_stream::stream! {
                 let _op_guard = op_guard;
                 let _conn_guard = conn_guard;
@@ -645,7 +646,7 @@ impl SubgraphExecutor for HTTPSubgraphExecutor {
                         Ok(response) => {
                             trace!(target: targets::HTTP_CLIENT, response = ?response, "multipart subscription event received");
 
-                            yield Ok(response);
+                            yield Ok(response.with_subgraph_name(&subgraph_name));
                         }
                         Err(e) => {
                             yield Err(SubgraphExecutorError::MultipartStreamError(e.to_string()));
@@ -686,6 +687,7 @@ impl SubgraphExecutor for HTTPSubgraphExecutor {
                 .subscriptions
                 .active_subgraph_connection(&self.subgraph_name, SubscriptionTransport::HttpSse);
 
+            let subgraph_name = self.subgraph_name.clone();
             let mapped = Box::pin(async_stream::stream! {
                 let _op_guard = op_guard;
                 let _conn_guard = conn_guard;
@@ -695,7 +697,7 @@ impl SubgraphExecutor for HTTPSubgraphExecutor {
                     match result {
                         Ok(response) => {
                             trace!(target: targets::HTTP_CLIENT, response = ?response, "SSE subscription event received");
-                            yield Ok(response);
+                            yield Ok(response.with_subgraph_name(&subgraph_name));
                         }
                         Err(e) => {
                             yield Err(SubgraphExecutorError::SseStreamError(e.to_string()));
diff --git a/bin/router/src/executor/executors/http_callback.rs b/bin/router/src/executor/executors/http_callback.rs
index e6cfcd6..2dab958 100644
--- a/bin/router/src/executor/executors/http_callback.rs
+++ b/bin/router/src/executor/executors/http_callback.rs
@@ -272,6 +272,7 @@ impl SubgraphExecutor for HttpCallbackSubgraphExecutor {
             .subscriptions
             .active_subgraph_connection(&self.subgraph_name, SubscriptionTransport::HttpCallback);
 
+        let subgraph_name = self.subgraph_name.clone();
         Ok(Box::pin(async_stream::stream! {
             // `guard` is held here; dropping the stream drops `guard`, removing the map entry.
             let _guard = guard;
@@ -296,7 +297,7 @@ impl SubgraphExecutor for HttpCallbackSubgraphExecutor {
                             payload,
                             custom_scalar_paths.as_ref(),
                         ) {
-                            Ok(response) => yield Ok(response),
+                            Ok(response) => yield Ok(response.with_subgraph_name(&subgraph_name)),
                             Err(e) => {
                                 error!(
                                     target: targets::HTTP_CALLBACK,
diff --git a/bin/router/src/executor/executors/websocket.rs b/bin/router/src/executor/executors/websocket.rs
index 3f6d811..d40b80a 100644
--- a/bin/router/src/executor/executors/websocket.rs
+++ b/bin/router/src/executor/executors/websocket.rs
@@ -286,7 +286,10 @@ impl SubgraphExecutor for WsSubgraphExecutor {
                 .subscribe(subscribe_payload, custom_scalar_paths)
                 .await
             {
-                Ok(stream) => stream.map(|item| item.map_err(SubgraphExecutorError::from)),
+                Ok(stream) => stream.map(|item| {
+                    item.map(|response| response.with_subgraph_name(&subgraph_name))
+                        .map_err(SubgraphExecutorError::from)
+                }),
                 Err(error) => {
                     let _ = tx.try_send(Err(error.into()));
                     return;
diff --git a/bin/router/src/executor/response/subgraph_response.rs b/bin/router/src/executor/response/subgraph_response.rs
index 596b81d..30a4286 100644
--- a/bin/router/src/executor/response/subgraph_response.rs
+++ b/bin/router/src/executor/response/subgraph_response.rs
@@ -33,6 +33,19 @@ impl SubgraphResponse<'_> {
             self.errors = Some(vec![error]);
         }
     }
+
+    /// Names the subgraph that the errors of the response came from.
+    pub fn with_subgraph_name(mut self, subgraph_name: &str) -> Self {
+        if let Some(errors) = self.errors.take() {
+            self.errors = Some(
+                errors
+                    .into_iter()
+                    .map(|error| error.add_subgraph_name(subgraph_name))
+                    .collect(),
+            );
+        }
+        self
+    }
 }
 
 impl<'de> de::Deserialize<'de> for SubgraphResponse<'de> {
diff --git a/bin/router/src/pipeline/http_callback.rs b/bin/router/src/pipeline/http_callback.rs
index bf84d64..527698a 100644
--- a/bin/router/src/pipeline/http_callback.rs
+++ b/bin/router/src/pipeline/http_callback.rs
@@ -203,7 +203,12 @@ fn handle_complete(
     // if the buffer is full or closed we ignore and remove the subscription, we dont send
     // the final error message because the client is already unable to consume
     let _ = subscription.sender.try_send(CallbackMessage::Complete {
-        errors: payload.errors.clone(),
+        errors: payload.errors.clone().map(|errors| {
+            errors
+                .into_iter()
+                .map(|error| error.add_subgraph_name(subscription.subgraph_name.as_str()))
+                .collect()
+        }),
     });
     drop(subscription);
     callback_subscriptions.remove(subscription_id);
-- 
2.43.0


From 778ea63b1da70f20e365693b1483fe07b13efa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:54 +0000
Subject: [PATCH 25/38] fix: keep the nulls of a list in a representation

---
 bin/router/src/executor/projection/request.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bin/router/src/executor/projection/request.rs b/bin/router/src/executor/projection/request.rs
index 6680df3..b20a654 100644
--- a/bin/router/src/executor/projection/request.rs
+++ b/bin/router/src/executor/projection/request.rs
@@ -72,6 +72,14 @@ pub fn project_requires(
 
             let mut first = true;
             for entity_item in entity_array {
+                if entity_item.is_null() {
+                    // A null keeps its place in the list
+                    write_response_key(first, None, buffer);
+                    buffer.put(NULL);
+                    first = false;
+                    continue;
+                }
+
                 let projected = project_requires(
                     possible_types,
                     requires_selections,
-- 
2.43.0


From a349e1b1fabb4a3aa5471fa471a1c57d895d1b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:54 +0000
Subject: [PATCH 26/38] fix: keep the keys of an object in order after a rename

---
 bin/router/src/executor/execution/rewrites.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/executor/execution/rewrites.rs b/bin/router/src/executor/execution/rewrites.rs
index 139463c..21b908c 100644
--- a/bin/router/src/executor/execution/rewrites.rs
+++ b/bin/router/src/executor/execution/rewrites.rs
@@ -82,7 +82,9 @@ impl RewriteApplier for KeyRenamer {
                             if let Some((key, _)) =
                                 obj.iter_mut().find(|(key, _)| key == field_name)
                             {
-                                *key = self.rename_key_to.as_str()
+                                *key = self.rename_key_to.as_str();
+                                // Keys are looked up by binary search
+                                obj.sort_unstable_by_key(|(key, _)| *key);
                             }
                         }
                     } else if let Some(data) = obj.iter_mut().find(|r| r.0 == field_name) {
-- 
2.43.0


From 6c8ef9d9e445535b8cb3e998ce37e1594f7d3239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:54 +0000
Subject: [PATCH 27/38] fix: give each @provides a view of its own

The views of fields of different types on the same type were one node: a field
provided by one of them was fetched through the other.
---
 bin/router/src/query_planner/graph/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bin/router/src/query_planner/graph/mod.rs b/bin/router/src/query_planner/graph/mod.rs
index 8ea58b3..e2ab399 100644
--- a/bin/router/src/query_planner/graph/mod.rs
+++ b/bin/router/src/query_planner/graph/mod.rs
@@ -1101,10 +1101,11 @@ impl Graph {
 
     #[instrument(level = "trace", skip(self, state))]
     fn build_viewed_field_edges(&mut self, state: &SupergraphState) -> Result<(), GraphError> {
+        // Every `@provides` has a view of its own, whichever type it is on.
+        let mut view_id = 0;
+
         for (def_name, definition) in state.definitions.iter() {
             for join_type in definition.join_types().iter() {
-                let mut view_id = 0;
-
                 // A map of provided types to graph ids that
                 // we need to create edges to their matching entity types.
                 let mut connection_to_build: HashMap<NodeIndex, String> = HashMap::new();
-- 
2.43.0


From 60a90a5ca3cdb48819189d55a64027c9fffbf83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:44 +0000
Subject: [PATCH 28/38] fix: fetch what a nested field requires from the step
 that selects its parent

A field with @requires below an object of its own type was taken to be at the root of
the entity call, whose parent does not select the object: the plan could not be built.
---
 .../planner/fetch/fetch_graph.rs              | 56 ++++++++++++-------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/bin/router/src/query_planner/planner/fetch/fetch_graph.rs b/bin/router/src/query_planner/planner/fetch/fetch_graph.rs
index eafea48..cf41a48 100644
--- a/bin/router/src/query_planner/planner/fetch/fetch_graph.rs
+++ b/bin/router/src/query_planner/planner/fetch/fetch_graph.rs
@@ -1468,6 +1468,21 @@ fn process_plain_field_edge(
     )
 }
 
+/// Whether the fetch step is an entity call that resolves the object at `response_path` itself,
+/// and not an object that leads to it.
+fn is_entity_call_of(
+    fetch_step: &FetchStepData<SingleTypeFetchStep>,
+    type_name: &str,
+    response_path: &MergePath,
+) -> bool {
+    fetch_step.output.is_selecting_definition(type_name)
+        && response_path
+            .inner
+            .iter()
+            .skip(fetch_step.response_path.len())
+            .all(|segment| !matches!(segment, Segment::Field(..)))
+}
+
 #[allow(clippy::too_many_arguments)]
 #[instrument(level = "trace",skip_all, fields(
   parent_fetch_step_index = parent_fetch_step_index.index(),
@@ -1487,18 +1502,6 @@ fn process_requires_field_edge(
     condition: Option<&Condition>,
     created_from_requires: bool,
 ) -> Result<Vec<NodeIndex>, FetchGraphError> {
-    if fetch_graph.parents_of(parent_fetch_step_index).count() != 1 {
-        return Err(FetchGraphError::NonSingleParent(
-            parent_fetch_step_index.index(),
-        ));
-    }
-
-    let parent_parent_index = fetch_graph
-        .parents_of(parent_fetch_step_index)
-        .next()
-        .map(|edge| edge.source())
-        .unwrap();
-
     let requires = field_move
         .requirements
         .as_ref()
@@ -1520,14 +1523,15 @@ fn process_requires_field_edge(
 
     let parent_fetch_step = fetch_graph.get_step_data(parent_fetch_step_index)?;
     // In case of a field with `@requires`, the parent will be the current subgraph we're in.
-    let real_parent_fetch_step_index = match !parent_fetch_step
-        .output
-        .is_selecting_definition(head_type_name)
-    {
-        // If the parent's output resolves a different type, then it's a root type.
-        // We can use that as a parent.
+    let real_parent_fetch_step_index = match !is_entity_call_of(
+        parent_fetch_step,
+        head_type_name,
+        response_path,
+    ) {
+        // If the parent's output resolves a different type or an object further up,
+        // we can use that as a parent.
         true => parent_fetch_step_index,
-        // If the parent's output resolves the same type, it means we're in an entity call.
+        // If the parent's output resolves this very object, it means we're in an entity call.
         // We need to move up, as the entity call was created to fetch regular fields of the type
         // (those without @requires).
         //
@@ -1539,7 +1543,19 @@ fn process_requires_field_edge(
         // }
         //
         // We need to stick to the parent of the parent.
-        false => parent_parent_index,
+        false => {
+            if fetch_graph.parents_of(parent_fetch_step_index).count() != 1 {
+                return Err(FetchGraphError::NonSingleParent(
+                    parent_fetch_step_index.index(),
+                ));
+            }
+
+            fetch_graph
+                .parents_of(parent_fetch_step_index)
+                .next()
+                .map(|edge| edge.source())
+                .unwrap()
+        }
     };
 
     // When a field (foo) is annotated with `@requires(fields: "bar")`
-- 
2.43.0


From 75a57d5e36870cc95a5ae9c6c87783c39eb682d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:34 +0000
Subject: [PATCH 29/38] fix: tell operations apart by all they consist of

---
 bin/router/src/query_planner/ast/hash.rs      | 61 +++++++++++++++++++
 bin/router/src/query_planner/ast/operation.rs |  4 +-
 bin/router/src/query_planner/ast/value.rs     |  2 +
 3 files changed, 65 insertions(+), 2 deletions(-)

diff --git a/bin/router/src/query_planner/ast/hash.rs b/bin/router/src/query_planner/ast/hash.rs
index 3af0921..9dd2a8d 100644
--- a/bin/router/src/query_planner/ast/hash.rs
+++ b/bin/router/src/query_planner/ast/hash.rs
@@ -1,6 +1,7 @@
 use rustc_hash::{FxBuildHasher, FxHashMap, FxHashSet, FxHasher};
 use std::cell::RefCell;
 use std::hash::{BuildHasher, Hash, Hasher};
+use xxhash_rust::xxh3::Xxh3;
 
 use crate::query_planner::ast::arguments::ArgumentsMap;
 use crate::query_planner::ast::fragment::FragmentDefinition;
@@ -63,6 +64,59 @@ pub fn ast_hash(query: &OperationDefinition) -> u64 {
     query.ast_hash::<_, false>(&mut hasher);
     hasher.finish()
 }
+
+/// Hashes everything in which two operations can differ, except for their names.
+///
+/// Unlike [`ast_hash`], it tells apart values of different kinds,
+/// and marks where selection sets and lists end,
+/// so it is fit for a key of what belongs to one operation only.
+pub fn operation_hash(operation: &OperationDefinition) -> u64 {
+    let mut hasher = Xxh3::new();
+    let (operation_kind, selection_set) = operation.parts();
+
+    operation_kind.as_str().hash(&mut hasher);
+    hash_selection_set(selection_set, &mut hasher);
+
+    let variable_definitions = operation.variable_definitions.as_deref().unwrap_or(&[]);
+    variable_definitions.len().hash(&mut hasher);
+    for variable in variable_definitions {
+        variable.name.hash(&mut hasher);
+        variable.variable_type.hash(&mut hasher);
+        variable.default_value.hash(&mut hasher);
+    }
+
+    hasher.finish()
+}
+
+fn hash_selection_set<H: Hasher>(selection_set: &SelectionSet, hasher: &mut H) {
+    selection_set.items.len().hash(hasher);
+    for item in &selection_set.items {
+        match item {
+            SelectionItem::Field(field) => {
+                0u8.hash(hasher);
+                field.name.hash(hasher);
+                field.alias.hash(hasher);
+                field.arguments.hash(hasher);
+                field.include_if.hash(hasher);
+                field.skip_if.hash(hasher);
+                field.omit_from_response.hash(hasher);
+                hash_selection_set(&field.selections, hasher);
+            }
+            SelectionItem::InlineFragment(fragment) => {
+                1u8.hash(hasher);
+                fragment.type_condition.hash(hasher);
+                fragment.include_if.hash(hasher);
+                fragment.skip_if.hash(hasher);
+                hash_selection_set(&fragment.selections, hasher);
+            }
+            SelectionItem::FragmentSpread(name) => {
+                2u8.hash(hasher);
+                name.hash(hasher);
+            }
+        }
+    }
+}
+
 // In all ShapeHash implementations, we never include anything to do with
 // the position of the element in the query, i.e., fields that involve
 // `Pos`
@@ -309,6 +363,13 @@ impl ASTHash for TypeNode {
 
 impl ASTHash for Value {
     fn ast_hash<H: Hasher, const ORDER_INDEPENDENT: bool>(&self, hasher: &mut H) {
+        if ORDER_INDEPENDENT {
+            // Equal hashes make one selection set stand for another, so a value
+            // must not pass for one of another kind, nor a list for its items.
+            self.hash(hasher);
+            return;
+        }
+
         match self {
             Value::List(values) => {
                 for value in values {
diff --git a/bin/router/src/query_planner/ast/operation.rs b/bin/router/src/query_planner/ast/operation.rs
index fcf57a5..520cb8d 100644
--- a/bin/router/src/query_planner/ast/operation.rs
+++ b/bin/router/src/query_planner/ast/operation.rs
@@ -1,7 +1,7 @@
 use std::fmt::Display;
 
 use crate::query_planner::{
-    ast::{document::Document, hash::ast_hash},
+    ast::{document::Document, hash::operation_hash},
     planner::plan_nodes::hash_minified_query,
     state::supergraph_state::TypeNode,
 };
@@ -36,7 +36,7 @@ impl OperationDefinition {
         )
     }
     pub fn hash(&self) -> u64 {
-        ast_hash(self)
+        operation_hash(self)
     }
 }
 
diff --git a/bin/router/src/query_planner/ast/value.rs b/bin/router/src/query_planner/ast/value.rs
index 00ca92c..c9e9c0c 100644
--- a/bin/router/src/query_planner/ast/value.rs
+++ b/bin/router/src/query_planner/ast/value.rs
@@ -52,6 +52,8 @@ impl Eq for Value {}
 
 impl Hash for Value {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
+        // Values of different kinds are different: "A" is neither the enum value A nor $A.
+        mem::discriminant(self).hash(state);
         match self {
             Value::Variable(name) => name.hash(state),
             Value::Int(i) => i.hash(state),
-- 
2.43.0


From 1fc374a0440ccdbfce83f743b7c8b942893342e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:12 +0000
Subject: [PATCH 30/38] fix: deduplicate requests by every value of the headers
 that count

---
 bin/router/src/pipeline/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bin/router/src/pipeline/mod.rs b/bin/router/src/pipeline/mod.rs
index 78aa186..8ff27c9 100644
--- a/bin/router/src/pipeline/mod.rs
+++ b/bin/router/src/pipeline/mod.rs
@@ -937,12 +937,14 @@ pub fn connection_fingerprint(
 ) -> ConnectionFingerprint {
     let mut hasher = Xxh3::new();
 
-    let mut headers: Vec<(&str, &str)> = request_headers
+    // Values are taken as bytes, as they are not always text.
+    let mut headers: Vec<(&str, &[u8])> = request_headers
         .iter()
         .filter(|(name, _)| header_policy.should_include(name.as_str()))
-        .filter_map(|(name, value)| value.to_str().ok().map(|value| (name.as_str(), value)))
+        .map(|(name, value)| (name.as_str(), value.as_bytes()))
         .collect();
-    headers.sort_unstable();
+    // The sort is stable, as the order of the values of one header is part of what is asked.
+    headers.sort_by_key(|(name, _)| *name);
 
     method.hash(&mut hasher);
     path.hash(&mut hasher);
-- 
2.43.0


From 13d18c57fe318fd668d4413b00e1ad944d7a4665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:12 +0000
Subject: [PATCH 31/38] fix: deduplicate subgraph requests by every value of
 every header

---
 bin/router/src/executor/executors/dedupe.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bin/router/src/executor/executors/dedupe.rs b/bin/router/src/executor/executors/dedupe.rs
index 84841e4..acc5635 100644
--- a/bin/router/src/executor/executors/dedupe.rs
+++ b/bin/router/src/executor/executors/dedupe.rs
@@ -1,5 +1,4 @@
 use ahash::RandomState;
-use std::collections::BTreeMap;
 use std::hash::{Hash, Hasher};
 use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::OnceLock;
@@ -9,13 +8,14 @@ use crate::executor::executors::http::SendRequestOpts;
 
 impl Hash for SendRequestOpts<'_> {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        // BTreeMap to ensure case-insensitivity and consistent order for hashing
-        let mut headers = BTreeMap::new();
-        for (header_name, header_value) in self.headers.iter() {
-            if let Ok(value_str) = header_value.to_str() {
-                headers.insert(header_name.as_str(), value_str);
-            }
-        }
+        // Sorted by name for a consistent order, with every value of every header.
+        // The sort is stable, so the values of one header stay in their order.
+        let mut headers: Vec<(&str, &[u8])> = self
+            .headers
+            .iter()
+            .map(|(name, value)| (name.as_str(), value.as_bytes()))
+            .collect();
+        headers.sort_by_key(|(name, _)| *name);
 
         self.method.hash(state);
         self.endpoint.hash(state);
-- 
2.43.0


From a2ef357121f3cb0945165f1b1de0aed5440722c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:32 +0000
Subject: [PATCH 32/38] fix: subgraph operations are built without inline
 fragments that select nothing

---
 .../planner/fetch/optimize/mod.rs             |  1 +
 .../optimize/normalize_selection_sets.rs      | 30 +++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/bin/router/src/query_planner/planner/fetch/optimize/mod.rs b/bin/router/src/query_planner/planner/fetch/optimize/mod.rs
index 2f19e34..6717314 100644
--- a/bin/router/src/query_planner/planner/fetch/optimize/mod.rs
+++ b/bin/router/src/query_planner/planner/fetch/optimize/mod.rs
@@ -57,6 +57,7 @@ impl FetchGraph<MultiTypeFetchStep> {
                 break;
             }
         }
+        self.remove_empty_inline_fragments()?;
         self.turn_mutations_into_sequence()?;
         self.fix_conflicting_type_mismatches(supergraph_state)?;
 
diff --git a/bin/router/src/query_planner/planner/fetch/optimize/normalize_selection_sets.rs b/bin/router/src/query_planner/planner/fetch/optimize/normalize_selection_sets.rs
index 3ed59d2..d584c51 100644
--- a/bin/router/src/query_planner/planner/fetch/optimize/normalize_selection_sets.rs
+++ b/bin/router/src/query_planner/planner/fetch/optimize/normalize_selection_sets.rs
@@ -28,6 +28,36 @@ impl FetchGraph<MultiTypeFetchStep> {
 
         Ok(())
     }
+
+    /// Removes the inline fragments that are left without selections, because everything they
+    /// select is fetched by other steps. Such a fragment cannot be printed as valid GraphQL.
+    #[instrument(level = "trace", skip_all)]
+    pub(crate) fn remove_empty_inline_fragments(&mut self) -> Result<(), FetchGraphError> {
+        let step_indices = self.step_indices().collect::<Vec<_>>();
+
+        for index in step_indices {
+            let step = self.get_step_data_mut(index)?;
+            for (_, selection_set) in step.output.iter_selections_mut() {
+                remove_empty_inline_fragments(selection_set);
+            }
+        }
+
+        self.deduplicate_and_prune_fetch_steps()
+    }
+}
+
+fn remove_empty_inline_fragments(selection_set: &mut SelectionSet) {
+    selection_set.items.retain_mut(|item| match item {
+        SelectionItem::Field(field) => {
+            remove_empty_inline_fragments(&mut field.selections);
+            true
+        }
+        SelectionItem::InlineFragment(fragment) => {
+            remove_empty_inline_fragments(&mut fragment.selections);
+            !fragment.selections.is_empty()
+        }
+        SelectionItem::FragmentSpread(_) => true,
+    });
 }
 
 struct SelectionSetNormalizer<'a> {
-- 
2.43.0


From 8dd521809982c22c6136499102e86b3afd14b0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:14 +0000
Subject: [PATCH 33/38] fix: a document with exactly as many tokens as the
 token limit is within it

---
 lib/graphql-tools/src/parser/tokenizer.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/graphql-tools/src/parser/tokenizer.rs b/lib/graphql-tools/src/parser/tokenizer.rs
index 2fab6e6..cdc41bd 100644
--- a/lib/graphql-tools/src/parser/tokenizer.rs
+++ b/lib/graphql-tools/src/parser/tokenizer.rs
@@ -174,17 +174,18 @@ impl<'a> TokenStream<'a> {
     }
 
     fn take_token(&mut self) -> Result<(Kind, usize), Error<Token<'a>, Token<'a>>> {
-        if let Some(limit) = self.token_limit {
-            if self.token_count >= limit {
-                return Err(Error::message_static_message("Token limit exceeded"));
-            }
-        }
         use self::Kind::*;
         let mut iter = self.buf[self.off..].char_indices();
         let cur_char = match iter.next() {
             Some((_, x)) => x,
             None => return Err(Error::end_of_input()),
         };
+        // The limit is on tokens: the end of the input is not one of them
+        if let Some(limit) = self.token_limit {
+            if self.token_count >= limit {
+                return Err(Error::message_static_message("Token limit exceeded"));
+            }
+        }
 
         match cur_char {
             '(' | '[' | '{' => {
-- 
2.43.0


From 5f571233e93c3905441646200935d2fe6836cfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:42 +0000
Subject: [PATCH 34/38] fix: refuse operations before executing them when the
 client accepts streams only

---
 bin/router/src/pipeline/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bin/router/src/pipeline/mod.rs b/bin/router/src/pipeline/mod.rs
index 8ff27c9..11b1a8c 100644
--- a/bin/router/src/pipeline/mod.rs
+++ b/bin/router/src/pipeline/mod.rs
@@ -401,6 +401,12 @@ pub async fn graphql_request_handler(
             return Err(ClientPipelineError::SubscriptionsNotSupported.into());
         }
 
+        // TODO: streaming single responses
+        if !is_subscription && !response_mode.can_single() {
+            // there is no way to answer, so nothing must be executed
+            return Err(ClientPipelineError::UnsupportedContentType.into());
+        }
+
         // subscriptions over HTTP hold a streaming response open, so they count
         // toward the long-lived client limit. the slot is reserved here - before
         // any planning or execution work - and released when the client stream
-- 
2.43.0


From 76f2146c46d0bd7e9dbf6ad5bdd9e5fd9b6337ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:42 +0000
Subject: [PATCH 35/38] fix: a document with several operations needs an
 operation name

---
 .../ast/normalization/pipeline/drop_unused_operations.rs   | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bin/router/src/query_planner/ast/normalization/pipeline/drop_unused_operations.rs b/bin/router/src/query_planner/ast/normalization/pipeline/drop_unused_operations.rs
index 9633d53..1ec6ae0 100644
--- a/bin/router/src/query_planner/ast/normalization/pipeline/drop_unused_operations.rs
+++ b/bin/router/src/query_planner/ast/normalization/pipeline/drop_unused_operations.rs
@@ -7,6 +7,7 @@ use crate::query_planner::ast::normalization::{
 #[inline]
 pub fn drop_unused_operations(ctx: &mut NormalizationContext) -> Result<(), NormalizationError> {
     let mut already_found = false;
+    let mut is_ambiguous = false;
 
     // GraphQL validation stage should prevent:
     // - mix of anonymous and named operations
@@ -17,6 +18,7 @@ pub fn drop_unused_operations(ctx: &mut NormalizationContext) -> Result<(), Norm
         match def {
             Definition::Operation(op) => {
                 if already_found {
+                    is_ambiguous |= ctx.operation_name.is_none();
                     return false;
                 }
 
@@ -45,6 +47,11 @@ pub fn drop_unused_operations(ctx: &mut NormalizationContext) -> Result<(), Norm
         }
     });
 
+    // Without a name, the operation to execute must be the only one
+    if is_ambiguous {
+        return Err(NormalizationError::MultipleMatchingOperationsFound);
+    }
+
     if !already_found {
         if let Some(name) = ctx.operation_name {
             return Err(NormalizationError::SpecifiedOperationNotFound {
-- 
2.43.0


From cbfc60ccc9824ae186a3880c0da996ee2356d877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:42 +0000
Subject: [PATCH 36/38] fix: ID and Float variables accept every integer

---
 bin/router/src/executor/variables/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bin/router/src/executor/variables/mod.rs b/bin/router/src/executor/variables/mod.rs
index 862d20b..f969c36 100644
--- a/bin/router/src/executor/variables/mod.rs
+++ b/bin/router/src/executor/variables/mod.rs
@@ -162,7 +162,13 @@ fn validate_runtime_value(
                         }
                     }
                     "ID" => {
-                        if let ValueRef::String(_) = value {
+                        // An ID can be given as a string or as an integer
+                        let is_valid = match value {
+                            ValueRef::String(_) => true,
+                            ValueRef::Number(ref num) => num.is_i64() || num.is_u64(),
+                            _ => false,
+                        };
+                        if is_valid {
                             Ok(())
                         } else {
                             Err(VariableCoercionError::ExpectedId {
@@ -183,7 +189,7 @@ fn validate_runtime_value(
                     "Float" => {
                         let is_valid = matches!(
                             value,
-                            ValueRef::Number(ref num) if num.is_f64() || num.is_i64()
+                            ValueRef::Number(ref num) if num.is_f64() || num.is_i64() || num.is_u64()
                         );
                         if is_valid {
                             Ok(())
-- 
2.43.0


From f0231a79d40ea128f6426a5a011b1d6cd176bd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:42 +0000
Subject: [PATCH 37/38] fix: Int variables outside 32 bits are refused

---
 bin/router/src/executor/variables/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/executor/variables/mod.rs b/bin/router/src/executor/variables/mod.rs
index f969c36..a2f2944 100644
--- a/bin/router/src/executor/variables/mod.rs
+++ b/bin/router/src/executor/variables/mod.rs
@@ -177,7 +177,12 @@ fn validate_runtime_value(
                         }
                     }
                     "Int" => {
-                        let is_valid = matches!(value, ValueRef::Number(ref num) if num.is_i64());
+                        // An Int is a signed 32-bit integer
+                        let is_valid = matches!(
+                            value,
+                            ValueRef::Number(ref num)
+                                if num.as_i64().is_some_and(|n| i32::try_from(n).is_ok())
+                        );
                         if is_valid {
                             Ok(())
                         } else {
-- 
2.43.0


From 959d73dcb028b194a13ab16df9954ab8d43610d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:55 +0000
Subject: [PATCH 38/38] fix: parse errors own their text

---
 lib/graphql-tools/src/parser/query/error.rs | 28 ++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/lib/graphql-tools/src/parser/query/error.rs b/lib/graphql-tools/src/parser/query/error.rs
index b8071e3..f481cce 100644
--- a/lib/graphql-tools/src/parser/query/error.rs
+++ b/lib/graphql-tools/src/parser/query/error.rs
@@ -1,6 +1,6 @@
 use std::fmt::Display;
 
-use combine::easy::Errors;
+use combine::easy::{Error, Errors, Info};
 use thiserror::Error;
 
 use crate::parser::position::Pos;
@@ -17,8 +17,30 @@ pub struct ParseError(pub InternalError<'static>);
 
 impl<'a> From<InternalError<'a>> for ParseError {
     fn from(e: InternalError<'a>) -> ParseError {
-        let e = unsafe { std::mem::transmute::<InternalError<'a>, InternalError<'static>>(e) };
-        ParseError(e)
+        let errors = e
+            .errors
+            .into_iter()
+            .map(|error| match error {
+                Error::Unexpected(info) => Error::Unexpected(into_owned(info)),
+                Error::Expected(info) => Error::Expected(into_owned(info)),
+                Error::Message(info) => Error::Message(into_owned(info)),
+                Error::Other(error) => Error::Other(error),
+            })
+            .collect();
+
+        ParseError(Errors {
+            position: e.position,
+            errors,
+        })
+    }
+}
+
+/// The tokens of an error borrow from the parsed text, but the error outlives it.
+fn into_owned<'a>(info: Info<Token<'a>, Token<'a>>) -> Info<Token<'static>, Token<'static>> {
+    match info {
+        Info::Token(token) | Info::Range(token) => Info::Owned(format!("`{}`", token)),
+        Info::Owned(text) => Info::Owned(text),
+        Info::Static(text) => Info::Static(text),
     }
 }
 
-- 
2.43.0

