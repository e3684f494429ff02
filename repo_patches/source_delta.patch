From 8fd5d8f31a75d99fd37a4d3593678d1d2a082609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:33 +0000
Subject: [PATCH 01/32] fix: order of parallel simplification results must not
 depend on thread arrival or hash order

---
 circom_algebra/src/simplification_utils.rs    | 25 ++++++++++--------
 .../src/constraint_simplification.rs          | 26 +++++++++++--------
 2 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/circom_algebra/src/simplification_utils.rs b/circom_algebra/src/simplification_utils.rs
index 6219843..a254b01 100644
--- a/circom_algebra/src/simplification_utils.rs
+++ b/circom_algebra/src/simplification_utils.rs
@@ -39,7 +39,7 @@ impl<'a> SignalDefinition<'a> {
 }
 
 struct SignalDefinition4<'a> {
-    deleted_symbols: HashSet<usize>,
+    deleted_symbols: HashMap<usize, usize>, // when it was eliminated: 0 is the first one
     forbidden: &'a HashSet<usize>,
     order_signals: LinkedList<usize>, // the last eliminated is the first in the list
 }
@@ -49,11 +49,12 @@ impl<'a> SignalDefinition4<'a> {
         !self.forbidden.contains(&k)
     }
     pub fn delete(&mut self, k: usize) {
-        self.deleted_symbols.insert(k);
+        let when = self.deleted_symbols.len();
+        self.deleted_symbols.entry(k).or_insert(when);
         self.order_signals.push_front(k);
     }
-    pub fn is_deleted(&self, k: usize) -> bool {
-        self.deleted_symbols.contains(&k)
+    pub fn deleted_at(&self, k: usize) -> Option<usize> {
+        self.deleted_symbols.get(&k).copied()
     }
 }
 
@@ -379,11 +380,12 @@ fn take_signal_3(signals: &SignalDefinition, constraint: &C) -> Option<usize> {
 fn take_signal_4(signals: &SignalDefinition4, info_ocurrences: &SignalsInformation, constraint: &C) -> Option<usize> {
     let mut ret = Option::None;
     let mut ocurrences_ret: Option<usize> = Option::None;
+    // the one eliminated first: its substitution does not bring back those eliminated before
+    let mut deleted: Option<(usize, usize)> = Option::None;
     for k in constraint.c().keys() {
         if signals.can_be_taken(*k) {
-            if signals.is_deleted(*k) {
-                ret = Some(*k);
-                break;
+            if let Some(when) = signals.deleted_at(*k) {
+                deleted = Some(deleted.map_or((when, *k), |d| std::cmp::min(d, (when, *k))));
             }
             else {
                 let new_ocurrences = info_ocurrences.signal_to_ocurrences.get(k).unwrap();
@@ -407,7 +409,7 @@ fn take_signal_4(signals: &SignalDefinition4, info_ocurrences: &SignalsInformati
             }
         }
     }
-    ret
+    deleted.map(|(_, k)| k).or(ret)
 }
 
 
@@ -559,7 +561,7 @@ where
     let non_overlapping: HashMap<usize, S>;
 
     if apply_less_ocurrences{
-        let mut signals = SignalDefinition4 { forbidden: config.forbidden.as_ref(), deleted_symbols: HashSet::new(),  order_signals: LinkedList::new() };
+        let mut signals = SignalDefinition4 { forbidden: config.forbidden.as_ref(), deleted_symbols: HashMap::new(),  order_signals: LinkedList::new() };
         substitution_process_4(&mut signals, &mut constraints, &mut holder, config.num_signals, &field);
         normalized_holder = normalize_substitutions(holder, &field);
         non_overlapping = create_nonoverlapping_substitutions_4(normalized_holder, &signals, &field);
@@ -572,7 +574,8 @@ where
     }
     let mut substitutions = LinkedList::new();
     let mut removed = LinkedList::new();
-    for (s, v) in non_overlapping {
+    let ordered: BTreeMap<usize, S> = non_overlapping.into_iter().collect();
+    for (s, v) in ordered {
         LinkedList::push_back(&mut removed, s);
         LinkedList::push_back(&mut substitutions, v);
     }
@@ -586,7 +589,7 @@ where
 {
     let field = config.field.clone();
     // build the subs using always the complete new version
-    let mut signals_4 = SignalDefinition4 { forbidden: config.forbidden.as_ref(), deleted_symbols: HashSet::new(),  order_signals: LinkedList::new() };
+    let mut signals_4 = SignalDefinition4 { forbidden: config.forbidden.as_ref(), deleted_symbols: HashMap::new(),  order_signals: LinkedList::new() };
     let mut constraints_4 = config.constraints.clone();
     let mut holder_4 = SHNotNormalized::new();
     substitution_process_4(&mut signals_4, &mut constraints_4, &mut holder_4, config.num_signals, &field);
diff --git a/constraint_list/src/constraint_simplification.rs b/constraint_list/src/constraint_simplification.rs
index 66d7a21..7129195 100644
--- a/constraint_list/src/constraint_simplification.rs
+++ b/constraint_list/src/constraint_simplification.rs
@@ -74,7 +74,7 @@ fn build_clusters(linear: LinkedList<C>, no_vars: usize) -> Vec<Cluster> {
     let mut signal_to_cluster = vec![no_linear; no_vars];
     for constraint in linear {
         if !constraint.is_empty(){
-            let signals = C::take_cloned_signals(&constraint);
+            let signals = C::take_cloned_signals_ordered(&constraint);
             let dest = ClusterArena::len(&arena);
             ClusterArena::push(&mut arena, Some(Cluster::new(constraint, signals.len())));
             Vec::push(&mut cluster_to_current, dest);
@@ -156,7 +156,7 @@ fn eq_cluster_simplification(
         let mut cons = LinkedList::new();
         let mut subs = LinkedList::new();
         let (mut remains, mut min_remains) = (BTreeSet::new(), None);
-        let (mut remove, mut min_remove) = (HashSet::new(), None);
+        let (mut remove, mut min_remove) = (BTreeSet::new(), None);
         for c in cluster.constraints {
             for signal in C::take_cloned_signals_ordered(&c) {
                 if HashSet::contains(&forbidden, &signal) {
@@ -164,7 +164,7 @@ fn eq_cluster_simplification(
                     min_remains = Some(min_remains.map_or(signal, |s| std::cmp::min(s, signal)));
                 } else {
                     min_remove = Some(min_remove.map_or(signal, |s| std::cmp::min(s, signal)));
-                    HashSet::insert(&mut remove, signal);
+                    BTreeSet::insert(&mut remove, signal);
                 }
             }
         }
@@ -174,7 +174,7 @@ fn eq_cluster_simplification(
             signal
         } else {
             let signal = min_remove.unwrap();
-            HashSet::remove(&mut remove, &signal);
+            BTreeSet::remove(&mut remove, &signal);
             signal
         };
 
@@ -215,11 +215,12 @@ fn eq_simplification(
     let mut single_clusters = 0;
     let mut id = 0;
     let mut aux_constraints = vec![LinkedList::new(); clusters.len()];
+    let mut aux_substitutions = vec![LinkedList::new(); clusters.len()];
     for cluster in clusters {
         if Cluster::size(&cluster) == 1 {
-            let (mut subs, cons) = eq_cluster_simplification(cluster, &forbidden, &field);
+            let (subs, cons) = eq_cluster_simplification(cluster, &forbidden, &field);
             aux_constraints[id] = cons;
-            LinkedList::append(&mut substitutions, &mut subs);
+            aux_substitutions[id] = subs;
             single_clusters += 1;
         } else {
             let cluster_tx = cluster_tx.clone();
@@ -239,11 +240,12 @@ fn eq_simplification(
     // println!("{} clusters were of size 1", single_clusters);
     ThreadPool::join(&pool);
     for _ in 0..(no_clusters - single_clusters) {
-        let (id, (mut subs, cons)) = simplified_rx.recv().unwrap();
+        let (id, (subs, cons)) = simplified_rx.recv().unwrap();
         aux_constraints[id] = cons;
-        LinkedList::append(&mut substitutions, &mut subs);
+        aux_substitutions[id] = subs;
     }
     for id in 0..no_clusters {
+        LinkedList::append(&mut substitutions, &mut aux_substitutions[id]);
         LinkedList::append(&mut constraints, &mut aux_constraints[id]);
     }
     log_substitutions(&substitutions, substitution_log);
@@ -307,7 +309,7 @@ fn linear_simplification(
             // println!("cluster: {}", id);
             let result = full_simplification(config);
             // println!("End of cluster: {}", id);
-            cluster_tx.send(result).unwrap();
+            cluster_tx.send((id, result)).unwrap();
         };
         ThreadPool::execute(&pool, job);
         let _ = id;
@@ -315,8 +317,10 @@ fn linear_simplification(
     }
     ThreadPool::join(&pool);
 
-    for _ in 0..no_clusters {
-        let mut result = simplified_rx.recv().unwrap();
+    // the results arrive in the order in which the workers end: use them in cluster order
+    let mut results: Vec<_> = simplified_rx.iter().take(no_clusters).collect();
+    results.sort_by_key(|(id, _)| *id);
+    for (_, mut result) in results {
         log_substitutions(&result.substitutions, log);
         LinkedList::append(&mut cons, &mut result.constraints);
         LinkedList::append(&mut substitutions, &mut result.substitutions);
-- 
2.43.0


From 32a9b1a63c05836697ec65cb72e1f1d855288473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:07 +0000
Subject: [PATCH 02/32] fix: timing of compilation phases must not panic when
 the wall clock steps back

---
 .../src/constraint_simplification.rs          | 42 +++++++++----------
 dag/src/map_to_constraint_list.rs             |  6 +--
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/constraint_list/src/constraint_simplification.rs b/constraint_list/src/constraint_simplification.rs
index 7129195..8419f4c 100644
--- a/constraint_list/src/constraint_simplification.rs
+++ b/constraint_list/src/constraint_simplification.rs
@@ -447,7 +447,7 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
     use super::non_linear_utils::obtain_and_simplify_non_linear;
     use circom_algebra::simplification_utils::build_encoded_fast_substitutions;
     use circom_algebra::simplification_utils::fast_encoded_constraint_substitution;
-    use std::time::SystemTime;
+    use std::time::Instant;
 
     let mut substitution_log =
         if smp.port_substitution { 
@@ -471,20 +471,20 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
 
     let relevant_signals = {
         // println!("Creating first relevant set");
-        let now = SystemTime::now();
+        let now = Instant::now();
         let mut relevant = HashSet::new();
         let iter = EncodingIterator::new(&smp.dag_encoding);
         let s_sub = HashMap::with_capacity(0);
         let c_sub = HashMap::with_capacity(0);
         build_relevant_set(iter, &mut relevant, &s_sub, &c_sub);
-        let _dur = now.elapsed().unwrap().as_millis();
+        let _dur = now.elapsed().as_millis();
         // println!("First relevant set created: {} ms", dur);
         relevant
     };
 
     let single_substitutions = {
         // println!("Start of single assignment simplification");
-        let now = SystemTime::now();
+        let now = Instant::now();
         let (subs, mut cons) = eq_simplification(
             equalities,
             Arc::clone(&forbidden),
@@ -509,14 +509,14 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
             deleted.insert(signal);
         }
         remove_not_relevant(&mut substitutions, &relevant_signals);
-        let _dur = now.elapsed().unwrap().as_millis();
+        let _dur = now.elapsed().as_millis();
         // println!("End of single assignment simplification: {} ms", dur);
         substitutions
     };
 
     let cons_substitutions = {
         // println!("Start of constant assignment simplification");
-        let now = SystemTime::now();
+        let now = Instant::now();
         let (subs, mut cons) =
             constant_eq_simplification(cons_equalities, &forbidden, &field, &mut substitution_log);
         LinkedList::append(&mut lconst, &mut cons);
@@ -529,24 +529,24 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
         for signal in substitutions.keys().cloned() {
             deleted.insert(signal);
         }
-        let _dur = now.elapsed().unwrap().as_millis();
+        let _dur = now.elapsed().as_millis();
         // println!("End of constant assignment simplification: {} ms", dur);
         substitutions
     };
 
     let relevant_signals = {
         // println!("Start building relevant");
-        let now = SystemTime::now();
+        let now = Instant::now();
         let mut relevant = HashSet::new();
         let iter = EncodingIterator::new(&smp.dag_encoding);
         build_relevant_set(iter, &mut relevant, &single_substitutions, &cons_substitutions);
-        let _dur = now.elapsed().unwrap().as_millis();
+        let _dur = now.elapsed().as_millis();
         // println!("Relevant built: {} ms", dur);
         relevant
     };
 
     let linear_substitutions = if apply_linear {
-        let now = SystemTime::now();
+        let now = Instant::now();
         let (subs, mut cons) = linear_simplification(
             &mut substitution_log,
             linear,
@@ -556,7 +556,7 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
             use_old_heuristics,
         );
         // println!("Building substitution map");
-        let now0 = SystemTime::now();
+        let now0 = Instant::now();
         let mut only_relevant = LinkedList::new();
         for substitution in subs {
             deleted.insert(*substitution.from());
@@ -565,9 +565,9 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
             }
         }
         let substitutions = build_encoded_fast_substitutions(only_relevant);
-        let _dur0 = now0.elapsed().unwrap().as_millis();
+        let _dur0 = now0.elapsed().as_millis();
         // println!("End of substitution map: {} ms", dur0);
-        let _dur = now.elapsed().unwrap().as_millis();
+        let _dur = now.elapsed().as_millis();
         // println!("End of cluster simplification: {} ms", dur);
         LinkedList::append(&mut lconst, &mut cons);
         for constraint in &mut lconst {
@@ -583,7 +583,7 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
 
     let (with_linear, mut constraint_storage) = {
         // println!("Building constraint storage");
-        let now = SystemTime::now();
+        let now = Instant::now();
         let mut frames = LinkedList::new();
         LinkedList::push_back(&mut frames, single_substitutions);
         LinkedList::push_back(&mut frames, cons_substitutions);
@@ -592,7 +592,7 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
         let mut storage = ConstraintStorage::new();
         let with_linear = obtain_and_simplify_non_linear(iter, &mut storage, &frames, &field);
         crate::state_utils::empty_encoding_constraints(&mut smp.dag_encoding);
-        let _dur = now.elapsed().unwrap().as_millis();
+        let _dur = now.elapsed().as_millis();
         // println!("Storages built in {} ms", dur);
         if no_rounds > 0{
             no_rounds -= 1;
@@ -606,16 +606,16 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
     let mut apply_round = apply_linear && no_rounds > 0 && !linear.is_empty();
     let mut non_linear_map = if apply_round || remove_unused {
         // println!("Building non-linear map");
-        let now = SystemTime::now();
+        let now = Instant::now();
         let non_linear_map = build_non_linear_signal_map(&constraint_storage);
-        let _dur = now.elapsed().unwrap().as_millis();
+        let _dur = now.elapsed().as_millis();
         // println!("Non-linear was built in {} ms", dur);
         non_linear_map
     } else {
         SignalToConstraints::with_capacity(0)
     };
     while apply_round {
-        let now = SystemTime::now();
+        let now = Instant::now();
         // println!("Number of linear constraints: {}", linear.len());
         let (substitutions, mut constants) = linear_simplification(
             &mut substitution_log,
@@ -645,7 +645,7 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
         round_id += 1;
         no_rounds -= 1;
         apply_round = !linear.is_empty() && no_rounds > 0;
-        let _dur = now.elapsed().unwrap().as_millis();
+        let _dur = now.elapsed().as_millis();
         // println!("Iteration no {} took {} ms", round_id, dur);
     }
 
@@ -703,7 +703,7 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
 
     let signal_map = {
         // println!("Rebuild witness");
-        let now = SystemTime::now();
+        let now = Instant::now();
         let signal_map= rebuild_witness(
             max_signal, 
             &mut deleted, 
@@ -711,7 +711,7 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
             non_linear_map, 
             remove_unused
         );
-        let _dur = now.elapsed().unwrap().as_millis();
+        let _dur = now.elapsed().as_millis();
         // println!("End of rebuild witness: {} ms", dur);
        signal_map
     };
diff --git a/dag/src/map_to_constraint_list.rs b/dag/src/map_to_constraint_list.rs
index bccec4c..07c8428 100644
--- a/dag/src/map_to_constraint_list.rs
+++ b/dag/src/map_to_constraint_list.rs
@@ -108,9 +108,9 @@ fn map_edge_to_encoding(edge: Edge) -> EncodingEdge {
 }
 
 pub fn map(dag: DAG, flags: SimplificationFlags) -> ConstraintList {
-    use std::time::SystemTime;
+    use std::time::Instant;
     // println!("Start of dag to list mapping");
-    let now = SystemTime::now();
+    let now = Instant::now();
     let constants = UsefulConstants::new(&dag.prime);
     let field = constants.get_p().clone();
     let init_id = dag.main_id();
@@ -123,7 +123,7 @@ pub fn map(dag: DAG, flags: SimplificationFlags) -> ConstraintList {
     let no_constraints = map_tree(&Tree::new(&dag), &mut signal_map, &mut c_holder, &mut forbidden);
     let max_signal = Vec::len(&signal_map);
     let name_encoding = produce_encoding(no_constraints, init_id, dag.nodes, dag.adjacency);
-    let _dur = now.elapsed().unwrap().as_millis();
+    let _dur = now.elapsed().as_millis();
     // println!("End of dag to list mapping: {} ms", dur);
     Simplifier {
         field,
-- 
2.43.0


From 2b0e806950fdb99eff349e18cff57f54b55dd41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:27 +0000
Subject: [PATCH 03/32] fix: generated code for component arrays must not
 depend on hash order

---
 compiler/src/intermediate_representation/translate.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/src/intermediate_representation/translate.rs b/compiler/src/intermediate_representation/translate.rs
index 04e13d4..6858bad 100644
--- a/compiler/src/intermediate_representation/translate.rs
+++ b/compiler/src/intermediate_representation/translate.rs
@@ -7,7 +7,7 @@ use num_bigint_dig::BigInt;
 use program_structure::ast::*;
 use program_structure::file_definition::FileLibrary;
 use program_structure::utils::environment::VarEnvironment;
-use std::collections::{HashMap, BTreeMap, HashSet};
+use std::collections::{HashMap, BTreeMap, BTreeSet, HashSet};
 use std::mem;
 
 type Length = usize;
@@ -131,7 +131,7 @@ struct State {
     field_tracker: FieldTracker,
     environment: E,
     component_to_parallel:  HashMap<String, ParallelClusters>,
-    component_to_instance: HashMap<String, HashSet<usize>>,
+    component_to_instance: HashMap<String, BTreeSet<usize>>,
     signal_to_type: HashMap<String, SignalType>,
     signal_to_tags: HashMap<Vec<String>, BigInt>,
     message_id: usize,
@@ -370,7 +370,7 @@ fn create_components(state: &mut State, triggers: &[Trigger], clusters: Vec<Trig
                 info.insert(trigger.template_id);
             }
             None =>{
-                let mut new_info = HashSet::new();
+                let mut new_info = BTreeSet::new();
                 new_info.insert(trigger.template_id);
                 state.component_to_instance.insert(trigger.component_name.clone(), new_info);
             }
-- 
2.43.0


From 213d245a3196511ff76d6647504a35445c400d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:47 +0000
Subject: [PATCH 04/32] fix: a second constant for the same signal must not be
 dropped by simplification

---
 constraint_list/src/constraint_simplification.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/constraint_list/src/constraint_simplification.rs b/constraint_list/src/constraint_simplification.rs
index 8419f4c..5a9805b 100644
--- a/constraint_list/src/constraint_simplification.rs
+++ b/constraint_list/src/constraint_simplification.rs
@@ -259,14 +259,21 @@ fn constant_eq_simplification(
     substitution_log: &mut Option<SubstitutionJSON>,
 ) -> (LinkedList<S>, LinkedList<C>) {
     let mut cons = LinkedList::new();
-    let mut subs = LinkedList::new();
-    for constraint in c_eq {
+    let mut subs: LinkedList<S> = LinkedList::new();
+    let mut fixed: HashMap<usize, S> = HashMap::new();
+    for mut constraint in c_eq {
         let mut signals: Vec<_> = C::take_cloned_signals_ordered(&constraint).iter().cloned().collect();
         let signal = signals.pop().unwrap();
         if HashSet::contains(&forbidden, &signal) {
             LinkedList::push_back(&mut cons, constraint);
+        } else if let Some(sub) = fixed.get(&signal) {
+            // the signal already has a value: the constraint must hold for that one
+            C::apply_substitution(&mut constraint, sub, field);
+            C::fix_constraint(&mut constraint, field);
+            LinkedList::push_back(&mut cons, constraint);
         } else {
             let sub = C::clear_signal_from_linear(constraint, &signal, field);
+            fixed.insert(signal, sub.clone());
             LinkedList::push_back(&mut subs, sub);
         }
     }
-- 
2.43.0


From f1b35263e0d59f5426f3a968dfae75d4455ece69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:47 +0000
Subject: [PATCH 05/32] fix: private input count in the r1cs header must be
 that of the wires in the file

---
 constraint_list/src/r1cs_porting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/constraint_list/src/r1cs_porting.rs b/constraint_list/src/r1cs_porting.rs
index 6aff0af..4fc1b93 100644
--- a/constraint_list/src/r1cs_porting.rs
+++ b/constraint_list/src/r1cs_porting.rs
@@ -38,7 +38,7 @@ pub fn port_r1cs(list: &ConstraintList, output: &str, custom_gates: bool) -> Res
         field: list.field.clone(),
         public_outputs: list.no_public_outputs,
         public_inputs: list.no_public_inputs,
-        private_inputs: list.no_private_inputs,
+        private_inputs: list.no_private_inputs_witness,
         total_wires: ConstraintList::no_wires(list),
         number_of_labels: ConstraintList::no_labels(list),
         number_of_constraints: written,
-- 
2.43.0


From a9806cb35a1b946c30e4757433effb25e41180a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:53 +0000
Subject: [PATCH 06/32] fix: a failure to complete the substitution file at
 --O0 must not be ignored

---
 constraint_generation/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/constraint_generation/src/lib.rs b/constraint_generation/src/lib.rs
index 90eb2f5..cb9b1ce 100644
--- a/constraint_generation/src/lib.rs
+++ b/constraint_generation/src/lib.rs
@@ -64,7 +64,7 @@ pub fn build_circuit(program: ProgramArchive, config: BuildConfig) -> BuildRespo
         if config.flag_json_sub { 
             use constraint_writers::json_writer::SubstitutionJSON;
             let substitution_log = SubstitutionJSON::new(&config.json_substitutions).unwrap();
-            let _ = substitution_log.end();
+            substitution_log.end().unwrap();
             println!("{} {}", Colour::Green.paint("Written successfully:"), config.json_substitutions);
         };
 
-- 
2.43.0


From f9498d49633e541c114d5918cd9af7a6d4e64e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:26 +0000
Subject: [PATCH 07/32] fix: a source file that cannot be opened or resolved
 must not be replaced by another one

---
 parser/src/include_logic.rs | 17 ++++++++++++-----
 parser/src/lib.rs           | 13 +++++++++----
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/parser/src/include_logic.rs b/parser/src/include_logic.rs
index 0b6b910..1a714dc 100644
--- a/parser/src/include_logic.rs
+++ b/parser/src/include_logic.rs
@@ -2,6 +2,7 @@ use program_structure::ast::produce_report_with_message;
 use program_structure::error_code::ReportCode;
 use program_structure::error_definition::Report;
 use std::collections::{HashMap, HashSet};
+use std::io::ErrorKind;
 use std::path::PathBuf;
 
 pub struct FileStack {
@@ -29,11 +30,17 @@ impl FileStack {
             let mut path = PathBuf::new();
             path.push(lib);
             path.push(name.clone());
-            let path = std::fs::canonicalize(path);
-            match path {
-                Err(_) => {}
-                Ok(path) => {
-                    if path.is_file() {
+            // only a file that is not there sends the search on to the next directory
+            let resolved = std::fs::canonicalize(&path)
+                .and_then(|path| std::fs::metadata(&path).map(|data| (path, data.is_file())));
+            match resolved {
+                Err(e) if matches!(e.kind(), ErrorKind::NotFound | ErrorKind::NotADirectory) => {}
+                Err(_) => {
+                    let path = path.to_string_lossy().to_string();
+                    return Result::Err(produce_report_with_message(ReportCode::FileOs, path));
+                }
+                Ok((path, is_file)) => {
+                    if is_file {
                         if !f_stack.black_paths.contains(&path) {
                             f_stack.stack.push(path.clone());
                         }
diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index 2bd500a..da903df 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -19,6 +19,7 @@ use program_structure::error_definition::ReportCollection;
 use program_structure::error_definition::Report;
 use program_structure::file_definition::{FileLibrary};
 use program_structure::program_archive::ProgramArchive;
+use std::io::ErrorKind;
 use std::path::{PathBuf, Path};
 use syntax_sugar_remover::{apply_syntactic_sugar};
 
@@ -48,8 +49,12 @@ pub fn find_file(
                 src = new_src;
                 found = true;
             }
-            Err(e) => {
-                reports.push(e);
+            Err((e, report)) => {
+                reports.push(report);
+                // a file that is there but cannot be read must not be replaced by another one
+                if !matches!(e.kind(), ErrorKind::NotFound | ErrorKind::NotADirectory) {
+                    break;
+                }
                 i = i + 1;
             }
         }
@@ -178,12 +183,12 @@ fn produce_report_with_main_components(main_components: Vec<(usize, (Vec<String>
     r
 }
 
-fn open_file(path: PathBuf) -> Result<(String, String), Report> /* path, src */ {
+fn open_file(path: PathBuf) -> Result<(String, String), (std::io::Error, Report)> /* path, src */ {
     use std::fs::read_to_string;
     let path_str = format!("{:?}", path);
     read_to_string(path)
         .map(|contents| (path_str.clone(), contents))
-        .map_err(|_| produce_report_with_message(ReportCode::FileOs, path_str.clone()))
+        .map_err(|e| (e, produce_report_with_message(ReportCode::FileOs, path_str.clone())))
 }
 
 fn parse_number_version(version: &str) -> Version {
-- 
2.43.0


From 7413b0bce30bbe0338f5a7483ed82656f5eec38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:13 +0000
Subject: [PATCH 08/32] fix: fr.cpp must not be announced for goldilocks
 without assembly, where it is not written

---
 circom/src/compilation_user.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circom/src/compilation_user.rs b/circom/src/compilation_user.rs
index 7b1bdad..273afe4 100644
--- a/circom/src/compilation_user.rs
+++ b/circom/src/compilation_user.rs
@@ -53,7 +53,7 @@ pub fn compile(config: CompilerConfig) -> Result<(), ()> {
                 config.c_file,
                 config.dat_file
             );
-            if config.no_asm_flag {                
+            if config.no_asm_flag && config.prime != "goldilocks" {
                 println!(
                     "{} {}/{}, {}, {}, {}, {}, {} and {}",
                     Colour::Green.paint("Written successfully:"),
-- 
2.43.0


From a84f27a07de3e9ab40fd2183dacb7648537a277d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:43 +0000
Subject: [PATCH 09/32] fix: the main file must take part only once when a file
 it includes includes it back

---
 parser/src/include_logic.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/parser/src/include_logic.rs b/parser/src/include_logic.rs
index 1a714dc..338a673 100644
--- a/parser/src/include_logic.rs
+++ b/parser/src/include_logic.rs
@@ -58,13 +58,15 @@ impl FileStack {
                 None => {
                     break None;
                 }
-                Some(file) if !f_stack.black_paths.contains(&file) => {
-                    f_stack.current_location = file.clone();
-                    f_stack.current_location.pop();
-                    f_stack.black_paths.insert(file.clone());
-                    break Some(file);
+                Some(file) => {
+                    // includes are resolved paths, the main file is as the user wrote it
+                    let resolved = std::fs::canonicalize(&file).unwrap_or_else(|_| file.clone());
+                    if f_stack.black_paths.insert(resolved) {
+                        f_stack.current_location = file.clone();
+                        f_stack.current_location.pop();
+                        break Some(file);
+                    }
                 }
-                _ => {}
             }
         }
     }
-- 
2.43.0


From a1bf52e8a482b9d96919597b1ef54249f60cf17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:34 +0000
Subject: [PATCH 10/32] fix: a parallel component without inputs must be run by
 the function generated for it

---
 compiler/src/circuit_design/template.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/compiler/src/circuit_design/template.rs b/compiler/src/circuit_design/template.rs
index c642354..3a3250b 100644
--- a/compiler/src/circuit_design/template.rs
+++ b/compiler/src/circuit_design/template.rs
@@ -272,9 +272,16 @@ impl TemplateCodeInfo {
 	}
 	// if has no inputs should be runned
 	if self.number_of_inputs == 0 {
-	    let cmp_call_name = format!("{}_run", self.header);
+	    let cmp_call_name = if parallel {format!("{}_run_parallel", self.header)}
+	        else{format!("{}_run", self.header)};
 	    let cmp_call_arguments = vec![component_offset(), CIRCOM_CALC_WIT.to_string()]; 
 	    create_body.push(format!("{};",build_call(cmp_call_name, cmp_call_arguments)));
+	    if parallel {
+	        // it has run in the thread of its father, which keeps its place among the running threads
+	        create_body.push(format!("ctx->numThreadMutex.lock();"));
+	        create_body.push(format!("ctx->numThread++;"));
+	        create_body.push(format!("ctx->numThreadMutex.unlock();"));
+	    }
         }
         let create_fun = build_callable(create_header, create_params, create_body);
 
-- 
2.43.0


From 759592c3bbfa7cabc565473feed7d1c378a7e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:09 +0000
Subject: [PATCH 11/32] fix: parallel witness code must not wait for a thread
 slot while others wait for what it holds

---
 compiler/src/circuit_design/template.rs                 | 8 ++++++++
 compiler/src/intermediate_representation/load_bucket.rs | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/compiler/src/circuit_design/template.rs b/compiler/src/circuit_design/template.rs
index 3a3250b..008e002 100644
--- a/compiler/src/circuit_design/template.rs
+++ b/compiler/src/circuit_design/template.rs
@@ -427,11 +427,19 @@ impl TemplateCodeInfo {
 	// parallelism (join at the end of the function)
 	if self.number_of_components > 0 && self.has_parallel_sub_cmp {
             run_body.push(format!("{{"));
+	    // it is not running while it waits for its subcomponents
+	    run_body.push(format!("ctx->numThreadMutex.lock();"));
+	    run_body.push(format!("ctx->numThread--;"));
+	    run_body.push(format!("ctx->numThreadMutex.unlock();"));
+	    run_body.push(format!("ctx->ntcvs.notify_one();"));
 	    run_body.push(format!("for (uint i = 0; i < {}; i++) {{",&self.number_of_components.to_string()));
 	    run_body.push(format!("if (ctx->componentMemory[ctx_index].sbct[i].joinable()) {{"));
 	    run_body.push(format!("ctx->componentMemory[ctx_index].sbct[i].join();"));
 	    run_body.push(format!("}}"));
 	    run_body.push(format!("}}"));
+	    run_body.push(format!("std::unique_lock<std::mutex> lkt({}->numThreadMutex);",CIRCOM_CALC_WIT));
+	    run_body.push(format!("{}->ntcvs.wait(lkt, [{}]() {{return {}->numThread <  {}->maxThread; }});",CIRCOM_CALC_WIT,CIRCOM_CALC_WIT,CIRCOM_CALC_WIT,CIRCOM_CALC_WIT));
+	    run_body.push(format!("ctx->numThread++;"));
 	    run_body.push(format!("}}"));
 	}
 	if parallel {
diff --git a/compiler/src/intermediate_representation/load_bucket.rs b/compiler/src/intermediate_representation/load_bucket.rs
index e1c1acc..2c2cfa2 100644
--- a/compiler/src/intermediate_representation/load_bucket.rs
+++ b/compiler/src/intermediate_representation/load_bucket.rs
@@ -378,6 +378,7 @@ impl WriteC for LoadBucket {
 			            CIRCOM_CALC_WIT, MY_SUBCOMPONENTS, CIRCOM_CALC_WIT,
 			            MY_SUBCOMPONENTS, CIRCOM_CALC_WIT, MY_SUBCOMPONENTS)
                     );
+                    prologue.push("lk.unlock();".to_string());
                     prologue.push(format!("std::unique_lock<std::mutex> lkt({}->numThreadMutex);",CIRCOM_CALC_WIT));
                     prologue.push(format!("{}->ntcvs.wait(lkt, [{}]() {{return {}->numThread <  {}->maxThread; }});",CIRCOM_CALC_WIT,CIRCOM_CALC_WIT,CIRCOM_CALC_WIT,CIRCOM_CALC_WIT));
                     prologue.push(format!("ctx->numThread++;"));
@@ -425,6 +426,7 @@ impl WriteC for LoadBucket {
 			            CIRCOM_CALC_WIT, MY_SUBCOMPONENTS, CIRCOM_CALC_WIT,
 			            MY_SUBCOMPONENTS, CIRCOM_CALC_WIT, MY_SUBCOMPONENTS)
                     );
+                prologue.push("lk.unlock();".to_string());
                 prologue.push(format!("std::unique_lock<std::mutex> lkt({}->numThreadMutex);",CIRCOM_CALC_WIT));
                 prologue.push(format!("{}->ntcvs.wait(lkt, [{}]() {{return {}->numThread <  {}->maxThread; }});",CIRCOM_CALC_WIT,CIRCOM_CALC_WIT,CIRCOM_CALC_WIT,CIRCOM_CALC_WIT));
                 prologue.push(format!("ctx->numThread++;"));
-- 
2.43.0


From 09b0ad1c4fef2d17ca807534fefc0713d72e5f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:50 +0000
Subject: [PATCH 12/32] fix: a witness generator must fail when it could not
 write the witness

---
 code_producers/src/c_elements/common/main.cpp            | 9 ++++++++-
 code_producers/src/c_elements/common64/main.cpp          | 9 ++++++++-
 .../src/wasm_elements/common/generate_witness.js         | 1 +
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/code_producers/src/c_elements/common/main.cpp b/code_producers/src/c_elements/common/main.cpp
index c286558..ff7448c 100644
--- a/code_producers/src/c_elements/common/main.cpp
+++ b/code_producers/src/c_elements/common/main.cpp
@@ -289,6 +289,9 @@ void writeBinWitness(Circom_CalcWit *ctx, std::string wtnsFileName) {
     FILE *write_ptr;
 
     write_ptr = fopen(wtnsFileName.c_str(),"wb");
+    if (write_ptr == NULL) {
+        throw std::system_error(errno, std::generic_category(), "open " + wtnsFileName);
+    }
 
     fwrite("wtns", 4, 1, write_ptr);
 
@@ -330,13 +333,17 @@ void writeBinWitness(Circom_CalcWit *ctx, std::string wtnsFileName) {
         Fr_toLongNormal(&v, &v);
         fwrite(v.longVal, Fr_N64*8, 1, write_ptr);
     }
-    fclose(write_ptr);
+    bool failed = ferror(write_ptr) != 0;
+    if (fclose(write_ptr) != 0 || failed) {
+        throw std::system_error(errno, std::generic_category(), "write " + wtnsFileName);
+    }
 }
 
 int main (int argc, char *argv[]) {
   std::string cl(argv[0]);
   if (argc!=3) {
         std::cout << "Usage: " << cl << " <input.json> <output.wtns>\n";
+        return EXIT_FAILURE;
   } else {
     std::string datfile = cl + ".dat";
     std::string jsonfile(argv[1]);
diff --git a/code_producers/src/c_elements/common64/main.cpp b/code_producers/src/c_elements/common64/main.cpp
index 18ec889..c063df3 100644
--- a/code_producers/src/c_elements/common64/main.cpp
+++ b/code_producers/src/c_elements/common64/main.cpp
@@ -313,6 +313,9 @@ void writeBinWitness(Circom_CalcWit *ctx, std::string wtnsFileName) {
     FILE *write_ptr;
 
     write_ptr = fopen(wtnsFileName.c_str(),"wb");
+    if (write_ptr == NULL) {
+        throw std::system_error(errno, std::generic_category(), "open " + wtnsFileName);
+    }
 
     fwrite("wtns", 4, 1, write_ptr);
 
@@ -355,13 +358,17 @@ void writeBinWitness(Circom_CalcWit *ctx, std::string wtnsFileName) {
     }
     fwrite(v, 8, Nwtns, write_ptr);
 
-    fclose(write_ptr);
+    bool failed = ferror(write_ptr) != 0;
+    if (fclose(write_ptr) != 0 || failed) {
+        throw std::system_error(errno, std::generic_category(), "write " + wtnsFileName);
+    }
 }
 
 int main (int argc, char *argv[]) {
   std::string cl(argv[0]);
   if (argc!=3) {
         std::cout << "Usage: " << cl << " <input.json> <output.wtns>\n";
+        return EXIT_FAILURE;
   } else {
     std::string datfile = cl + ".dat";
     std::string inputfile(argv[1]);
diff --git a/code_producers/src/wasm_elements/common/generate_witness.js b/code_producers/src/wasm_elements/common/generate_witness.js
index a059e66..c55db8e 100755
--- a/code_producers/src/wasm_elements/common/generate_witness.js
+++ b/code_producers/src/wasm_elements/common/generate_witness.js
@@ -3,6 +3,7 @@ const { readFileSync, writeFile } = require("fs");
 
 if (process.argv.length != 5) {
     console.log("Usage: node generate_witness.js <file.wasm> <input.json> <output.wtns>");
+    process.exitCode = 1;
 } else {
     const input = JSON.parse(readFileSync(process.argv[3], "utf8"));
     
-- 
2.43.0


From 7172ca4a4c872f5e9f33d22756d7509c23b474d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:28 +0000
Subject: [PATCH 13/32] fix: the C++ witness generator must reject an
 incomplete data file

---
 code_producers/src/c_elements/common/main.cpp | 21 +++++++++++++++++++
 .../src/c_elements/common64/main.cpp          | 20 ++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/code_producers/src/c_elements/common/main.cpp b/code_producers/src/c_elements/common/main.cpp
index ff7448c..4d45894 100644
--- a/code_producers/src/c_elements/common/main.cpp
+++ b/code_producers/src/c_elements/common/main.cpp
@@ -19,6 +19,13 @@ using json = nlohmann::json;
 #define handle_error(msg) \
            do { perror(msg); exit(EXIT_FAILURE); } while (0)
 
+// The data file must hold everything that is taken from it
+void check_dat_size(u64 needed, u64 available) {
+    if (needed > available) {
+        throw std::runtime_error("The .dat file is incomplete");
+    }
+}
+
 Circom_Circuit* loadCircuit(std::string const &datFileName) {
     Circom_Circuit *circuit = new Circom_Circuit;
 
@@ -36,21 +43,27 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
     }
 
     u8* bdata = (u8*)mmap(NULL, sb.st_size, PROT_READ , MAP_PRIVATE, fd, 0);
+    if (bdata == MAP_FAILED) {
+        throw std::system_error(errno, std::generic_category(), "mmap");
+    }
     close(fd);
 
     circuit->InputHashMap = new HashSignalInfo[get_size_of_input_hashmap()];
     uint dsize = get_size_of_input_hashmap()*sizeof(HashSignalInfo);
+    check_dat_size(dsize, sb.st_size);
     memcpy((void *)(circuit->InputHashMap), (void *)bdata, dsize);
 
     circuit->witness2SignalList = new u64[get_size_of_witness()];
     uint inisize = dsize;    
     dsize = get_size_of_witness()*sizeof(u64);
+    check_dat_size((u64)inisize+dsize, sb.st_size);
     memcpy((void *)(circuit->witness2SignalList), (void *)(bdata+inisize), dsize);
 
     circuit->circuitConstants = new FrElement[get_size_of_constants()];
     if (get_size_of_constants()>0) {
       inisize += dsize;
       dsize = get_size_of_constants()*sizeof(FrElement);
+      check_dat_size((u64)inisize+dsize, sb.st_size);
       memcpy((void *)(circuit->circuitConstants), (void *)(bdata+inisize), dsize);
     }
 
@@ -60,6 +73,7 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
       u32 index[get_size_of_io_map()];
       inisize += dsize;
       dsize = get_size_of_io_map()*sizeof(u32);
+      check_dat_size((u64)inisize+dsize, sb.st_size);
       memcpy((void *)index, (void *)(bdata+inisize), dsize);
       inisize += dsize;
       assert(inisize % sizeof(u32) == 0);    
@@ -67,15 +81,19 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
       u32 dataiomap[(sb.st_size-inisize)/sizeof(u32)];
       memcpy((void *)dataiomap, (void *)(bdata+inisize), sb.st_size-inisize);
       u32* pu32 = dataiomap;
+      u32* end = dataiomap + (sb.st_size-inisize)/sizeof(u32);
       for (int i = 0; i < get_size_of_io_map(); i++) {
+	check_dat_size(1, end-pu32);
 	u32 n = *pu32;
 	IOFieldDefPair p;
 	p.len = n;
 	IOFieldDef defs[n];
 	pu32 += 1;
 	for (u32 j = 0; j <n; j++){
+	  check_dat_size(2, end-pu32);
 	  defs[j].offset=*pu32;
 	  u32 len = *(pu32+1);
+	  check_dat_size((u64)len+4, end-pu32);
 	  defs[j].len = len;
 	  defs[j].lengths = new u32[len];
 	  memcpy((void *)defs[j].lengths,(void *)(pu32+2),len*sizeof(u32));
@@ -92,14 +110,17 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
       }
       busInsId2FieldInfo1 = (IOFieldDefPair*)calloc(get_size_of_bus_field_map(), sizeof(IOFieldDefPair));
       for (int i = 0; i < get_size_of_bus_field_map(); i++) {
+	check_dat_size(1, end-pu32);
 	u32 n = *pu32;
 	IOFieldDefPair p;
 	p.len = n;
 	IOFieldDef defs[n];
 	pu32 += 1;
 	for (u32 j = 0; j <n; j++){
+	  check_dat_size(2, end-pu32);
 	  defs[j].offset=*pu32;
 	  u32 len = *(pu32+1);
+	  check_dat_size((u64)len+4, end-pu32);
 	  defs[j].len = len;
 	  defs[j].lengths = new u32[len];
 	  memcpy((void *)defs[j].lengths,(void *)(pu32+2),len*sizeof(u32));
diff --git a/code_producers/src/c_elements/common64/main.cpp b/code_producers/src/c_elements/common64/main.cpp
index c063df3..638a424 100644
--- a/code_producers/src/c_elements/common64/main.cpp
+++ b/code_producers/src/c_elements/common64/main.cpp
@@ -19,6 +19,13 @@ using json = nlohmann::json;
 #define handle_error(msg) \
            do { perror(msg); exit(EXIT_FAILURE); } while (0)
 
+// The data file must hold everything that is taken from it
+void check_dat_size(u64 needed, u64 available) {
+    if (needed > available) {
+        throw std::runtime_error("The .dat file is incomplete");
+    }
+}
+
 Circom_Circuit* loadCircuit(std::string const &datFileName) {
     Circom_Circuit *circuit = new Circom_Circuit;
 
@@ -36,15 +43,20 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
     }
 
     u8* bdata = (u8*)mmap(NULL, sb.st_size, PROT_READ , MAP_PRIVATE, fd, 0);
+    if (bdata == MAP_FAILED) {
+        throw std::system_error(errno, std::generic_category(), "mmap");
+    }
     close(fd);
 
     circuit->InputHashMap = new HashSignalInfo[get_size_of_input_hashmap()];
     uint dsize = get_size_of_input_hashmap()*sizeof(HashSignalInfo);
+    check_dat_size(dsize, sb.st_size);
     memcpy((void *)(circuit->InputHashMap), (void *)bdata, dsize);
 
     circuit->witness2SignalList = new u64[get_size_of_witness()];
     uint inisize = dsize;    
     dsize = get_size_of_witness()*sizeof(u64);
+    check_dat_size((u64)inisize+dsize, sb.st_size);
     memcpy((void *)(circuit->witness2SignalList), (void *)(bdata+inisize), dsize);
     
     std::map<u32,IOFieldDefPair> templateInsId2IOSignalInfo1;
@@ -53,6 +65,7 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
       u32 index[get_size_of_io_map()];
       inisize += dsize;
       dsize = get_size_of_io_map()*sizeof(u32);
+      check_dat_size((u64)inisize+dsize, sb.st_size);
       memcpy((void *)index, (void *)(bdata+inisize), dsize);
       inisize += dsize;
       assert(inisize % sizeof(u32) == 0);    
@@ -60,15 +73,19 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
       u32 dataiomap[(sb.st_size-inisize)/sizeof(u32)];
       memcpy((void *)dataiomap, (void *)(bdata+inisize), sb.st_size-inisize);
       u32* pu32 = dataiomap;
+      u32* end = dataiomap + (sb.st_size-inisize)/sizeof(u32);
       for (int i = 0; i < get_size_of_io_map(); i++) {
+	check_dat_size(1, end-pu32);
 	u32 n = *pu32;
 	IOFieldDefPair p;
 	p.len = n;
 	IOFieldDef defs[n];
 	pu32 += 1;
 	for (u32 j = 0; j <n; j++){
+	  check_dat_size(2, end-pu32);
 	  defs[j].offset=*pu32;
 	  u32 len = *(pu32+1);
+	  check_dat_size((u64)len+4, end-pu32);
 	  defs[j].len = len;
 	  defs[j].lengths = new u32[len];
 	  memcpy((void *)defs[j].lengths,(void *)(pu32+2),len*sizeof(u32));
@@ -85,14 +102,17 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
       }
       busInsId2FieldInfo1 = (IOFieldDefPair*)calloc(get_size_of_bus_field_map(), sizeof(IOFieldDefPair));
       for (int i = 0; i < get_size_of_bus_field_map(); i++) {
+	check_dat_size(1, end-pu32);
 	u32 n = *pu32;
 	IOFieldDefPair p;
 	p.len = n;
 	IOFieldDef defs[n];
 	pu32 += 1;
 	for (u32 j = 0; j <n; j++){
+	  check_dat_size(2, end-pu32);
 	  defs[j].offset=*pu32;
 	  u32 len = *(pu32+1);
+	  check_dat_size((u64)len+4, end-pu32);
 	  defs[j].len = len;
 	  defs[j].lengths = new u32[len];
 	  memcpy((void *)defs[j].lengths,(void *)(pu32+2),len*sizeof(u32));
-- 
2.43.0


From 626a66f6ccc0131ae9862c8708997fe952256229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:36 +0000
Subject: [PATCH 14/32] fix: a main template declared parallel must be started
 by the functions generated for it

---
 compiler/src/circuit_design/build.rs   | 1 +
 compiler/src/circuit_design/circuit.rs | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/compiler/src/circuit_design/build.rs b/compiler/src/circuit_design/build.rs
index 4d41226..528da20 100644
--- a/compiler/src/circuit_design/build.rs
+++ b/compiler/src/circuit_design/build.rs
@@ -263,6 +263,7 @@ fn initialize_c_producer(vcp: &VCP, database: &TemplateDB, no_asm_flag: bool, sa
     let mut producer = CProducer::default();
     let stats = vcp.get_stats();
     producer.main_header = vcp.get_main_instance().unwrap().template_header.clone();
+    producer.main_is_parallel = vcp.get_main_instance().unwrap().is_parallel;
     producer.main_signal_offset = 1;
     producer.prime = prime.to_str_radix(10);
     producer.prime_str = vcp.prime.clone();
diff --git a/compiler/src/circuit_design/circuit.rs b/compiler/src/circuit_design/circuit.rs
index ea960f2..3898100 100644
--- a/compiler/src/circuit_design/circuit.rs
+++ b/compiler/src/circuit_design/circuit.rs
@@ -410,7 +410,9 @@ impl WriteC for Circuit {
         // run_args.push(CTX_INDEX.to_string());
 	run_args.push("0".to_string());
         run_args.push(CIRCOM_CALC_WIT.to_string());
-        let run_call = format!("{};", build_call(main_template_run, run_args.clone()));
+        // a parallel template releases its thread slot when it ends
+        let take_slot = if producer.main_is_parallel {"ctx->numThread++;\n"} else {""};
+        let run_call = format!("{}{};", take_slot, build_call(main_template_run, run_args.clone()));
 
         let main_run_body = vec![ctx_index, run_call];
         code.push(build_callable(run_circuit, run_circuit_args, main_run_body));
@@ -550,7 +552,9 @@ impl WriteC for Circuit {
             // run_args.push(CTX_INDEX.to_string());
 	        run_args.push("0".to_string());
             run_args.push(CIRCOM_CALC_WIT.to_string());
-            format!("{};", build_call(main_template_run, run_args.clone()))
+            // a parallel template releases its thread slot when it ends
+            let take_slot = if producer.main_is_parallel {"ctx->numThread++;\n"} else {""};
+            format!("{}{};", take_slot, build_call(main_template_run, run_args.clone()))
         } else{
             "// no input signals, the creation will automatically execute".to_string()
         };
-- 
2.43.0


From ae149567a7ce73efd483551ccbe07eca6856cadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:36 +0000
Subject: [PATCH 15/32] fix: the fields of a bus must fit the table the witness
 generator keeps them in

---
 code_producers/src/c_elements/common/main.cpp   | 2 +-
 code_producers/src/c_elements/common64/main.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/code_producers/src/c_elements/common/main.cpp b/code_producers/src/c_elements/common/main.cpp
index 4d45894..4a39b8d 100644
--- a/code_producers/src/c_elements/common/main.cpp
+++ b/code_producers/src/c_elements/common/main.cpp
@@ -129,7 +129,7 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
 	  defs[j].busId=*(pu32+1);	  
 	  pu32 += 2;
 	}
-	p.defs = (IOFieldDef*)calloc(10, sizeof(IOFieldDef));
+	p.defs = (IOFieldDef*)calloc(p.len, sizeof(IOFieldDef));
 	for (u32 j = 0; j < p.len; j++){
 	  p.defs[j] = defs[j];
 	}
diff --git a/code_producers/src/c_elements/common64/main.cpp b/code_producers/src/c_elements/common64/main.cpp
index 638a424..03f9ad1 100644
--- a/code_producers/src/c_elements/common64/main.cpp
+++ b/code_producers/src/c_elements/common64/main.cpp
@@ -121,7 +121,7 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
 	  defs[j].busId=*(pu32+1);	  
 	  pu32 += 2;
 	}
-	p.defs = (IOFieldDef*)calloc(10, sizeof(IOFieldDef));
+	p.defs = (IOFieldDef*)calloc(p.len, sizeof(IOFieldDef));
 	for (u32 j = 0; j < p.len; j++){
 	  p.defs[j] = defs[j];
 	}
-- 
2.43.0


From 7404638f58c26029f2b5371450e06f25149d9279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:15 +0000
Subject: [PATCH 16/32] fix: the C++ witness generator must start with all
 signals zero, not with what the heap held

---
 code_producers/src/c_elements/common/calcwit.cpp   | 2 +-
 code_producers/src/c_elements/common64/calcwit.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/code_producers/src/c_elements/common/calcwit.cpp b/code_producers/src/c_elements/common/calcwit.cpp
index 7abb459..55bd27e 100644
--- a/code_producers/src/c_elements/common/calcwit.cpp
+++ b/code_producers/src/c_elements/common/calcwit.cpp
@@ -30,7 +30,7 @@ Circom_CalcWit::Circom_CalcWit (Circom_Circuit *aCircuit, uint maxTh) {
   for (int i = 0; i< inputSignalAssignedCounter; i++) {
     inputSignalAssigned[i] = false;
   }
-  signalValues = new FrElement[get_total_signal_no()];
+  signalValues = new FrElement[get_total_signal_no()]();
   Fr_str2element(&signalValues[0], "1", 10);
   componentMemory = new Circom_Component[get_number_of_components()];
   circuitConstants = circuit ->circuitConstants;
diff --git a/code_producers/src/c_elements/common64/calcwit.cpp b/code_producers/src/c_elements/common64/calcwit.cpp
index 23eb36d..887ad8a 100644
--- a/code_producers/src/c_elements/common64/calcwit.cpp
+++ b/code_producers/src/c_elements/common64/calcwit.cpp
@@ -30,7 +30,7 @@ Circom_CalcWit::Circom_CalcWit (Circom_Circuit *aCircuit, uint maxTh) {
   for (int i = 0; i< inputSignalAssignedCounter; i++) {
     inputSignalAssigned[i] = false;
   }
-  signalValues = new u64[get_total_signal_no()];
+  signalValues = new u64[get_total_signal_no()]();
   signalValues[0] = 1;
   componentMemory = new Circom_Component[get_number_of_components()];
   // circuitConstants = circuit ->circuitConstants;
-- 
2.43.0


From 9a1447315d8f975f179e08dd3311ab8498294f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 17/32] fix: the size of an input signal that does not exist is
 not what lies at address 12

---
 code_producers/src/wasm_elements/wasm_code_generator.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/code_producers/src/wasm_elements/wasm_code_generator.rs b/code_producers/src/wasm_elements/wasm_code_generator.rs
index ba1ca86..5e7cd80 100644
--- a/code_producers/src/wasm_elements/wasm_code_generator.rs
+++ b/code_producers/src/wasm_elements/wasm_code_generator.rs
@@ -1209,6 +1209,7 @@ pub fn get_input_signal_size_generator(_producer: &WASMProducer) -> Vec<WasmInst
     instructions.push(" (param $hmsb i32)".to_string());
     instructions.push(" (param $hlsb i32)".to_string());
     instructions.push("(result i32)".to_string());
+    instructions.push(" (local $mp i32)".to_string());
     instructions.push(get_local("$hmsb"));
     instructions.push(extend_i32_u64());
     instructions.push(set_constant_64("32"));
@@ -1217,6 +1218,13 @@ pub fn get_input_signal_size_generator(_producer: &WASMProducer) -> Vec<WasmInst
     instructions.push(extend_i32_u64());
     instructions.push(or64());
     instructions.push(call("$getInputSignalMapPosition"));
+    instructions.push(tee_local("$mp"));
+    instructions.push(eqz32());
+    instructions.push(add_if());
+    instructions.push(set_constant("-1")); // there is no such signal
+    instructions.push(add_return());
+    instructions.push(add_end());
+    instructions.push(get_local("$mp"));
     instructions.push(load32(Some("12")));
     instructions.push(")".to_string());
     instructions
-- 
2.43.0


From f751bc2f1c3133416f6f75ed5db71d44bfc11d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 18/32] fix: a failed calculation must not take stack from the
 ones that follow

---
 code_producers/src/wasm_elements/wasm_code_generator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code_producers/src/wasm_elements/wasm_code_generator.rs b/code_producers/src/wasm_elements/wasm_code_generator.rs
index 5e7cd80..3ad1caf 100644
--- a/code_producers/src/wasm_elements/wasm_code_generator.rs
+++ b/code_producers/src/wasm_elements/wasm_code_generator.rs
@@ -944,6 +944,10 @@ pub fn init_generator(producer: &WASMProducer) -> Vec<WasmInstruction> {
     instructions.push(" (param $t i32)".to_string());
     instructions.push(" (local $i i32)".to_string());
     instructions.push(format!(" (local {} i32)", producer.get_merror_tag()));
+    // initialize the stack: a calculation that failed leaves its frames
+    instructions.push(set_constant("0"));
+    instructions.push(set_constant(&producer.get_var_stack_memory_start().to_string()));
+    instructions.push(store32(None));
     // initialize set counter
     instructions.push(set_constant(&producer.get_remaining_input_signal_counter().to_string()));
     instructions.push(";; Number of Main inputs".to_string());
-- 
2.43.0


From 9da8d1c39690a293d2cee69daedff5b2fe2c536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 19/32] fix: a calculation in the WASM module must start with
 all signals zero

---
 .../src/wasm_elements/wasm_code_generator.rs  | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/code_producers/src/wasm_elements/wasm_code_generator.rs b/code_producers/src/wasm_elements/wasm_code_generator.rs
index 3ad1caf..b86f953 100644
--- a/code_producers/src/wasm_elements/wasm_code_generator.rs
+++ b/code_producers/src/wasm_elements/wasm_code_generator.rs
@@ -985,6 +985,25 @@ pub fn init_generator(producer: &WASMProducer) -> Vec<WasmInstruction> {
     //    instructions.push(set_constant(&producer.get_signal_free_pos().to_string()));
     //    instructions.push(set_constant(&next_to_one.to_string()));
     //    instructions.push(store32(None));
+    // initialize signals: one that is not always assigned must not keep its previous value
+    instructions.push(set_constant(&next_to_one.to_string()));
+    instructions.push(set_local("$i"));
+    instructions.push(add_block()); //block 1
+    instructions.push(add_loop()); //loop 2
+    instructions.push(get_local("$i"));
+    instructions.push(set_constant(&producer.get_component_free_pos().to_string()));
+    instructions.push(ge32_u());
+    instructions.push(br_if("1"));
+    instructions.push(get_local("$i"));
+    instructions.push(set_constant_64("0"));
+    instructions.push(store64(None));
+    instructions.push(get_local("$i"));
+    instructions.push(set_constant("8"));
+    instructions.push(add32());
+    instructions.push(set_local("$i"));
+    instructions.push(br("0"));
+    instructions.push(add_end()); //end loop 2
+    instructions.push(add_end()); //end block 1
     instructions.push(set_constant(&next_to_one.to_string()));
     let funcname = format!("${}_create", producer.get_main_header());
     instructions.push(call(&funcname));    
-- 
2.43.0


From ea23de773c12b9e9521c9ebe7919a1c59c854900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 20/32] fix: overlapping or failed calculations must not show
 in the results of others

---
 .../wasm_elements/common/witness_calculator.js    | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/code_producers/src/wasm_elements/common/witness_calculator.js b/code_producers/src/wasm_elements/common/witness_calculator.js
index 4f16502..35ba26e 100644
--- a/code_producers/src/wasm_elements/common/witness_calculator.js
+++ b/code_producers/src/wasm_elements/common/witness_calculator.js
@@ -35,7 +35,11 @@ module.exports = async function builder(code, options) {
 		} else {
 		    err = "Unknown error.\n";
                 }
-                throw new Error(err + errStr);
+                // what this failed calculation leaves behind must not show up in the next one
+                err += errStr;
+                errStr = "";
+                msgStr = "";
+                throw new Error(err);
             },
 	    printErrorMessage : function() {
 		errStr += getMessage() + "\n";
@@ -128,7 +132,8 @@ class WitnessCalculator {
 	return this.instance.exports.getVersion();
     }
 
-    async _doCalculateWitness(input_orig, sanityCheck) {
+    // not async: nothing may run between the computation and the reading of its results
+    _doCalculateWitness(input_orig, sanityCheck) {
 	//input is assumed to be a map from signals to arrays of bigints
         this.instance.exports.init((this.sanityCheck || sanityCheck) ? 1 : 0);
 	let prefix = "";
@@ -176,7 +181,7 @@ class WitnessCalculator {
     async calculateWitness(input, sanityCheck) {
 
         const w = [];
-        await this._doCalculateWitness(input, sanityCheck);
+        this._doCalculateWitness(input, sanityCheck);
 
         for (let i=0; i<this.witnessSize; i++) {
             this.instance.exports.getWitness(i);
@@ -195,7 +200,7 @@ class WitnessCalculator {
 
         const buff32 = new Uint32Array(this.witnessSize*this.n32);
 	const buff = new  Uint8Array( buff32.buffer);
-        await this._doCalculateWitness(input, sanityCheck);
+        this._doCalculateWitness(input, sanityCheck);
 
         for (let i=0; i<this.witnessSize; i++) {
             this.instance.exports.getWitness(i);
@@ -213,7 +218,7 @@ class WitnessCalculator {
 
         const buff32 = new Uint32Array(this.witnessSize*this.n32+this.n32+11);
 	const buff = new  Uint8Array( buff32.buffer);
-        await this._doCalculateWitness(input, sanityCheck);
+        this._doCalculateWitness(input, sanityCheck);
   
 	//"wtns"
 	buff[0] = "w".charCodeAt(0)
-- 
2.43.0


From 5c5dda5c545d99d2504408aa8673acea16ee1f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:11 +0000
Subject: [PATCH 21/32] hook: what the constraint file reader read (guarded by
 cfg vp_hooks)

---
 constraint_writers/src/r1cs_reader.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/constraint_writers/src/r1cs_reader.rs b/constraint_writers/src/r1cs_reader.rs
index 7375182..ca8bc72 100644
--- a/constraint_writers/src/r1cs_reader.rs
+++ b/constraint_writers/src/r1cs_reader.rs
@@ -562,3 +562,11 @@ fn read_sections(info: &mut R1CSData, mut r1cs: R1CSReader, starts: HashMap<u8,
     }
     Ok(())
 }
+
+// Everything that was read, for verification only: build with RUSTFLAGS="--cfg vp_hooks"
+#[cfg(vp_hooks)]
+impl R1CSData {
+    pub fn parts(&self) -> (&HeaderData, &ConstraintList, &SignalList, &Option<CustomGatesUsedData>, &Option<CustomGatesAppliedData>) {
+        (&self.header_data, &self.constraints, &self.signals, &self.custom_gates_used_data, &self.custom_gates_applied_data)
+    }
+}
-- 
2.43.0


From 713d495313f9eac903244b7eda1d43cfffb9ba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:19 +0000
Subject: [PATCH 22/32] fix: an empty string or a fraction is not a number in
 the input of a witness generator

---
 code_producers/src/c_elements/common/main.cpp         | 11 ++++++++++-
 code_producers/src/c_elements/common64/main.cpp       | 11 ++++++++++-
 .../src/wasm_elements/common/witness_calculator.js    |  4 ++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/code_producers/src/c_elements/common/main.cpp b/code_producers/src/c_elements/common/main.cpp
index 4a39b8d..b0f0c0c 100644
--- a/code_producers/src/c_elements/common/main.cpp
+++ b/code_producers/src/c_elements/common/main.cpp
@@ -9,6 +9,7 @@
 #include <nlohmann/json.hpp>
 #include <vector>
 #include <chrono>
+#include <cmath>
 
 using json = nlohmann::json;
 
@@ -145,7 +146,7 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
 }
 
 bool check_valid_number(std::string & s, uint base){
-  bool is_valid = true;
+  bool is_valid = s.size() > 0;
   if (base == 16){
     for (uint i = 0; i < s.size(); i++){
       is_valid &= (
@@ -188,8 +189,16 @@ void json2FrElements (json val, std::vector<FrElement> & vval){
         errStrStream << "Invalid number in JSON input: " << s_aux << "\n";
 	      throw std::runtime_error(errStrStream.str() );
       }
+    } else if (val.is_number_integer()) {
+        s = val.dump();
+        base = 10;
     } else if (val.is_number()) {
         double vd = val.get<double>();
+        if (std::floor(vd) != vd) {
+          std::ostringstream errStrStream;
+          errStrStream << "Invalid number in JSON input: " << val << "\n";
+          throw std::runtime_error(errStrStream.str() );
+        }
         std::stringstream stream;
         stream << std::fixed << std::setprecision(0) << vd;
         s = stream.str();
diff --git a/code_producers/src/c_elements/common64/main.cpp b/code_producers/src/c_elements/common64/main.cpp
index 03f9ad1..2ee1ee4 100644
--- a/code_producers/src/c_elements/common64/main.cpp
+++ b/code_producers/src/c_elements/common64/main.cpp
@@ -9,6 +9,7 @@
 #include <nlohmann/json.hpp>
 #include <vector>
 #include <chrono>
+#include <cmath>
 
 using json = nlohmann::json;
 
@@ -137,7 +138,7 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
 }
 
 bool check_valid_number(std::string & s, uint base){
-  bool is_valid = true;
+  bool is_valid = s.size() > 0;
   if (base == 16){
     for (uint i = 0; i < s.size(); i++){
       is_valid &= (
@@ -191,8 +192,16 @@ void json2FrElements (json val, std::vector<u64> & vval){
         errStrStream << "Invalid number in JSON input: " << s_aux << "\n";
 	      throw std::runtime_error(errStrStream.str() );
       }
+    } else if (val.is_number_integer()) {
+        s = val.dump();
+        base = 10;
     } else if (val.is_number()) {
         double vd = val.get<double>();
+        if (std::floor(vd) != vd) {
+          std::ostringstream errStrStream;
+          errStrStream << "Invalid number in JSON input: " << val << "\n";
+          throw std::runtime_error(errStrStream.str() );
+        }
         std::stringstream stream;
         stream << std::fixed << std::setprecision(0) << vd;
         s = stream.str();
diff --git a/code_producers/src/wasm_elements/common/witness_calculator.js b/code_producers/src/wasm_elements/common/witness_calculator.js
index 35ba26e..28b15d8 100644
--- a/code_producers/src/wasm_elements/common/witness_calculator.js
+++ b/code_producers/src/wasm_elements/common/witness_calculator.js
@@ -366,6 +366,10 @@ function flatArray(a) {
 }
 
 function normalize(n, prime) {
+    // BigInt takes these as 0 or 1
+    if (typeof n === "boolean" || (typeof n === "string" && n.trim() === "")) {
+        throw new Error(`Invalid number in the input: ${JSON.stringify(n)}`);
+    }
     let res = BigInt(n) % prime
     if (res < 0) res += prime
     return res
-- 
2.43.0


From e9694c2b59785de8893b86dbac88ae5f94e33ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:33 +0000
Subject: [PATCH 23/32] fix: evaluate the index of an output of a parallel
 template before the value it is given

---
 compiler/src/intermediate_representation/store_bucket.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compiler/src/intermediate_representation/store_bucket.rs b/compiler/src/intermediate_representation/store_bucket.rs
index 148d793..0022e57 100644
--- a/compiler/src/intermediate_representation/store_bucket.rs
+++ b/compiler/src/intermediate_representation/store_bucket.rs
@@ -601,7 +601,10 @@ impl WriteC for StoreBucket {
 	if let AddressType::Signal = &self.dest_address_type {
 	    if parallel.unwrap() && self.dest_is_output {
             prologue.push(format!("{{")); //open block 1 when parallel and Signal 
-		    aux_dest_index = dest_index.clone();
+		    // the index has to be evaluated here: the code that computes src
+		    // reuses the temporaries that appear in its expression
+		    aux_dest_index = "aux_dest_index".to_string();
+		    prologue.push(format!("uint {} = {};", aux_dest_index, dest_index));
 	    }
 	}
         // store src in dest
-- 
2.43.0


From ecbf8f9d4ad396259f342e51db3a43351812469b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:32 +0000
Subject: [PATCH 24/32] fix: a shift by more bits than the field has is zero,
 and does not take memory for the shifted-out bits

---
 circom_algebra/src/modular_arithmetic.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/circom_algebra/src/modular_arithmetic.rs b/circom_algebra/src/modular_arithmetic.rs
index 60c386c..a7d8683 100644
--- a/circom_algebra/src/modular_arithmetic.rs
+++ b/circom_algebra/src/modular_arithmetic.rs
@@ -112,6 +112,10 @@ pub fn shift_l(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt,
     let two = BigInt::from(2);
     let top = field / &two;
     if right <= &top {
+        if right >= &BigInt::from(bit_representation(field).1.len()) {
+            // no bit is left: 2^right must not be built, it could be of any size
+            return Result::Ok(BigInt::from(0));
+        }
         let usize_repr = right
             .to_usize()
             .map_or(Result::Err(ArithmeticError::DivisionByZero), |a| Result::Ok(a))?;
@@ -125,6 +129,10 @@ pub fn shift_r(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt,
     let two = BigInt::from(2);
     let top = field / &two;
     if right <= &top {
+        if right >= &BigInt::from(bit_representation(field).1.len()) {
+            // no bit is left: 2^right must not be built, it could be of any size
+            return Result::Ok(BigInt::from(0));
+        }
         let usize_repr = right
             .to_usize()
             .map_or(Result::Err(ArithmeticError::DivisionByZero), |a| Result::Ok(a))?;
-- 
2.43.0


From 314cb91eb35ad6005983df29cc892e937118bfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:17 +0000
Subject: [PATCH 25/32] fix: C++ for several reads of components with outputs
 of different sizes in one block did not compile

---
 compiler/src/intermediate_representation/compute_bucket.rs | 5 +----
 compiler/src/intermediate_representation/load_bucket.rs    | 2 ++
 compiler/src/intermediate_representation/store_bucket.rs   | 5 +++++
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/compiler/src/intermediate_representation/compute_bucket.rs b/compiler/src/intermediate_representation/compute_bucket.rs
index 07d863d..c997851 100644
--- a/compiler/src/intermediate_representation/compute_bucket.rs
+++ b/compiler/src/intermediate_representation/compute_bucket.rs
@@ -439,12 +439,9 @@ impl WriteC for ComputeBucket {
                         SizeOption::Multiple(values) => {
                             let cmp_index_ref = "cmp_index_ref_load".to_string();
                             
-                            compute_c.push(format!("std::map<int,int> size_eq {};",
-                                                   set_list_tuple(values.clone())
-                            ));
                             let sub_component_pos_in_memory = format!("{}[{}]", MY_SUBCOMPONENTS, cmp_index_ref);
                             let temp_id = template_id_in_component(sub_component_pos_in_memory);
-                            format!("size_eq[{}]", temp_id)
+                            format!("std::map<int,int> ({})[{}]", set_list_tuple(values.clone()), temp_id)
                         }
                     };
                     if expr_size != "1" {
diff --git a/compiler/src/intermediate_representation/load_bucket.rs b/compiler/src/intermediate_representation/load_bucket.rs
index 2c2cfa2..a4f09c8 100644
--- a/compiler/src/intermediate_representation/load_bucket.rs
+++ b/compiler/src/intermediate_representation/load_bucket.rs
@@ -389,6 +389,7 @@ impl WriteC for LoadBucket {
             }
             // Case we only know if it is parallel at execution
             else{
+                prologue.push(format!("{{"));
                 // We compute the possible sizes, case multiple size
                 let size = match &self.context.size{
                     SizeOption::Single(value) => value.to_string(),
@@ -437,6 +438,7 @@ impl WriteC for LoadBucket {
                 // end of case parallel, in case no parallel we do nothing
 
                 prologue.push(format!("}}"));
+                prologue.push(format!("}}"));
             }
         }
                 let sub_cmp_start = format!(
diff --git a/compiler/src/intermediate_representation/store_bucket.rs b/compiler/src/intermediate_representation/store_bucket.rs
index 0022e57..3b87c34 100644
--- a/compiler/src/intermediate_representation/store_bucket.rs
+++ b/compiler/src/intermediate_representation/store_bucket.rs
@@ -475,6 +475,8 @@ impl WriteC for StoreBucket {
         let src_size = match &self.src_context.size{
             SizeOption::Single(value) => value.to_string(),
             SizeOption::Multiple(values) => {
+                // in a block of its own
+                prologue.push(format!("{{"));
                 prologue.push(format!("std::map<int,int> size_src_store {};",
                     set_list_tuple(values.clone())
                 ));
@@ -846,6 +848,9 @@ impl WriteC for StoreBucket {
     		prologue.push(format!("}}"));
 	    }
 	}
+	if let SizeOption::Multiple(_) = &self.src_context.size {
+	    prologue.push(format!("}}"));
+	}
 	if let AddressType::SubcmpSignal { .. } = &self.dest_address_type {
 	    prologue.push(format!("}}"));
 	}
-- 
2.43.0


From cbe707acd44d6e1685a769788ba63caecb36e474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:19 +0000
Subject: [PATCH 26/32] fix: compiler panics dividing by the length of arrays
 without elements

---
 compiler/src/circuit_design/build.rs          |  6 ++++--
 .../intermediate_representation/translate.rs  | 21 +++++++++++++++----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/compiler/src/circuit_design/build.rs b/compiler/src/circuit_design/build.rs
index 528da20..fc07464 100644
--- a/compiler/src/circuit_design/build.rs
+++ b/compiler/src/circuit_design/build.rs
@@ -504,7 +504,8 @@ fn build_input_output_list(instance: &TemplateInstance, database: &TemplateDB) -
         for len in s.lengths(){
             total_array_size *= len;
         }
-        let individual_size = s.size() / total_array_size;
+        // an array without elements has no size to share out
+        let individual_size = s.size().checked_div(total_array_size).unwrap_or(0);
         if s.xtype() != Intermediate {
             let def = IODef {
                 code: TemplateDB::get_signal_id(database, &instance.template_name, s.name()),
@@ -609,7 +610,8 @@ fn get_info_buses(buses: &Vec<BusInstance>)->(usize, FieldMap){
             for len in &field_info.dimensions{
                 total_array_size *= len;
             }
-            let individual_size = field_info.size / total_array_size;
+            // an array without elements has no size to share out
+            let individual_size = field_info.size.checked_div(total_array_size).unwrap_or(0);
             let data = FieldData{
                 offset: field_info.offset,
                 size: individual_size,
diff --git a/compiler/src/intermediate_representation/translate.rs b/compiler/src/intermediate_representation/translate.rs
index 6858bad..e9fea29 100644
--- a/compiler/src/intermediate_representation/translate.rs
+++ b/compiler/src/intermediate_representation/translate.rs
@@ -1146,8 +1146,16 @@ impl ProcessedSymbol {
                     // we need to study all possible sizes and lenghts
                     let mut index = 0;
                     for possible_length in &mut possible_status.possible_lengths{
-                        let aux_length = possible_length.pop();
-                        possible_status.possible_sizes[index] /= aux_length.unwrap();
+                        let aux_length = possible_length.pop().unwrap();
+                        if aux_length != 0 {
+                            possible_status.possible_sizes[index] /= aux_length;
+                        } else {
+                            // no elements: this access is not reached, but its code has the size of one
+                            let unit = possible_status.possible_bus_fields.as_ref().map_or(1, |fields| {
+                                fields[index].values().map(|field| field.size).sum()
+                            });
+                            possible_status.possible_sizes[index] = possible_length.iter().product::<usize>() * unit;
+                        }
                         index += 1;
                     }
                     
@@ -1545,6 +1553,11 @@ impl ProcessedSymbol {
     }
 }
 
+// An array without elements has nothing to share out
+fn element_size(array_size: usize, length: usize) -> usize {
+    array_size.checked_div(length).unwrap_or(0)
+}
+
 fn compute_full_address(
     state: &State,
     symbol_access_instr: InstructionPointer,
@@ -1567,7 +1580,7 @@ fn compute_full_address(
     let index_stack = indexing_instructions_filter(indexed_with[0].clone(), state);
     for instruction in index_stack {
         let dimension_length = dimensions.pop().unwrap();
-        linear_length /= dimension_length;
+        linear_length = element_size(linear_length, dimension_length);
         let inst = ValueBucket {
             line: at.get_line(),
             message_id: at.get_message_id(),
@@ -1608,7 +1621,7 @@ fn compute_full_address(
         let index_stack = indexing_instructions_filter(indexed_with[index].clone(), state);
         for instruction in index_stack {
             let dimension_length = access.lengths.pop().unwrap();
-            linear_length /= dimension_length;
+            linear_length = element_size(linear_length, dimension_length);
             let inst = ValueBucket {
                 line: at.get_line(),
                 message_id: at.get_message_id(),
-- 
2.43.0


From 60981a77e6bd87fa53b92874b5cf835f33bf7ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:19 +0000
Subject: [PATCH 27/32] fix: a circuit whose input signals have no elements was
 not run when the JSON names them

---
 code_producers/src/c_elements/common/main.cpp   | 7 ++-----
 code_producers/src/c_elements/common64/main.cpp | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/code_producers/src/c_elements/common/main.cpp b/code_producers/src/c_elements/common/main.cpp
index b0f0c0c..d859262 100644
--- a/code_producers/src/c_elements/common/main.cpp
+++ b/code_producers/src/c_elements/common/main.cpp
@@ -281,11 +281,8 @@ void loadJson(Circom_CalcWit *ctx, std::string filename) {
   qualify_input(prefix, jin, j);
   //std::cout << j << std::endl;
   
-  u64 nItems = j.size();
-  // printf("Items : %llu\n",nItems);
-  if (nItems == 0){
-    ctx->tryRunCircuit();
-  }
+  // without input signals there is no last one that starts the computation
+  ctx->tryRunCircuit();
   for (json::iterator it = j.begin(); it != j.end(); ++it) {
     // std::cout << it.key() << " => " << it.value() << '\n';
     u64 h = fnv1a(it.key());
diff --git a/code_producers/src/c_elements/common64/main.cpp b/code_producers/src/c_elements/common64/main.cpp
index 2ee1ee4..cf36985 100644
--- a/code_producers/src/c_elements/common64/main.cpp
+++ b/code_producers/src/c_elements/common64/main.cpp
@@ -304,11 +304,8 @@ void loadJson(Circom_CalcWit *ctx, std::string filename) {
   qualify_input(prefix, jin, j);
   //std::cout << j << std::endl;
   
-  u64 nItems = j.size();
-  // printf("Items : %llu\n",nItems);
-  if (nItems == 0){
-    ctx->tryRunCircuit();
-  }
+  // without input signals there is no last one that starts the computation
+  ctx->tryRunCircuit();
   for (json::iterator it = j.begin(); it != j.end(); ++it) {
     // std::cout << it.key() << " => " << it.value() << '\n';
     u64 h = fnv1a(it.key());
-- 
2.43.0


From 25ca8d7ba28b5d2ecee879695cf9e59a2788c3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:29 +0000
Subject: [PATCH 28/32] fix: comparing arrays without elements compared one
 element (C++) or panicked (wasm)

---
 .../compute_bucket.rs                         | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/compiler/src/intermediate_representation/compute_bucket.rs b/compiler/src/intermediate_representation/compute_bucket.rs
index c997851..17f8009 100644
--- a/compiler/src/intermediate_representation/compute_bucket.rs
+++ b/compiler/src/intermediate_representation/compute_bucket.rs
@@ -220,7 +220,6 @@ impl WriteWasm for ComputeBucket {
                                 (v.len(),v.clone())
                             }
                         };
-			assert!(length != 0);
 			if !is_multiple && length == 1 {
                             instructions.push(call("$Fr_eq"));
                         } else {
@@ -237,8 +236,18 @@ impl WriteWasm for ComputeBucket {
                             instructions.push(set_local(producer.get_aux_2_tag()));  // second argument initial position
 			    instructions.push(set_local(producer.get_aux_1_tag()));  // first argument initial position
 			    instructions.push(set_local(producer.get_aux_0_tag()));  // resut position
+                            // without elements they are equal: the result is 1 as a short
+                            instructions.push(get_local(producer.get_aux_0_tag()));
+                            instructions.push(set_constant("1"));
+                            instructions.push(store32(None));
+                            instructions.push(get_local(producer.get_aux_0_tag()));
+                            instructions.push(set_constant("0"));
+                            instructions.push(store32(Some("4")));
                             instructions.push(add_block());
                             instructions.push(add_loop());
+                            instructions.push(get_local(producer.get_counter_tag()));
+                            instructions.push(eqz32());
+                            instructions.push(br_if("1"));
                             instructions.push(get_local(producer.get_aux_0_tag()));
                             instructions.push(get_local(producer.get_aux_1_tag()));
                             instructions.push(get_local(producer.get_aux_2_tag()));
@@ -250,9 +259,7 @@ impl WriteWasm for ComputeBucket {
                             instructions.push(get_local(producer.get_counter_tag()));
                             instructions.push(set_constant("1"));
                             instructions.push(sub32());
-                            instructions.push(tee_local(producer.get_counter_tag()));
-                            instructions.push(eqz32());
-                            instructions.push(br_if("1"));
+                            instructions.push(set_local(producer.get_counter_tag()));
                             instructions.push(get_local(producer.get_aux_1_tag()));
                             let s = producer.get_size_32_bits_in_memory() * 4;
                             instructions.push(set_constant(&s.to_string()));
@@ -370,8 +377,6 @@ impl WriteC for ComputeBucket {
                     let operands_copy = operands.clone();
                     arguments.append(&mut operands);
                     compute_c.push("{{".to_string());
-                    compute_c.push(format!("{}; // line circom {}", build_call(operator.clone(), arguments),self.line.to_string()));
-                    
                     // We compute the possible sizes, case multiple sizes
                     let expr_size = match &n{
                         SizeOption::Single(value) => value.to_string(),
@@ -387,8 +392,13 @@ impl WriteC for ComputeBucket {
                         }
                     };
                 
-                    if expr_size != "1" {
-                        compute_c.push(format!("{} = 1;", index_multiple_eq()));
+                    if expr_size == "1" {
+                        compute_c.push(format!("{}; // line circom {}", build_call(operator.clone(), arguments),self.line.to_string()));
+                    } else {
+                        // without elements they are equal
+                        compute_c.push(format!("{}.shortVal = 1;", expaux(exp_aux_index.clone())));
+                        compute_c.push(format!("{}.type = Fr_SHORT;", expaux(exp_aux_index.clone())));
+                        compute_c.push(format!("{} = 0;", index_multiple_eq()));
                         compute_c.push(format!("while({} < {} && Fr_isTrue({})) {{", index_multiple_eq(), expr_size, result_ref));
                         operands = vec![];
                         arguments = vec![result_ref.clone()];
-- 
2.43.0


From 0624f7928af0e719160de27ccb61999f3476235c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:29 +0000
Subject: [PATCH 29/32] fix: assigning arrays without elements copied one
 element, left the wasm stack unbalanced or ran the component again

---
 .../call_bucket.rs                            | 27 ++++++++++++-------
 .../return_bucket.rs                          |  2 +-
 .../store_bucket.rs                           | 26 +++++++++++++++---
 3 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/compiler/src/intermediate_representation/call_bucket.rs b/compiler/src/intermediate_representation/call_bucket.rs
index c881a8b..a2664e2 100644
--- a/compiler/src/intermediate_representation/call_bucket.rs
+++ b/compiler/src/intermediate_representation/call_bucket.rs
@@ -102,7 +102,7 @@ impl WriteWasm for CallBucket {
 			0
                     }
                 };
-                if arg_size > 1 {
+                if arg_size != 1 {
                     instructions.push(set_local(producer.get_store_aux_1_tag()));
                 }
                 let mut instructions_arg = p.produce_wasm(producer);
@@ -407,6 +407,18 @@ impl WriteWasm for CallBucket {
                             &producer.get_input_counter_address_in_component().to_string(),
                         )));
                         instructions.push(eqz32());
+			// an array without elements is not the last input that it waits for
+			match &data.context.size{
+			    SizeOption::Single(value) => {
+				instructions.push(set_constant(&value.to_string()));
+			    }
+			    SizeOption::Multiple(_) => { 
+				instructions.push(get_local(producer.get_result_size_tag()));
+			    }
+			};
+			instructions.push(eqz32());
+			instructions.push(eqz32());
+			instructions.push(and32());
                         instructions.push(add_if());
 			if producer.needs_comments() {
                             instructions.push(";; run sub component".to_string());
@@ -505,7 +517,7 @@ impl WriteC for CallBucket {
                 };
                 prologue
                     .push(format!("{};", build_call("Fr_copyn".to_string(), copy_arguments)));
-            } else {
+            } else if size == 1 {
                 let copy_arguments = vec![arena_position, src];
                 prologue
                     .push(format!("{};", build_call("Fr_copy".to_string(), copy_arguments)));
@@ -682,11 +694,6 @@ impl WriteC for CallBucket {
 			    prologue.push(format!("{}->componentMemory[{}].cvs[{}+i].notify_all();",CIRCOM_CALC_WIT,CTX_INDEX,dest_index.clone()));
 			    prologue.push(format!("}}"));
 			    prologue.push(format!("}}"));
-			} else {
-			    prologue.push(format!("{}->componentMemory[{}].mutexes[{}].lock();",CIRCOM_CALC_WIT,CTX_INDEX,dest_index.clone()));
-			    prologue.push(format!("{}->componentMemory[{}].outputIsSet[{}]=true;",CIRCOM_CALC_WIT,CTX_INDEX,dest_index.clone()));
-			    prologue.push(format!("{}->componentMemory[{}].mutexes[{}].unlock();",CIRCOM_CALC_WIT,CTX_INDEX,dest_index.clone()));
-			    prologue.push(format!("{}->componentMemory[{}].cvs[{}].notify_all();",CIRCOM_CALC_WIT,CTX_INDEX,dest_index.clone()));
 			}
 		    }
 		}
@@ -750,7 +757,7 @@ impl WriteC for CallBucket {
                     };
                     if let StatusInput::Unknown = status {
                         assert!(needs_decrement);
-                        let sub_cmp_counter_decrease_andcheck = format!("!({})",sub_cmp_counter_decrease);
+                        let sub_cmp_counter_decrease_andcheck = format!("{} != 0 && !({})",size,sub_cmp_counter_decrease);
                         let if_condition = vec![sub_cmp_counter_decrease_andcheck];
                         prologue.push("// run sub component if needed".to_string());
                         let else_instructions = vec![];
@@ -811,7 +818,7 @@ impl WriteC for CallBucket {
                         },
                         StatusInput::Unknown =>{
                             assert!(needs_decrement);
-                            let sub_cmp_counter_decrease_andcheck = format!("!({})",sub_cmp_counter_decrease);
+                            let sub_cmp_counter_decrease_andcheck = format!("{} != 0 && !({})",size,sub_cmp_counter_decrease);
                             let if_condition = vec![sub_cmp_counter_decrease_andcheck];
                             prologue.push("// run sub component if needed".to_string());
                             let else_instructions = vec![];
@@ -856,7 +863,7 @@ impl WriteC for CallBucket {
                         },
                         StatusInput::Unknown =>{
                             assert!(needs_decrement);
-                            let sub_cmp_counter_decrease_andcheck = format!("!({})",sub_cmp_counter_decrease);
+                            let sub_cmp_counter_decrease_andcheck = format!("{} != 0 && !({})",size,sub_cmp_counter_decrease);
                             let if_condition = vec![sub_cmp_counter_decrease_andcheck];
                             prologue.push("// run sub component if needed".to_string());
                             let else_instructions = vec![];
diff --git a/compiler/src/intermediate_representation/return_bucket.rs b/compiler/src/intermediate_representation/return_bucket.rs
index 14759c2..18e3baf 100644
--- a/compiler/src/intermediate_representation/return_bucket.rs
+++ b/compiler/src/intermediate_representation/return_bucket.rs
@@ -110,7 +110,7 @@ impl WriteC for ReturnBucket {
                 vec![format!("&{}",FUNCTION_DESTINATION), format!("&{}",src), final_size]
             };
             instructions.push(format!("{};", build_call("Fr_copyn".to_string(), copy_arguments)));
-        } else {
+        } else if self.with_size == 1 {
             let copy_arguments = vec![FUNCTION_DESTINATION.to_string(), src];
             instructions.push(format!("{};", build_call("Fr_copy".to_string(), copy_arguments)));
         }
diff --git a/compiler/src/intermediate_representation/store_bucket.rs b/compiler/src/intermediate_representation/store_bucket.rs
index 3b87c34..6d68a9c 100644
--- a/compiler/src/intermediate_representation/store_bucket.rs
+++ b/compiler/src/intermediate_representation/store_bucket.rs
@@ -385,6 +385,17 @@ impl WriteWasm for StoreBucket {
                     &producer.get_input_counter_address_in_component().to_string(),
                 )));
                 instructions.push(eqz32());
+		if (is_multiple_dest || size_dest != 1) && (is_multiple_src || size_src != 1) {
+		    // an array without elements is not the last input that it waits for
+		    if !is_multiple_dest && !is_multiple_src {
+			instructions.push(set_constant(&std::cmp::min(&size_dest,&size_src).to_string()));
+		    } else {
+			instructions.push(get_local(producer.get_result_size_tag()));
+		    }
+		    instructions.push(eqz32());
+		    instructions.push(eqz32());
+		    instructions.push(and32());
+		}
                 instructions.push(add_if());
 		if producer.needs_comments() {
                     instructions.push(";; run sub component".to_string());
@@ -622,7 +633,14 @@ impl WriteC for StoreBucket {
     prologue.append(&mut src_prologue);
 	prologue.push(format!("// end load src"));	
         std::mem::drop(src_prologue);
-        if size != "1" && size != "0" {
+        if size == "0" {
+            // there is nothing to copy, and no output that gets its value here
+	    if let AddressType::Signal = &self.dest_address_type {
+                if parallel.unwrap() && self.dest_is_output {
+		    prologue.push(format!("}}")); // add a close for block 1 (as it's oppened)
+		}
+	    }
+        } else if size != "1" {
             let copy_arguments = if producer.prime_str != "goldilocks" {
                  vec![aux_dest, src, size.clone()]
             } else {
@@ -721,7 +739,7 @@ impl WriteC for StoreBucket {
 
                 if let StatusInput::Unknown = status {
                     assert!(needs_decrement);
-                    let sub_cmp_counter_decrease_andcheck = format!("!({})",sub_cmp_counter_decrease);
+                    let sub_cmp_counter_decrease_andcheck = format!("{} != 0 && !({})",size,sub_cmp_counter_decrease);
                     let if_condition = vec![sub_cmp_counter_decrease_andcheck];
                     prologue.push("// run sub component if needed".to_string());
                     let else_instructions = vec![];
@@ -782,7 +800,7 @@ impl WriteC for StoreBucket {
                     },
                     StatusInput::Unknown =>{
                         assert!(needs_decrement);
-                        let sub_cmp_counter_decrease_andcheck = format!("!({})",sub_cmp_counter_decrease);
+                        let sub_cmp_counter_decrease_andcheck = format!("{} != 0 && !({})",size,sub_cmp_counter_decrease);
                         let if_condition = vec![sub_cmp_counter_decrease_andcheck];
                         prologue.push("// run sub component if needed".to_string());
                         let else_instructions = vec![];
@@ -826,7 +844,7 @@ impl WriteC for StoreBucket {
                         }
                     },
                     StatusInput::Unknown =>{
-                        let sub_cmp_counter_decrease_andcheck = format!("!({})",sub_cmp_counter_decrease);
+                        let sub_cmp_counter_decrease_andcheck = format!("{} != 0 && !({})",size,sub_cmp_counter_decrease);
                         let if_condition = vec![sub_cmp_counter_decrease_andcheck];
                         prologue.push("// run sub component if needed".to_string());
                         let else_instructions = vec![];
-- 
2.43.0


From d7fa29e6b3bb3ac030940279cec8ab1ac2963d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:33 +0000
Subject: [PATCH 30/32] fix: a constant remainder by zero panicked instead of
 being reported

---
 circom_algebra/src/modular_arithmetic.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/circom_algebra/src/modular_arithmetic.rs b/circom_algebra/src/modular_arithmetic.rs
index a7d8683..1b9062e 100644
--- a/circom_algebra/src/modular_arithmetic.rs
+++ b/circom_algebra/src/modular_arithmetic.rs
@@ -58,7 +58,11 @@ pub fn idiv(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt, Ari
 pub fn mod_op(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt, ArithmeticError> {
     let left = modulus(left, field);
     let right = modulus(right, field);
-    Result::Ok(modulus(&left, &right))
+    if right == BigInt::from(0) {
+        Result::Err(ArithmeticError::DivisionByZero)
+    } else {
+        Result::Ok(modulus(&left, &right))
+    }
 }
 pub fn pow(base: &BigInt, exp: &BigInt, field: &BigInt) -> BigInt {
     base.modpow(exp, field)
-- 
2.43.0


From e99626d8c7bbcea59e3e244c91e50a1da04b7fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:33 +0000
Subject: [PATCH 31/32] fix: arguments of extern_c templates: code that does
 not compile for goldilocks and for arrays of several dimensions

---
 compiler/src/circuit_design/template.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/compiler/src/circuit_design/template.rs b/compiler/src/circuit_design/template.rs
index 008e002..64b5639 100644
--- a/compiler/src/circuit_design/template.rs
+++ b/compiler/src/circuit_design/template.rs
@@ -361,7 +361,18 @@ impl TemplateCodeInfo {
 
             // add the parameters of the instance
             for arg in &self.arguments{
-                if arg.lengths.len() == 0{
+                if producer.prime_str == "goldilocks"{
+                    // the values are passed as they are
+                    let values: Vec<String> = arg.values.iter().map(|v| format!("{}ull", v.to_str_radix(10))).collect();
+                    if arg.lengths.len() == 0{
+                        arguments.push(values[0].clone());
+                    } else{
+                        run_body.push(format!("uint64_t arg_{}[{}] = {};",
+                            arg.name, values.len(), set_list_str(values)
+                        ));
+                        arguments.push(format!("arg_{}", arg.name));
+                    }
+                } else if arg.lengths.len() == 0{
                     // case single value
                     let constant = arg.values[0].to_str_radix(10);
                     let index = self.map_constants_arguments.get(&constant).unwrap();
@@ -375,8 +386,8 @@ impl TemplateCodeInfo {
                         let index = self.map_constants_arguments.get(&constant).unwrap();
                         arg_values.push(format!("&{}", circuit_constants(index.to_string())));
                     }
-                    run_body.push(format!("FrElement* arg_{}{:?} = {};",
-                        arg.name, arg.lengths, set_list_str(arg_values)
+                    run_body.push(format!("FrElement* arg_{}[{}] = {};",
+                        arg.name, arg_values.len(), set_list_str(arg_values)
                     ));
                     arguments.push(format!("arg_{}", arg.name));
 
-- 
2.43.0


From 34f05a3b0b31d2b1dfec213771f1bcbb5131a7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:06 +0000
Subject: [PATCH 32/32] fix: a percent sign in the string of a log was taken as
 a conversion by the C++ witness generator

---
 compiler/src/intermediate_representation/log_bucket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/intermediate_representation/log_bucket.rs b/compiler/src/intermediate_representation/log_bucket.rs
index 3004414..7abbdd5 100644
--- a/compiler/src/intermediate_representation/log_bucket.rs
+++ b/compiler/src/intermediate_representation/log_bucket.rs
@@ -129,7 +129,7 @@ impl WriteC for LogBucket {
                 let print_c =
                     build_call(
                         "printf".to_string(), 
-                        vec![format!("\"{}\"", string_value)]
+                        vec!["\"%s\"".to_string(), format!("\"{}\"", string_value)]
                     );
                 log_c.push("{".to_string());
                 log_c.push(format!("{};", print_c));
-- 
2.43.0

