From dd49beffb442652f4511d865a5e1cdb0efd0f74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 01/26] fix: do not hold the name table lock while comparing
 property types

---
 types-ts-interned/src/store.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/types-ts-interned/src/store.rs b/types-ts-interned/src/store.rs
index d5b23e5..70c9095 100644
--- a/types-ts-interned/src/store.rs
+++ b/types-ts-interned/src/store.rs
@@ -1258,8 +1258,9 @@ impl TypeStore {
   }
 
   fn compare_props(&self, a: &Property, b: &Property) -> Ordering {
-    let names = self.names.read();
-    let ord = a.key.cmp_with(&b.key, &|id| names.name(id));
+    // Release the name table before comparing types: `type_cmp` reads it again,
+    // and a recursive read deadlocks once a writer is queued in between.
+    let ord = self.compare_prop_keys(&a.key, &b.key);
     if ord != Ordering::Equal {
       return ord;
     }
-- 
2.43.0


From 389303707fc42bd97b0066403d84b93e920c6dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 02/26] fix: infer binding types in a fixed order

---
 typecheck-ts/src/program/state/bodies/body_check.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/typecheck-ts/src/program/state/bodies/body_check.rs b/typecheck-ts/src/program/state/bodies/body_check.rs
index 8332a35..9b3c252 100644
--- a/typecheck-ts/src/program/state/bodies/body_check.rs
+++ b/typecheck-ts/src/program/state/bodies/body_check.rs
@@ -653,7 +653,11 @@ impl ProgramState {
       return Err(err);
     }
 
-    for (name, def) in binding_defs.iter() {
+    // Inference below may recurse into other bodies, so visit bindings in a fixed
+    // order instead of the hash map's.
+    let mut ordered_binding_defs: Vec<(&String, &DefId)> = binding_defs.iter().collect();
+    ordered_binding_defs.sort();
+    for (name, def) in ordered_binding_defs.iter().copied() {
       if self.type_stack.contains(def) {
         continue;
       }
@@ -689,7 +693,7 @@ impl ProgramState {
 
     let prim = store.primitive_ids();
     let caches = self.checker_caches.for_body();
-    for def in binding_defs.values() {
+    for (_, def) in ordered_binding_defs {
       if self.type_stack.contains(def) {
         continue;
       }
-- 
2.43.0


From 710ff86a30b98603ff66366c4c4cd5acc359faf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 03/26] fix: pick a deterministic definition for shared symbols

---
 typecheck-ts/src/program/state/analysis/hir_align/defs.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/typecheck-ts/src/program/state/analysis/hir_align/defs.rs b/typecheck-ts/src/program/state/analysis/hir_align/defs.rs
index 39d7adc..dd3dd93 100644
--- a/typecheck-ts/src/program/state/analysis/hir_align/defs.rs
+++ b/typecheck-ts/src/program/state/analysis/hir_align/defs.rs
@@ -423,8 +423,14 @@ impl ProgramState {
     self.interned_type_param_decls = new_interned_type_param_decls;
 
     self.symbol_to_def.clear();
+    // Several definitions may share a symbol; keep the lowest id so the result
+    // does not depend on hash map iteration order.
     for (def, data) in self.def_data.iter() {
-      self.symbol_to_def.insert(data.symbol, *def);
+      self
+        .symbol_to_def
+        .entry(data.symbol)
+        .and_modify(|existing| *existing = (*existing).min(*def))
+        .or_insert(*def);
     }
     self.next_def = self
       .def_data
-- 
2.43.0


From 036f36d1bb4782564f48b7b1984aca0791babb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 04/26] fix: explain assignability independently of the shared
 relation cache

---
 types-ts-interned/src/relate.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/types-ts-interned/src/relate.rs b/types-ts-interned/src/relate.rs
index 78e2a61..db68726 100644
--- a/types-ts-interned/src/relate.rs
+++ b/types-ts-interned/src/relate.rs
@@ -483,7 +483,33 @@ impl<'a> RelateCtx<'a> {
       .result
   }
 
+  /// Explain why `src` is (not) assignable to `dst`.
+  ///
+  /// The explanation is always derived from scratch: a hit in the shared
+  /// relation cache would truncate the reason tree to a bare "cached" node, which
+  /// makes the text depend on whichever queries (or threads) happened to run
+  /// earlier.
   pub fn explain_assignable(&self, src: TypeId, dst: TypeId) -> RelationResult {
+    let fresh = Self {
+      store: self.store.clone(),
+      options: self.options,
+      hooks: RelateHooks {
+        expander: self.hooks.expander,
+        is_same_origin_private_member: self.hooks.is_same_origin_private_member,
+      },
+      cache: RelationCache::default(),
+      normalizer_caches: self.normalizer_caches.clone(),
+      in_progress: RefCell::new(HashSet::new()),
+      reason_budget: RefCell::new(ReasonBudget::default()),
+      limits: self.limits,
+      steps: Cell::new(self.steps.get()),
+    };
+    let result = fresh.explain_assignable_cached(src, dst);
+    self.steps.set(fresh.steps.get());
+    result
+  }
+
+  fn explain_assignable_cached(&self, src: TypeId, dst: TypeId) -> RelationResult {
     #[cfg(feature = "tracing")]
     {
       let span = tracing::info_span!(
-- 
2.43.0


From 3d0e5a4cf78ea59aa42c285b74d984b774b8fb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:36 +0000
Subject: [PATCH 05/26] fix: discard partial analysis when a query fails
 part-way

---
 typecheck-ts/src/program/api.rs             | 55 ++++++++++++++++-----
 typecheck-ts/src/program/api/diagnostics.rs |  5 +-
 typecheck-ts/src/program/api/display.rs     |  5 +-
 typecheck-ts/src/program/api/typing.rs      |  4 +-
 typecheck-ts/src/program/snapshot.rs        |  5 +-
 typecheck-ts/src/program/state.rs           | 15 ++++++
 typecheck-ts/src/program/state/analysis.rs  |  6 ---
 7 files changed, 67 insertions(+), 28 deletions(-)

diff --git a/typecheck-ts/src/program/api.rs b/typecheck-ts/src/program/api.rs
index 4e9ce58..de82a03 100644
--- a/typecheck-ts/src/program/api.rs
+++ b/typecheck-ts/src/program/api.rs
@@ -231,9 +231,10 @@ impl Program {
   ) -> Result<R, FatalError> {
     self.catch_fatal(|| {
       self.ensure_not_cancelled()?;
-      let mut state = self.lock_state();
-      state.ensure_analyzed_result(&self.host, &self.roots)?;
-      f(&mut state)
+      self.with_recovery(&mut self.lock_state(), |state| {
+        state.ensure_analyzed_result(&self.host, &self.roots)?;
+        f(state)
+      })
     })
   }
 
@@ -243,12 +244,48 @@ impl Program {
   ) -> Result<R, FatalError> {
     self.catch_fatal(|| {
       self.ensure_not_cancelled()?;
-      let mut state = self.lock_state();
-      state.ensure_interned_types(&self.host, &self.roots)?;
-      f(&mut state)
+      self.with_recovery(&mut self.lock_state(), |state| {
+        state.ensure_interned_types(&self.host, &self.roots)?;
+        f(state)
+      })
     })
   }
 
+  /// Run `f` on the locked state and, if it fails part-way (cancellation, host
+  /// error, panic), drop the half-built analysis before the lock is released so
+  /// that later queries start over instead of reading it.
+  fn with_recovery<R>(
+    &self,
+    state: &mut ProgramState,
+    f: impl FnOnce(&mut ProgramState) -> Result<R, FatalError>,
+  ) -> Result<R, FatalError> {
+    match panic::catch_unwind(AssertUnwindSafe(|| f(&mut *state))) {
+      Ok(Ok(value)) => Ok(value),
+      Ok(Err(fatal)) => {
+        state.discard_partial_analysis(&self.roots);
+        Err(fatal)
+      }
+      Err(payload) => {
+        state.discard_partial_analysis(&self.roots);
+        panic::resume_unwind(payload)
+      }
+    }
+  }
+
+  /// Analyze for a query that cannot fail: a cancelled analysis leaves nothing
+  /// behind and any other failure is recorded as a diagnostic.
+  pub(super) fn ensure_interned_or_record(&self, state: &mut ProgramState) {
+    let analyzed = self.catch_fatal(|| {
+      self.with_recovery(state, |state| {
+        state.ensure_interned_types(&self.host, &self.roots)
+      })
+    });
+    match analyzed {
+      Ok(()) | Err(FatalError::Cancelled) => {}
+      Err(fatal) => state.diagnostics.push(fatal_to_diagnostic(fatal)),
+    }
+  }
+
   fn record_fatal(&self, fatal: FatalError) {
     let is_cancelled = matches!(fatal, FatalError::Cancelled);
     let diag = fatal_to_diagnostic(fatal);
@@ -259,11 +296,7 @@ impl Program {
   }
 
   fn reset_state(&self) {
-    let mut state = self.lock_state();
-    state.reset_analysis_state();
-    for key in self.roots.iter().cloned() {
-      state.intern_file_key(key, FileOrigin::Source);
-    }
+    self.lock_state().restart_analysis(&self.roots);
   }
 
   fn fatal_to_diagnostics(&self, fatal: FatalError) -> Vec<Diagnostic> {
diff --git a/typecheck-ts/src/program/api/diagnostics.rs b/typecheck-ts/src/program/api/diagnostics.rs
index b498b0f..01768e1 100644
--- a/typecheck-ts/src/program/api/diagnostics.rs
+++ b/typecheck-ts/src/program/api/diagnostics.rs
@@ -19,8 +19,9 @@ impl Program {
   fn collect_program_diagnostics(&self) -> Result<Arc<[Diagnostic]>, FatalError> {
     self.catch_fatal(|| {
       self.ensure_not_cancelled()?;
-      let mut state = self.lock_state();
-      state.program_diagnostics(&self.host, &self.roots)
+      self.with_recovery(&mut self.lock_state(), |state| {
+        state.program_diagnostics(&self.host, &self.roots)
+      })
     })
   }
 
diff --git a/typecheck-ts/src/program/api/display.rs b/typecheck-ts/src/program/api/display.rs
index acc5746..814ff6a 100644
--- a/typecheck-ts/src/program/api/display.rs
+++ b/typecheck-ts/src/program/api/display.rs
@@ -5,10 +5,7 @@ impl Program {
   pub fn display_type(&self, ty: TypeId) -> TypeDisplay {
     let (store, ty, resolver) = {
       let mut state = self.lock_state();
-      state.ensure_analyzed(&self.host, &self.roots);
-      if let Err(fatal) = state.ensure_interned_types(&self.host, &self.roots) {
-        state.diagnostics.push(fatal_to_diagnostic(fatal));
-      }
+      self.ensure_interned_or_record(&mut state);
       let resolver = state
         .def_data
         .iter()
diff --git a/typecheck-ts/src/program/api/typing.rs b/typecheck-ts/src/program/api/typing.rs
index c83b90e..aa87574 100644
--- a/typecheck-ts/src/program/api/typing.rs
+++ b/typecheck-ts/src/program/api/typing.rs
@@ -44,7 +44,9 @@ impl Program {
       }
       let context = {
         let mut state = self.lock_state();
-        state.ensure_interned_types(&self.host, &self.roots)?;
+        self.with_recovery(&mut state, |state| {
+          state.ensure_interned_types(&self.host, &self.roots)
+        })?;
         if let Some(res) = state.body_results.get(&body).cloned() {
           return Ok(res);
         }
diff --git a/typecheck-ts/src/program/snapshot.rs b/typecheck-ts/src/program/snapshot.rs
index 568308e..74d8b8a 100644
--- a/typecheck-ts/src/program/snapshot.rs
+++ b/typecheck-ts/src/program/snapshot.rs
@@ -14,10 +14,7 @@ impl Program {
   #[cfg(feature = "serde")]
   pub fn snapshot(&self) -> ProgramSnapshot {
     let mut state = self.lock_state();
-    state.ensure_analyzed(&self.host, &self.roots);
-    if let Err(fatal) = state.ensure_interned_types(&self.host, &self.roots) {
-      state.diagnostics.push(fatal_to_diagnostic(fatal));
-    }
+    self.ensure_interned_or_record(&mut state);
 
     let mut body_ids: Vec<_> = state.body_map.keys().copied().collect();
     body_ids.sort_by_key(|id| id.0);
diff --git a/typecheck-ts/src/program/state.rs b/typecheck-ts/src/program/state.rs
index e7787bc..b16f3e3 100644
--- a/typecheck-ts/src/program/state.rs
+++ b/typecheck-ts/src/program/state.rs
@@ -362,6 +362,21 @@ impl ProgramState {
     self.type_stack.clear();
   }
 
+  fn restart_analysis(&mut self, roots: &[FileKey]) {
+    self.reset_analysis_state();
+    for key in roots.iter().cloned() {
+      self.intern_file_key(key, FileOrigin::Source);
+    }
+  }
+
+  /// Forget analysis results left incomplete by a failed query. Programs
+  /// restored from a snapshot have nothing to rebuild from and keep their state.
+  fn discard_partial_analysis(&mut self, roots: &[FileKey]) {
+    if !self.snapshot_loaded {
+      self.restart_analysis(roots);
+    }
+  }
+
   fn check_cancelled(&self) -> Result<(), FatalError> {
     if self.cancelled.load(Ordering::Relaxed) {
       Err(FatalError::Cancelled)
diff --git a/typecheck-ts/src/program/state/analysis.rs b/typecheck-ts/src/program/state/analysis.rs
index 46b9690..3694187 100644
--- a/typecheck-ts/src/program/state/analysis.rs
+++ b/typecheck-ts/src/program/state/analysis.rs
@@ -5,12 +5,6 @@ mod libs;
 mod sem_diagnostics;
 
 impl ProgramState {
-  pub(super) fn ensure_analyzed(&mut self, host: &Arc<dyn Host>, roots: &[FileKey]) {
-    if let Err(fatal) = self.ensure_analyzed_result(host, roots) {
-      self.diagnostics.push(fatal_to_diagnostic(fatal));
-    }
-  }
-
   pub(super) fn ensure_analyzed_result(
     &mut self,
     host: &Arc<dyn Host>,
-- 
2.43.0


From 6d487ffb06bfdf7f3c23bc91efe91cc2de59807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 06/26] fix: invalidate diagnostics when cached body results
 are replaced

---
 typecheck-ts/src/db/inputs.rs |  7 +++++++
 typecheck-ts/src/db/mod.rs    | 15 +++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/typecheck-ts/src/db/inputs.rs b/typecheck-ts/src/db/inputs.rs
index 2e9ab28..5424641 100644
--- a/typecheck-ts/src/db/inputs.rs
+++ b/typecheck-ts/src/db/inputs.rs
@@ -88,6 +88,13 @@ pub struct BodyResultInput {
   pub result: Arc<crate::BodyCheckResult>,
 }
 
+/// Bumped whenever body results are added or dropped, so that queries reading
+/// the result of a body notice results which were not there before.
+#[salsa::input]
+pub struct BodyResultsRevisionInput {
+  pub revision: u64,
+}
+
 #[salsa::input]
 pub struct ExtraDiagnosticsInput {
   #[return_ref]
diff --git a/typecheck-ts/src/db/mod.rs b/typecheck-ts/src/db/mod.rs
index 2ccc158..a16e0e5 100644
--- a/typecheck-ts/src/db/mod.rs
+++ b/typecheck-ts/src/db/mod.rs
@@ -105,6 +105,7 @@ pub struct Database {
   extra_diagnostics: Option<inputs::ExtraDiagnosticsInput>,
   profiler: Option<QueryStatsCollector>,
   body_results: BTreeMap<BodyId, inputs::BodyResultInput>,
+  body_results_revision_input: Option<inputs::BodyResultsRevisionInput>,
 }
 
 impl Default for Database {
@@ -124,6 +125,7 @@ impl Default for Database {
       extra_diagnostics: None,
       profiler: None,
       body_results: BTreeMap::new(),
+      body_results_revision_input: None,
     };
     db.initialize_defaults();
     db
@@ -231,6 +233,9 @@ impl Db for Database {
   }
 
   fn body_result(&self, body: BodyId) -> Option<Arc<BodyCheckResult>> {
+    if let Some(input) = self.body_results_revision_input {
+      let _ = input.revision(self);
+    }
     self
       .body_results
       .get(&body)
@@ -264,6 +269,7 @@ impl Database {
       self,
       inputs::CancellationToken::new(Arc::default()),
     ));
+    self.body_results_revision_input = Some(inputs::BodyResultsRevisionInput::new(self, 0));
   }
 
   /// Clone the database handle for use on another thread.
@@ -555,6 +561,7 @@ impl Database {
     } else {
       let input = inputs::BodyResultInput::new(self, body, result);
       self.body_results.insert(body, input);
+      self.bump_body_results_revision();
     }
   }
 
@@ -567,6 +574,14 @@ impl Database {
   /// them as part of their reset/invalidation flow.
   pub fn clear_body_results(&mut self) {
     self.body_results.clear();
+    self.bump_body_results_revision();
+  }
+
+  fn bump_body_results_revision(&mut self) {
+    if let Some(input) = self.body_results_revision_input {
+      let next = input.revision(self).wrapping_add(1);
+      input.set_revision(self).to(next);
+    }
   }
 
   pub fn def_to_file(&self) -> Arc<BTreeMap<DefId, FileId>> {
-- 
2.43.0


From 0640490516a5e35ed4c788e3855585daa9b2bd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 07/26] fix: keep edits to files that have not been loaded
 again yet

---
 typecheck-ts/src/files.rs             | 4 ++++
 typecheck-ts/src/program/api/files.rs | 5 ++++-
 typecheck-ts/src/program/state.rs     | 7 ++++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/typecheck-ts/src/files.rs b/typecheck-ts/src/files.rs
index 017af7e..13c15b3 100644
--- a/typecheck-ts/src/files.rs
+++ b/typecheck-ts/src/files.rs
@@ -75,6 +75,10 @@ impl FileRegistry {
     self.id_to_key.get(&id).cloned()
   }
 
+  pub(crate) fn into_keys_by_id(self) -> impl Iterator<Item = (FileId, FileKey)> {
+    self.id_to_key.into_iter()
+  }
+
   pub(crate) fn lookup_origin(&self, id: FileId) -> Option<FileOrigin> {
     self.id_to_origin.get(&id).copied()
   }
diff --git a/typecheck-ts/src/program/api/files.rs b/typecheck-ts/src/program/api/files.rs
index 18edd24..8ac3397 100644
--- a/typecheck-ts/src/program/api/files.rs
+++ b/typecheck-ts/src/program/api/files.rs
@@ -71,7 +71,10 @@ impl Program {
   pub fn set_file_text(&mut self, file: FileId, text: Arc<str>) {
     {
       let mut state = self.lock_state();
-      let Some(key) = state.file_key_for_id(file) else {
+      let Some(key) = state
+        .file_key_for_id(file)
+        .or_else(|| state.retired_file_keys.get(&file).cloned())
+      else {
         return;
       };
       state.file_overrides.insert(key.clone(), Arc::clone(&text));
diff --git a/typecheck-ts/src/program/state.rs b/typecheck-ts/src/program/state.rs
index b16f3e3..9c6db37 100644
--- a/typecheck-ts/src/program/state.rs
+++ b/typecheck-ts/src/program/state.rs
@@ -161,6 +161,9 @@ struct ProgramState {
   symbol_occurrences: HashMap<FileId, Vec<SymbolOccurrence>>,
   local_symbol_info: BTreeMap<semantic_js::SymbolId, crate::db::symbols::LocalSymbolInfo>,
   file_registry: FileRegistry,
+  /// Keys of the files known before the last reset, so that edits addressed to
+  /// files which have not been loaded again yet are not lost.
+  retired_file_keys: HashMap<FileId, FileKey>,
   file_kinds: HashMap<FileId, FileKind>,
   lib_file_ids: HashSet<FileId>,
   lib_texts: HashMap<FileId, Arc<str>>,
@@ -274,6 +277,7 @@ impl ProgramState {
       symbol_occurrences: HashMap::new(),
       local_symbol_info: BTreeMap::new(),
       file_registry: FileRegistry::new(),
+      retired_file_keys: HashMap::new(),
       file_kinds: HashMap::new(),
       lib_file_ids: HashSet::new(),
       lib_texts: HashMap::new(),
@@ -332,7 +336,8 @@ impl ProgramState {
     self.symbol_to_def.clear();
     self.symbol_occurrences.clear();
     self.local_symbol_info.clear();
-    self.file_registry = FileRegistry::new();
+    let registry = std::mem::take(&mut self.file_registry);
+    self.retired_file_keys.extend(registry.into_keys_by_id());
     self.file_kinds.clear();
     self.lib_file_ids.clear();
     self.lib_texts.clear();
-- 
2.43.0


From 0e3aa44db80458e73c0e1b61e13191758f2755d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:05 +0000
Subject: [PATCH 08/26] fix: leave restored diagnostics alone when definitions
 are evaluated again

---
 typecheck-ts/src/program/state.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/typecheck-ts/src/program/state.rs b/typecheck-ts/src/program/state.rs
index 9c6db37..ec38e7d 100644
--- a/typecheck-ts/src/program/state.rs
+++ b/typecheck-ts/src/program/state.rs
@@ -391,6 +391,11 @@ impl ProgramState {
   }
 
   fn push_program_diagnostic(&mut self, diagnostic: Diagnostic) {
+    // A restored program was fully checked before it was captured; evaluating
+    // its definitions again, without their syntax, must not add to that.
+    if self.snapshot_loaded {
+      return;
+    }
     if diagnostic.code.as_str() == codes::IMPLICIT_ANY.as_str() {
       if !self.implicit_any_reported.insert(diagnostic.primary) {
         return;
-- 
2.43.0


From 497e0754a439cd390c33a2d3160c2bc606e0ceae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 09/26] fix: do not reuse a tsc process whose reply stream may
 be out of step

---
 typecheck-ts-harness/src/tsc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typecheck-ts-harness/src/tsc.rs b/typecheck-ts-harness/src/tsc.rs
index f97922c..fbe1098 100644
--- a/typecheck-ts-harness/src/tsc.rs
+++ b/typecheck-ts-harness/src/tsc.rs
@@ -356,6 +356,9 @@ impl TscRunner {
         }
         Err(err) => {
           if is_cancelled(cancel, request_id) || attempts >= 2 {
+            // The reply stream may be out of step with the requests: a reply that
+            // still arrives for this request must not answer the next one.
+            self.process = None;
             return Err(err);
           }
           self.spawn()?;
-- 
2.43.0


From de01073fa858e83132d29d24e549267887cb53cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 10/26] fix: report unreadable test directories instead of
 dropping their tests

---
 typecheck-ts-harness/src/difftsc.rs  | 11 ++++++-----
 typecheck-ts-harness/src/discover.rs |  4 +++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/typecheck-ts-harness/src/difftsc.rs b/typecheck-ts-harness/src/difftsc.rs
index 322d981..ac09f60 100644
--- a/typecheck-ts-harness/src/difftsc.rs
+++ b/typecheck-ts-harness/src/difftsc.rs
@@ -2212,11 +2212,12 @@ fn collect_tests(suite_path: &Path) -> Result<Vec<TestCase>> {
 
 fn collect_files_recursively(dir: &Path) -> Result<Vec<VirtualFile>> {
   let mut files = Vec::new();
-  for entry in WalkDir::new(dir)
-    .into_iter()
-    .filter_map(|res| res.ok())
-    .filter(|entry| entry.file_type().is_file())
-  {
+  for entry in WalkDir::new(dir) {
+    // An unreadable directory must not silently drop files from the test.
+    let entry = entry.with_context(|| format!("read test directory {}", dir.display()))?;
+    if !entry.file_type().is_file() {
+      continue;
+    }
     let path = entry.path();
     if !is_source_file(path) {
       continue;
diff --git a/typecheck-ts-harness/src/discover.rs b/typecheck-ts-harness/src/discover.rs
index 2978161..13e928e 100644
--- a/typecheck-ts-harness/src/discover.rs
+++ b/typecheck-ts-harness/src/discover.rs
@@ -157,7 +157,9 @@ pub(crate) fn discover_conformance_test_paths(
   let allowed_suffixes = normalize_extensions(extensions);
   let candidate_suffixes = build_candidate_suffixes(&allowed_suffixes);
 
-  for entry in WalkDir::new(root).into_iter().filter_map(|e| e.ok()) {
+  for entry in WalkDir::new(root) {
+    // An unreadable directory must not silently shrink the suite.
+    let entry = entry.map_err(std::io::Error::from)?;
     if !entry.file_type().is_file() {
       continue;
     }
-- 
2.43.0


From ff0ed8f01466952b7e4efd42460a853edfb10237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 11/26] fix: report output that could not be flushed to stdout

---
 minify-js-cli/src/main.rs |  4 +++-
 parse-js-cli/src/main.rs  | 13 +++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/minify-js-cli/src/main.rs b/minify-js-cli/src/main.rs
index 35612df..c37099f 100644
--- a/minify-js-cli/src/main.rs
+++ b/minify-js-cli/src/main.rs
@@ -301,7 +301,9 @@ fn main() {
           );
         }
       } else if !args.json {
-        if let Err(err) = stdout().write_all(&output) {
+        // Exiting drops whatever is still buffered, so write errors only surface on flush.
+        let mut stdout = stdout();
+        if let Err(err) = stdout.write_all(&output).and_then(|()| stdout.flush()) {
           exit_with_host_error(
             "<stdout>",
             args.mode,
diff --git a/parse-js-cli/src/main.rs b/parse-js-cli/src/main.rs
index 974f868..c3a7e8d 100644
--- a/parse-js-cli/src/main.rs
+++ b/parse-js-cli/src/main.rs
@@ -7,6 +7,7 @@ use std::io::stdin;
 use std::io::stdout;
 use std::io::IsTerminal;
 use std::io::Read;
+use std::io::Write;
 use std::path::{Path, PathBuf};
 use std::process::exit;
 use std::sync::atomic::{AtomicBool, Ordering};
@@ -128,7 +129,7 @@ fn exit_with_diagnostic(
       schema_version: SCHEMA_VERSION,
       diagnostics,
     };
-    if serde_json::to_writer(stdout(), &payload).is_err() {
+    if write_stdout(&payload).is_err() {
       eprintln!(
         "{}",
         render_diagnostic_with_options(source, &payload.diagnostics[0], output.render)
@@ -157,6 +158,14 @@ struct ParseOutput<T> {
   ast: T,
 }
 
+/// Writes `payload` to stdout and flushes it: exiting drops whatever is still buffered, so write
+/// errors only surface on flush.
+fn write_stdout(payload: &impl Serialize) -> Result<(), serde_json::Error> {
+  let mut stdout = stdout().lock();
+  serde_json::to_writer(&mut stdout, payload)?;
+  stdout.flush().map_err(serde_json::Error::io)
+}
+
 fn infer_dialect(path: &Path) -> Option<DialectFlag> {
   let file_name = path.file_name()?.to_string_lossy();
   if file_name.ends_with(".d.ts") {
@@ -311,7 +320,7 @@ fn main() {
     ast: parsed,
   };
 
-  if let Err(err) = serde_json::to_writer(stdout(), &payload) {
+  if let Err(err) = write_stdout(&payload) {
     let diagnostic = host_error(
       Some(Span::new(file, TextRange::new(0, 0))),
       format!("failed to write output: {err}"),
-- 
2.43.0


From 3a315c364b1a6aa9e38168970d0186542350b90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 12/26] fix: report an expired time limit when it cuts queries
 short

---
 typecheck-ts-cli/src/main.rs | 136 +++++++++++++++++++----------------
 1 file changed, 75 insertions(+), 61 deletions(-)

diff --git a/typecheck-ts-cli/src/main.rs b/typecheck-ts-cli/src/main.rs
index a9ed6b9..5987740 100644
--- a/typecheck-ts-cli/src/main.rs
+++ b/typecheck-ts-cli/src/main.rs
@@ -1,7 +1,7 @@
 use clap::{ArgAction, Args, Parser, Subcommand, ValueEnum};
 use diagnostics::paths::{normalize_fs_path, normalize_ts_path};
 use diagnostics::render::{render_diagnostic_with_options, RenderOptions, SourceProvider};
-use diagnostics::{Diagnostic, FileId, Severity};
+use diagnostics::{Diagnostic, FileId, Severity, Span, TextRange};
 use serde::Serialize;
 use std::collections::{BTreeMap, HashMap};
 use std::fs;
@@ -17,7 +17,7 @@ use typecheck_ts::lib_support::{
   CompilerOptions, FileKind, JsxMode, LibFile, LibName, ScriptTarget,
 };
 use typecheck_ts::resolve::{canonicalize_path, NodeResolver, ResolveOptions};
-use typecheck_ts::{FileKey, Host, HostError, Program};
+use typecheck_ts::{codes, FileKey, Host, HostError, Program};
 
 mod tsconfig;
 
@@ -370,52 +370,31 @@ fn run_typecheck(args: TypecheckArgs) -> ExitCode {
   };
 
   let program = Arc::new(Program::new(host.clone(), roots));
-  let _timeout_guard = ProgramTimeoutGuard::new(&program, args.timeout_secs);
+  let mut timeout_guard = ProgramTimeoutGuard::new(&program, args.timeout_secs);
   let mut diagnostics = program.check();
   sort_diagnostics(&mut diagnostics);
 
-  let type_at = match args.type_at {
-    Some(raw) => match query_type_at(&program, &host, &raw, args.json) {
-      Ok(res) => res,
-      Err(err) => {
-        eprintln!("{err}");
-        return ExitCode::FAILURE;
-      }
-    },
-    None => None,
-  };
-
-  let symbol_at = match args.symbol_at {
-    Some(raw) => match query_symbol_at(&program, &host, &raw, args.json) {
-      Ok(res) => res,
-      Err(err) => {
-        eprintln!("{err}");
-        return ExitCode::FAILURE;
-      }
-    },
-    None => None,
-  };
-
-  let explain_assignability = match args.explain_assignability {
-    Some(raw) => match query_explain_assignability(&program, &host, &raw, args.json) {
-      Ok(res) => res,
-      Err(err) => {
-        eprintln!("{err}");
-        return ExitCode::FAILURE;
-      }
-    },
-    None => None,
-  };
-
-  let exports = match args.exports {
-    Some(path) => match query_exports(&program, &host, path, args.json) {
-      Ok(res) => res,
-      Err(err) => {
-        eprintln!("{err}");
-        return ExitCode::FAILURE;
+  let queries = run_queries(&program, &host, &args);
+  // Queries on a cancelled program answer nothing. Once the limit has expired a
+  // missing answer cannot be told from a negative one, so report the timeout.
+  let timed_out = timeout_guard.finish();
+  let queries = match queries {
+    Ok(queries) if !timed_out => queries,
+    Err(err) if !timed_out => {
+      eprintln!("{err}");
+      return ExitCode::FAILURE;
+    }
+    _ => {
+      if !diagnostics
+        .iter()
+        .any(|d| d.code == codes::CANCELLED.as_str())
+      {
+        let placeholder = Span::new(FileId(0), TextRange::new(0, 0));
+        diagnostics.push(codes::CANCELLED.error("operation cancelled", placeholder));
+        sort_diagnostics(&mut diagnostics);
       }
-    },
-    None => BTreeMap::new(),
+      JsonQueries::default()
+    }
   };
 
   if args.json {
@@ -431,12 +410,7 @@ fn run_typecheck(args: TypecheckArgs) -> ExitCode {
       files,
       diagnostics: diagnostics.clone(),
       compiler_options: host.compiler_options.clone(),
-      queries: JsonQueries {
-        type_at,
-        symbol_at,
-        explain_assignability,
-        exports,
-      },
+      queries,
     };
     let stdout = std::io::stdout();
     let mut handle = stdout.lock();
@@ -467,14 +441,21 @@ fn run_typecheck(args: TypecheckArgs) -> ExitCode {
       );
     }
 
-    if let Some(type_at) = &type_at {
+    let JsonQueries {
+      type_at,
+      symbol_at,
+      explain_assignability,
+      exports,
+    } = &queries;
+
+    if let Some(type_at) = type_at {
       println!(
         "type at {}:{}: {}",
         type_at.file, type_at.offset, type_at.typ
       );
     }
 
-    if let Some(symbol_at) = &symbol_at {
+    if let Some(symbol_at) = symbol_at {
       println!(
         "symbol at {}:{} -> {}{}",
         symbol_at.file,
@@ -498,7 +479,7 @@ fn run_typecheck(args: TypecheckArgs) -> ExitCode {
       }
     }
 
-    if let Some(explain) = &explain_assignability {
+    if let Some(explain) = explain_assignability {
       println!(
         "assignable? {} (src: {}:{}, dst: {}:{})",
         explain.assignable,
@@ -515,7 +496,7 @@ fn run_typecheck(args: TypecheckArgs) -> ExitCode {
     }
 
     if !exports.is_empty() {
-      for (file, map) in &exports {
+      for (file, map) in exports {
         println!("exports for {file}:");
         for (name, entry) in map {
           let mut line = format!("  {name} -> symbol {}", entry.symbol);
@@ -539,6 +520,27 @@ fn run_typecheck(args: TypecheckArgs) -> ExitCode {
   }
 }
 
+fn run_queries(
+  program: &Program,
+  host: &DiskHost,
+  args: &TypecheckArgs,
+) -> Result<JsonQueries, String> {
+  let mut queries = JsonQueries::default();
+  if let Some(raw) = &args.type_at {
+    queries.type_at = query_type_at(program, host, raw, args.json)?;
+  }
+  if let Some(raw) = &args.symbol_at {
+    queries.symbol_at = query_symbol_at(program, host, raw, args.json)?;
+  }
+  if let Some(raw) = &args.explain_assignability {
+    queries.explain_assignability = query_explain_assignability(program, host, raw, args.json)?;
+  }
+  if let Some(path) = &args.exports {
+    queries.exports = query_exports(program, host, path.clone(), args.json)?;
+  }
+  Ok(queries)
+}
+
 fn build_compiler_options(
   args: &TypecheckArgs,
   mut options: CompilerOptions,
@@ -597,7 +599,8 @@ fn init_tracing(enabled: bool) {
 
 struct ProgramTimeoutGuard {
   done: Option<mpsc::Sender<()>>,
-  handle: Option<std::thread::JoinHandle<()>>,
+  handle: Option<std::thread::JoinHandle<bool>>,
+  expired: bool,
 }
 
 impl ProgramTimeoutGuard {
@@ -606,6 +609,7 @@ impl ProgramTimeoutGuard {
       return Self {
         done: None,
         handle: None,
+        expired: false,
       };
     };
 
@@ -615,6 +619,7 @@ impl ProgramTimeoutGuard {
       return Self {
         done: None,
         handle: None,
+        expired: true,
       };
     }
 
@@ -623,30 +628,39 @@ impl ProgramTimeoutGuard {
     let handle = std::thread::Builder::new()
       .name("typecheck-ts-cli-timeout".into())
       .spawn(move || {
-        if matches!(
+        let expired = matches!(
           done_rx.recv_timeout(timeout),
           Err(mpsc::RecvTimeoutError::Timeout)
-        ) {
+        );
+        if expired {
           program.cancel();
         }
+        expired
       })
       .expect("spawn typecheck-ts-cli timeout thread");
 
     Self {
       done: Some(done_tx),
       handle: Some(handle),
+      expired: false,
     }
   }
-}
 
-impl Drop for ProgramTimeoutGuard {
-  fn drop(&mut self) {
+  /// Stop the timer and return whether the limit expired before that.
+  fn finish(&mut self) -> bool {
     if let Some(done) = self.done.take() {
       let _ = done.send(());
     }
     if let Some(handle) = self.handle.take() {
-      let _ = handle.join();
+      self.expired |= handle.join().unwrap_or(true);
     }
+    self.expired
+  }
+}
+
+impl Drop for ProgramTimeoutGuard {
+  fn drop(&mut self) {
+    self.finish();
   }
 }
 
-- 
2.43.0


From 8dc8b63ff348742e114e521606cbbc3a94483e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 13/26] fix: report unreadable package.json files of type
 packages

---
 typecheck-ts-cli/src/main.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/typecheck-ts-cli/src/main.rs b/typecheck-ts-cli/src/main.rs
index 5987740..4e61325 100644
--- a/typecheck-ts-cli/src/main.rs
+++ b/typecheck-ts-cli/src/main.rs
@@ -867,7 +867,7 @@ fn resolve_at_types_entry(type_roots: &[PathBuf], specifier: &str) -> Option<Pat
     if !dir.is_dir() {
       continue;
     }
-    let entry = type_package_entry(&dir)?;
+    let entry = type_package_entry(&dir).ok()??;
     return Some(entry.canonicalize().unwrap_or(entry));
   }
   None
@@ -926,7 +926,7 @@ fn encode_types_package_name(package: &str) -> Option<String> {
 }
 
 fn lib_file_from_type_package(package: &str, dir: &Path) -> Result<Option<LibFile>, String> {
-  let entry = match type_package_entry(dir) {
+  let entry = match type_package_entry(dir)? {
     Some(path) => path,
     None => return Ok(None),
   };
@@ -945,25 +945,25 @@ fn lib_file_from_type_package(package: &str, dir: &Path) -> Result<Option<LibFil
   }))
 }
 
-fn type_package_entry(dir: &Path) -> Option<PathBuf> {
+fn type_package_entry(dir: &Path) -> Result<Option<PathBuf>, String> {
   let pkg_json = dir.join("package.json");
   if pkg_json.is_file() {
-    if let Ok(text) = fs::read_to_string(&pkg_json) {
-      if let Ok(json) = serde_json::from_str::<serde_json::Value>(&text) {
-        let fields = ["types", "typings"];
-        for field in fields {
-          if let Some(path) = json.get(field).and_then(|v| v.as_str()) {
-            let candidate = dir.join(path);
-            if candidate.is_file() {
-              return Some(candidate);
-            }
+    let text = fs::read_to_string(&pkg_json)
+      .map_err(|err| format!("failed to read {}: {err}", pkg_json.display()))?;
+    if let Ok(json) = serde_json::from_str::<serde_json::Value>(&text) {
+      let fields = ["types", "typings"];
+      for field in fields {
+        if let Some(path) = json.get(field).and_then(|v| v.as_str()) {
+          let candidate = dir.join(path);
+          if candidate.is_file() {
+            return Ok(Some(candidate));
           }
         }
       }
     }
   }
   let index = dir.join("index.d.ts");
-  index.is_file().then_some(index)
+  Ok(index.is_file().then_some(index))
 }
 
 struct ProgramSourceSnapshot {
-- 
2.43.0


From 48d48293a6fcbacfe1231a56412c8a02e7f14828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 14/26] fix: report files that could not be written completely

---
 conformance-harness/src/report.rs   | 6 ++++--
 typecheck-ts-harness/src/difftsc.rs | 1 +
 typecheck-ts-harness/src/profile.rs | 4 +++-
 typecheck-ts-harness/src/runner.rs  | 8 +++++---
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/conformance-harness/src/report.rs b/conformance-harness/src/report.rs
index 4fd968e..c00c030 100644
--- a/conformance-harness/src/report.rs
+++ b/conformance-harness/src/report.rs
@@ -46,7 +46,9 @@ pub fn write_json_report<T: Serialize>(path: &Path, report: &T) -> anyhow::Resul
   let mut writer = BufWriter::new(file);
   write_json_report_to_writer(&mut writer, report)
     .with_context(|| format!("write report to {}", path.display()))?;
-  writer.flush().ok();
+  writer
+    .flush()
+    .with_context(|| format!("write report to {}", path.display()))?;
   Ok(())
 }
 
@@ -56,7 +58,7 @@ pub fn write_json_report_to_writer<W: Write, T: Serialize>(
   report: &T,
 ) -> anyhow::Result<()> {
   serde_json::to_writer_pretty(&mut *writer, report).context("write JSON report")?;
-  writeln!(&mut *writer).ok();
+  writeln!(&mut *writer).context("write JSON report")?;
   Ok(())
 }
 
diff --git a/typecheck-ts-harness/src/difftsc.rs b/typecheck-ts-harness/src/difftsc.rs
index ac09f60..f021ebf 100644
--- a/typecheck-ts-harness/src/difftsc.rs
+++ b/typecheck-ts-harness/src/difftsc.rs
@@ -2281,6 +2281,7 @@ fn write_baseline(path: &Path, diagnostics: &TscDiagnostics) -> Result<()> {
   let mut writer = BufWriter::new(file);
   serde_json::to_writer_pretty(&mut writer, &diagnostics)?;
   writeln!(writer)?;
+  writer.flush()?;
 
   Ok(())
 }
diff --git a/typecheck-ts-harness/src/profile.rs b/typecheck-ts-harness/src/profile.rs
index 56b6d2b..19b994e 100644
--- a/typecheck-ts-harness/src/profile.rs
+++ b/typecheck-ts-harness/src/profile.rs
@@ -139,7 +139,9 @@ impl ProfileBuilder {
     let mut writer = std::io::BufWriter::new(file);
     serde_json::to_writer_pretty(&mut writer, &report)
       .map_err(|err| HarnessError::Output(err.to_string()))?;
-    writeln!(writer).map_err(|err| HarnessError::Output(format!("write profile: {err}")))?;
+    writeln!(writer)
+      .and_then(|()| writer.flush())
+      .map_err(|err| HarnessError::Output(format!("write profile: {err}")))?;
 
     Ok(())
   }
diff --git a/typecheck-ts-harness/src/runner.rs b/typecheck-ts-harness/src/runner.rs
index 1ca8e1f..81564c5 100644
--- a/typecheck-ts-harness/src/runner.rs
+++ b/typecheck-ts-harness/src/runner.rs
@@ -1117,7 +1117,7 @@ fn execute_case(
     }
   };
 
-  let tsc = match compare_mode {
+  let mut tsc = match compare_mode {
     CompareMode::None => EngineDiagnostics::skipped(Some("comparison disabled".to_string())),
     CompareMode::Tsc => match run_live_tsc("tsc unavailable") {
       Some(diag) => diag,
@@ -1150,7 +1150,9 @@ fn execute_case(
 
   if update_snapshots && tsc.status == EngineStatus::Ok {
     if let Some(raw) = tsc_raw.as_ref() {
-      let _ = snapshots.save(&id, raw);
+      if let Err(err) = snapshots.save(&id, raw) {
+        tsc = EngineDiagnostics::crashed(format!("failed to save snapshot: {err}"));
+      }
     }
   }
 
@@ -2062,7 +2064,7 @@ impl SnapshotStore {
     let mut writer = std::io::BufWriter::new(file);
     serde_json::to_writer_pretty(&mut writer, &payload)?;
     writeln!(writer)?;
-    Ok(())
+    writer.flush()
   }
 }
 
-- 
2.43.0


From 635a84dc2a416ad5be21030ea67d063d6a95c60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 15/26] fix: count test cases that cannot be read as mismatches

---
 test262/src/main.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/test262/src/main.rs b/test262/src/main.rs
index 5a50cbf..12bd671 100644
--- a/test262/src/main.rs
+++ b/test262/src/main.rs
@@ -11,6 +11,7 @@ use parse_js::{parse_with_options_cancellable, Dialect, ParseOptions, SourceType
 use rayon::prelude::*;
 use serde::Serialize;
 use std::fs;
+use std::io::ErrorKind;
 use std::path::{Path, PathBuf};
 use std::sync::atomic::AtomicBool;
 use std::sync::Arc;
@@ -394,7 +395,10 @@ fn run_single_case(
     Ok(src) => src,
     Err(err) => {
       let diagnostic = host_error(None, format!("read {}: {err}", case.path.display()));
-      let mismatched = case.expected == ExpectedOutcome::Pass;
+      // A file that cannot be read says nothing about the parser; only contents
+      // that are not valid UTF-8 count as rejected.
+      let mismatched =
+        case.expected == ExpectedOutcome::Pass || err.kind() != ErrorKind::InvalidData;
       let expectation = expectation_outcome(expectation, mismatched);
       let expected_mismatch = mismatched && expectation.expectation == ExpectationKind::Xfail;
       let flaky = mismatched && expectation.expectation == ExpectationKind::Flaky;
@@ -557,6 +561,14 @@ fn print_unexpected_details(results: &[TestResult]) {
       continue;
     }
     match result.expected {
+      ExpectedOutcome::Fail if result.outcome == TestOutcome::Failed => {
+        let message = result.diagnostic.as_ref().map(|d| d.message.as_str());
+        eprintln!(
+          "Could not run {}: {}",
+          result.id,
+          message.unwrap_or("no diagnostic available")
+        );
+      }
       ExpectedOutcome::Pass => {
         if let (Some(diag), Some(source)) = (&result.raw_diagnostic, &result.source) {
           let provider = SingleFileSource {
-- 
2.43.0


From b3e2013115ea4edd06591bde28e692609d9ac466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 16/26] fix: report test discovery and output failures of the
 conformance runner

---
 parse-js/src/bin/conformance_runner.rs | 59 +++++++++++++++++---------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/parse-js/src/bin/conformance_runner.rs b/parse-js/src/bin/conformance_runner.rs
index 74c8000..612b6f4 100644
--- a/parse-js/src/bin/conformance_runner.rs
+++ b/parse-js/src/bin/conformance_runner.rs
@@ -634,24 +634,22 @@ fn split_virtual_files(
   Some((files, global_directives))
 }
 
-fn discover_tests(dir: &Path) -> Vec<PathBuf> {
+fn discover_tests(dir: &Path) -> std::io::Result<Vec<PathBuf>> {
   let mut tests = Vec::new();
-  if let Ok(entries) = fs::read_dir(dir) {
-    let mut entries: Vec<_> = entries.flatten().collect();
-    entries.sort_by_key(|e| e.path());
-
-    for entry in entries {
-      let path = entry.path();
-      if path.is_dir() {
-        tests.extend(discover_tests(&path));
-      } else if let Some(ext) = path.extension() {
-        if ext == "ts" || ext == "tsx" {
-          tests.push(path);
-        }
+  let mut entries = fs::read_dir(dir)?.collect::<std::io::Result<Vec<_>>>()?;
+  entries.sort_by_key(|e| e.path());
+
+  for entry in entries {
+    let path = entry.path();
+    if path.is_dir() {
+      tests.extend(discover_tests(&path)?);
+    } else if let Some(ext) = path.extension() {
+      if ext == "ts" || ext == "tsx" {
+        tests.push(path);
       }
     }
   }
-  tests
+  Ok(tests)
 }
 
 fn load_failure_paths(path: &Path) -> HashSet<String> {
@@ -1204,7 +1202,17 @@ If you are running from the parse-js crate directory:\n  git submodule update --
 
   println!("🔍 Discovering TypeScript conformance tests...");
   let baseline_index = Arc::new(build_baseline_error_index());
-  let mut tests = discover_tests(test_dir.as_path());
+  let mut tests = match discover_tests(test_dir.as_path()) {
+    Ok(tests) => tests,
+    Err(err) => {
+      eprintln!(
+        "Failed to list the conformance suite under {}: {}",
+        test_dir.display(),
+        err
+      );
+      std::process::exit(1);
+    }
+  };
   tests.sort();
 
   if tests.is_empty() {
@@ -1360,6 +1368,7 @@ Ensure the TypeScript submodule is checked out:\n  git submodule update --init -
     }
   }
 
+  let mut output_failed = false;
   if let Some(json_path) = options.json_output.as_ref() {
     let serializable = serialize_results(&results);
     match fs::File::create(json_path) {
@@ -1370,12 +1379,14 @@ Ensure the TypeScript submodule is checked out:\n  git submodule update --init -
           .and_then(|()| writer.flush().map_err(serde_json::Error::io));
         if let Err(err) = result {
           eprintln!("Failed to write JSON output: {}", err);
+          output_failed = true;
         } else {
           println!("🧾 JSON results written to {}", json_path.display());
         }
       }
       Err(err) => {
         eprintln!("Failed to write JSON output: {}", err);
+        output_failed = true;
       }
     }
   }
@@ -1412,16 +1423,22 @@ Ensure the TypeScript submodule is checked out:\n  git submodule update --init -
       }
     }
 
-    fs::write(&report_path, report).ok();
-    println!(
-      "\n📝 Detailed failure report written to: {}",
-      report_path.display()
-    );
+    match fs::write(&report_path, report) {
+      Ok(()) => println!(
+        "\n📝 Detailed failure report written to: {}",
+        report_path.display()
+      ),
+      Err(err) => eprintln!(
+        "Failed to write failure report {}: {}",
+        report_path.display(),
+        err
+      ),
+    }
   }
 
   println!("\n");
 
-  if failed_count > 0 {
+  if failed_count > 0 || output_failed {
     std::process::exit(1);
   }
 }
-- 
2.43.0


From a587b16693d35f5ceb492f805a4b5671affd2d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 17/26] fix: let unexpected difftsc errors fail the run

---
 typecheck-ts-harness/src/difftsc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typecheck-ts-harness/src/difftsc.rs b/typecheck-ts-harness/src/difftsc.rs
index f021ebf..e7d24d8 100644
--- a/typecheck-ts-harness/src/difftsc.rs
+++ b/typecheck-ts-harness/src/difftsc.rs
@@ -475,7 +475,7 @@ fn run_impl(args: DifftscArgs) -> Result<CommandStatus> {
       xpass += 1;
     }
 
-    if report.status == CaseStatus::Mismatch {
+    if report.status == CaseStatus::Mismatch || report.status.is_error() {
       if let Some(exp) = report.expectation.as_ref() {
         if exp.expectation == ExpectationKind::Flaky {
           flaky_mismatches += 1;
-- 
2.43.0


From 94467f264adb4d5dabc57c22cb79bc98b1031c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 18/26] fix: embed the edited text of a file in program
 snapshots

Snapshots took file contents from the host, ignoring set_file_text overrides,
so a snapshot of an edited program held the text from before the edit.
---
 typecheck-ts/src/program/snapshot.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/typecheck-ts/src/program/snapshot.rs b/typecheck-ts/src/program/snapshot.rs
index 74d8b8a..f47aeaa 100644
--- a/typecheck-ts/src/program/snapshot.rs
+++ b/typecheck-ts/src/program/snapshot.rs
@@ -43,11 +43,7 @@ impl Program {
         .file_key_for_id(file)
         .unwrap_or_else(|| FileKey::new(format!("file{}.ts", file.0)));
       let is_lib = state.lib_file_ids.contains(&file);
-      let text = state.lib_texts.get(&file).cloned().or_else(|| {
-        state
-          .file_key_for_id(file)
-          .and_then(|key| self.host.file_text(&key).ok())
-      });
+      let text = state.load_text(file, &self.host).ok();
       let hash = if let Some(text) = text.as_ref() {
         const OFFSET_BASIS: u64 = 14_695_981_039_346_656_037;
         const PRIME: u64 = 1_099_511_628_211;
-- 
2.43.0


From 902182839eab06fa5fed7b79a1dc5df98f01011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 19/26] fix: do not keep a body check context built while a
 query was cancelled

Definitions whose types could not be computed because of a cancellation (or a
host error) were left without a type in the cached context, and every body
checked after the cancellation was cleared was checked against it.
---
 typecheck-ts/src/program/api/typing.rs        | 14 +++++++++-----
 .../src/program/state/body_context.rs         | 19 +++++++++----------
 typecheck-ts/src/program/state/diagnostics.rs |  2 +-
 3 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/typecheck-ts/src/program/api/typing.rs b/typecheck-ts/src/program/api/typing.rs
index aa87574..dfd1ba0 100644
--- a/typecheck-ts/src/program/api/typing.rs
+++ b/typecheck-ts/src/program/api/typing.rs
@@ -44,13 +44,17 @@ impl Program {
       }
       let context = {
         let mut state = self.lock_state();
-        self.with_recovery(&mut state, |state| {
-          state.ensure_interned_types(&self.host, &self.roots)
+        let prepared = self.with_recovery(&mut state, |state| {
+          state.ensure_interned_types(&self.host, &self.roots)?;
+          match state.body_results.get(&body).cloned() {
+            Some(res) => Ok(Err(res)),
+            None => state.body_check_context().map(Ok),
+          }
         })?;
-        if let Some(res) = state.body_results.get(&body).cloned() {
-          return Ok(res);
+        match prepared {
+          Ok(context) => context,
+          Err(res) => return Ok(res),
         }
-        state.body_check_context()
       };
       let db = BodyCheckDb::from_shared_context(context);
       let res = db::queries::body_check::check_body(&db, body);
diff --git a/typecheck-ts/src/program/state/body_context.rs b/typecheck-ts/src/program/state/body_context.rs
index 6c19cce..44a33e9 100644
--- a/typecheck-ts/src/program/state/body_context.rs
+++ b/typecheck-ts/src/program/state/body_context.rs
@@ -8,7 +8,7 @@ pub(super) struct CachedBodyCheckContext {
 }
 
 impl ProgramState {
-  pub(super) fn body_check_context(&mut self) -> Arc<BodyCheckContext> {
+  pub(super) fn body_check_context(&mut self) -> Result<Arc<BodyCheckContext>, FatalError> {
     let fingerprint = self
       .decl_types_fingerprint
       .unwrap_or_else(|| db::decl_types_fingerprint(&self.typecheck_db));
@@ -19,7 +19,7 @@ impl ProgramState {
         && cached.cache_options == cache_options
         && Arc::ptr_eq(&cached.context.store, &store)
       {
-        return Arc::clone(&cached.context);
+        return Ok(Arc::clone(&cached.context));
       }
     }
 
@@ -36,7 +36,7 @@ impl ProgramState {
       false,
       Some(self.query_stats.clone()),
     );
-    let context = Arc::new(self.build_body_check_context());
+    let context = Arc::new(self.build_body_check_context()?);
     self.cached_body_context = Some(CachedBodyCheckContext {
       decl_types_fingerprint: fingerprint,
       cache_options,
@@ -45,10 +45,10 @@ impl ProgramState {
     if let Some(span) = span {
       span.finish(None);
     }
-    context
+    Ok(context)
   }
 
-  fn build_body_check_context(&mut self) -> BodyCheckContext {
+  fn build_body_check_context(&mut self) -> Result<BodyCheckContext, FatalError> {
     let store = Arc::clone(&self.store);
     let mut def_ids: Vec<_> = self.def_data.keys().copied().collect();
     def_ids.sort_by_key(|def| def.0);
@@ -68,9 +68,8 @@ impl ProgramState {
           eprintln!("DEBUG_MEMBER recomputing def {} {:?}", data.name, def);
         }
       }
-      if let Ok(ty) = self.type_of_def(def) {
-        self.interned_def_types.insert(def, store.canon(ty));
-      }
+      let ty = self.type_of_def(def)?;
+      self.interned_def_types.insert(def, store.canon(ty));
     }
     let mut body_info = HashMap::new();
     for (id, meta) in self.body_map.iter() {
@@ -123,7 +122,7 @@ impl ProgramState {
       .namespace_member_index
       .clone()
       .unwrap_or_else(|| Arc::new(NamespaceMemberIndex::default()));
-    BodyCheckContext {
+    Ok(BodyCheckContext {
       store: Arc::clone(&store),
       target: self.compiler_options.target,
       no_implicit_any: self.compiler_options.no_implicit_any,
@@ -163,6 +162,6 @@ impl ProgramState {
       jsx_mode: self.compiler_options.jsx,
       query_stats: self.query_stats.clone(),
       cancelled: Arc::clone(&self.cancelled),
-    }
+    })
   }
 }
diff --git a/typecheck-ts/src/program/state/diagnostics.rs b/typecheck-ts/src/program/state/diagnostics.rs
index 99dbdbf..5542995 100644
--- a/typecheck-ts/src/program/state/diagnostics.rs
+++ b/typecheck-ts/src/program/state/diagnostics.rs
@@ -57,7 +57,7 @@ impl ProgramState {
       body_ids
     };
 
-    let shared_context = self.body_check_context();
+    let shared_context = self.body_check_context()?;
     // Parent body results (especially top-level bodies) are needed to seed bindings for many
     // child bodies. Compute these sequentially once and seed each parallel worker with the
     // results to avoid redundant work (and pathological contention) during parallel checking.
-- 
2.43.0


From 7ff1df2c1cfcbfb62919d0ae05f00fe133eb6ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:14 +0000
Subject: [PATCH 20/26] fix: leave no half-built state behind in display_type
 and snapshot

display_type and snapshot evaluated definitions outside of the recovery that
other queries use: a cancellation in the middle left partial results (and a
cancellation diagnostic) in the program, and snapshot could panic.
---
 typecheck-ts/src/program/api.rs         | 28 +++++++++------
 typecheck-ts/src/program/api/display.rs | 14 ++++----
 typecheck-ts/src/program/snapshot.rs    | 48 +++++++++++++++++++------
 3 files changed, 61 insertions(+), 29 deletions(-)

diff --git a/typecheck-ts/src/program/api.rs b/typecheck-ts/src/program/api.rs
index de82a03..0a94dc1 100644
--- a/typecheck-ts/src/program/api.rs
+++ b/typecheck-ts/src/program/api.rs
@@ -205,7 +205,10 @@ impl Program {
     }
   }
 
-  fn catch_fatal<R>(&self, f: impl FnOnce() -> Result<R, FatalError>) -> Result<R, FatalError> {
+  pub(super) fn catch_fatal<R>(
+    &self,
+    f: impl FnOnce() -> Result<R, FatalError>,
+  ) -> Result<R, FatalError> {
     match panic::catch_unwind(AssertUnwindSafe(f)) {
       Ok(res) => res,
       Err(payload) => match payload.downcast::<FatalError>() {
@@ -272,17 +275,20 @@ impl Program {
     }
   }
 
-  /// Analyze for a query that cannot fail: a cancelled analysis leaves nothing
+  /// Run a step of a query that cannot fail: a cancelled step leaves nothing
   /// behind and any other failure is recorded as a diagnostic.
-  pub(super) fn ensure_interned_or_record(&self, state: &mut ProgramState) {
-    let analyzed = self.catch_fatal(|| {
-      self.with_recovery(state, |state| {
-        state.ensure_interned_types(&self.host, &self.roots)
-      })
-    });
-    match analyzed {
-      Ok(()) | Err(FatalError::Cancelled) => {}
-      Err(fatal) => state.diagnostics.push(fatal_to_diagnostic(fatal)),
+  pub(super) fn recover_or_record<R>(
+    &self,
+    state: &mut ProgramState,
+    f: impl FnOnce(&mut ProgramState) -> Result<R, FatalError>,
+  ) -> Option<R> {
+    match self.catch_fatal(|| self.with_recovery(&mut *state, f)) {
+      Ok(value) => Some(value),
+      Err(FatalError::Cancelled) => None,
+      Err(fatal) => {
+        state.diagnostics.push(fatal_to_diagnostic(fatal));
+        None
+      }
     }
   }
 
diff --git a/typecheck-ts/src/program/api/display.rs b/typecheck-ts/src/program/api/display.rs
index 814ff6a..f57062c 100644
--- a/typecheck-ts/src/program/api/display.rs
+++ b/typecheck-ts/src/program/api/display.rs
@@ -5,7 +5,9 @@ impl Program {
   pub fn display_type(&self, ty: TypeId) -> TypeDisplay {
     let (store, ty, resolver) = {
       let mut state = self.lock_state();
-      self.ensure_interned_or_record(&mut state);
+      self.recover_or_record(&mut state, |state| {
+        state.ensure_interned_types(&self.host, &self.roots)
+      });
       let resolver = state
         .def_data
         .iter()
@@ -103,13 +105,9 @@ impl Program {
               .get(&DefId(def.0))
               .is_some_and(|data| matches!(data.kind, DefKind::Function(_) | DefKind::Var(_))) =>
         {
-          match state.resolve_value_ref_type(ty) {
-            Ok(resolved) => resolved,
-            Err(fatal) => {
-              state.diagnostics.push(fatal_to_diagnostic(fatal));
-              ty
-            }
-          }
+          self
+            .recover_or_record(&mut state, |state| state.resolve_value_ref_type(ty))
+            .unwrap_or(ty)
         }
         tti::TypeKind::Ref { def, .. } if can_evaluate => {
           let should_expand = state
diff --git a/typecheck-ts/src/program/snapshot.rs b/typecheck-ts/src/program/snapshot.rs
index f47aeaa..dec4f4b 100644
--- a/typecheck-ts/src/program/snapshot.rs
+++ b/typecheck-ts/src/program/snapshot.rs
@@ -14,12 +14,17 @@ impl Program {
   #[cfg(feature = "serde")]
   pub fn snapshot(&self) -> ProgramSnapshot {
     let mut state = self.lock_state();
-    self.ensure_interned_or_record(&mut state);
+    let mut failed = self
+      .recover_or_record(&mut state, |state| {
+        state.ensure_interned_types(&self.host, &self.roots)
+      })
+      .is_none();
 
     let mut body_ids: Vec<_> = state.body_map.keys().copied().collect();
     body_ids.sort_by_key(|id| id.0);
     for body in body_ids.iter() {
-      if let Err(fatal) = state.check_body(*body) {
+      if let Err(fatal) = self.catch_fatal(|| state.check_body(*body)) {
+        failed = true;
         state.diagnostics.push(fatal_to_diagnostic(fatal));
         break;
       }
@@ -28,7 +33,8 @@ impl Program {
     let mut def_ids: Vec<_> = state.def_data.keys().copied().collect();
     def_ids.sort_by_key(|id| id.0);
     for def in def_ids.iter() {
-      if let Err(fatal) = ProgramState::type_of_def(&mut state, *def) {
+      if let Err(fatal) = self.catch_fatal(|| ProgramState::type_of_def(&mut state, *def)) {
+        failed = true;
         state.diagnostics.push(fatal_to_diagnostic(fatal));
         break;
       }
@@ -70,9 +76,10 @@ impl Program {
     let mut file_state_ids: Vec<_> = state.files.keys().copied().collect();
     file_state_ids.sort_by_key(|id| id.0);
     for file in file_state_ids {
-      let exports = match state.exports_of_file(file) {
+      let exports = match self.catch_fatal(|| state.exports_of_file(file)) {
         Ok(exports) => exports,
         Err(fatal) => {
+          failed = true;
           state.diagnostics.push(fatal_to_diagnostic(fatal));
           state
             .files
@@ -122,13 +129,27 @@ impl Program {
     let mut symbol_files: Vec<_> = state.file_kinds.keys().copied().collect();
     symbol_files.sort_by_key(|file| file.0);
     for file in symbol_files.iter().copied() {
-      let occs = crate::db::symbol_occurrences(&state.typecheck_db, file);
-      symbol_occurrences.push((file, occs.iter().cloned().collect()));
+      match self.catch_fatal(|| Ok(crate::db::symbol_occurrences(&state.typecheck_db, file))) {
+        Ok(occs) => symbol_occurrences.push((file, occs.iter().cloned().collect())),
+        Err(fatal) => {
+          failed = true;
+          state.diagnostics.push(fatal_to_diagnostic(fatal));
+          break;
+        }
+      }
     }
 
     let mut local_symbol_info = Vec::new();
     for file in symbol_files.iter().copied() {
-      let locals = crate::db::local_symbol_info(&state.typecheck_db, file);
+      let locals =
+        match self.catch_fatal(|| Ok(crate::db::local_symbol_info(&state.typecheck_db, file))) {
+          Ok(locals) => locals,
+          Err(fatal) => {
+            failed = true;
+            state.diagnostics.push(fatal_to_diagnostic(fatal));
+            break;
+          }
+        };
       for (symbol, info) in locals.iter() {
         local_symbol_info.push(LocalSymbolInfoSnapshot {
           symbol: *symbol,
@@ -182,9 +203,10 @@ impl Program {
     let mut value_def_map: Vec<_> = state.value_defs.iter().map(|(a, b)| (*a, *b)).collect();
     value_def_map.sort_by_key(|(def, _)| def.0);
 
-    let canonical_defs_map = match state.canonical_defs() {
+    let canonical_defs_map = match self.catch_fatal(|| state.canonical_defs()) {
       Ok(map) => map,
       Err(fatal) => {
+        failed = true;
         state.diagnostics.push(fatal_to_diagnostic(fatal));
         HashMap::new()
       }
@@ -207,9 +229,11 @@ impl Program {
       .collect();
     namespace_types.sort_by_key(|(def, _)| def.0);
 
-    let diagnostics = match state.program_diagnostics(&self.host, &self.roots) {
+    let diagnostics = match self.catch_fatal(|| state.program_diagnostics(&self.host, &self.roots))
+    {
       Ok(diags) => diags.to_vec(),
       Err(fatal) => {
+        failed = true;
         state.diagnostics.push(fatal_to_diagnostic(fatal));
         state.diagnostics.clone()
       }
@@ -226,7 +250,7 @@ impl Program {
       })
       .collect();
 
-    ProgramSnapshot {
+    let snapshot = ProgramSnapshot {
       schema_version: PROGRAM_SNAPSHOT_VERSION,
       tool_version: env!("CARGO_PKG_VERSION").to_string(),
       compiler_options: state.compiler_options.clone(),
@@ -257,7 +281,11 @@ impl Program {
       value_def_map,
       next_def: state.next_def,
       next_body: state.next_body,
+    };
+    if failed {
+      state.discard_partial_analysis(&self.roots);
     }
+    snapshot
   }
 
   /// Rehydrate a program from a previously captured snapshot. The provided host
-- 
2.43.0


From 8a1eed34ea179430530cb38be9414b26ec210103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 21/26] fix: let clear_cancellation wait for the cancelled work
 to stop

Clearing while a cancelled query was still unwinding made the rest of that
query take the parts that had already given up for complete results, and
memoize them.
---
 typecheck-ts/src/program/api/cancellation.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/typecheck-ts/src/program/api/cancellation.rs b/typecheck-ts/src/program/api/cancellation.rs
index 99b3e36..b22bedd 100644
--- a/typecheck-ts/src/program/api/cancellation.rs
+++ b/typecheck-ts/src/program/api/cancellation.rs
@@ -7,7 +7,13 @@ impl Program {
   }
 
   /// Clear any pending cancellation request so new work can proceed.
+  ///
+  /// Waits for the cancelled work to stop first: parts of it that have already
+  /// given up must not be taken for complete by the rest.
   pub fn clear_cancellation(&self) {
-    self.cancelled.store(false, Ordering::Relaxed);
+    if self.cancelled.load(Ordering::Relaxed) {
+      let _state = self.lock_state();
+      self.cancelled.store(false, Ordering::Relaxed);
+    }
   }
 }
-- 
2.43.0


From 9f5c8450b8a1601039761c080a562737d29e59ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 22/26] fix: do not insert body results from a discarded
 analysis

---
 typecheck-ts/src/program/api/typing.rs         | 7 +++++--
 typecheck-ts/src/program/state/body_context.rs | 7 +++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/typecheck-ts/src/program/api/typing.rs b/typecheck-ts/src/program/api/typing.rs
index dfd1ba0..7284af2 100644
--- a/typecheck-ts/src/program/api/typing.rs
+++ b/typecheck-ts/src/program/api/typing.rs
@@ -56,10 +56,13 @@ impl Program {
           Err(res) => return Ok(res),
         }
       };
-      let db = BodyCheckDb::from_shared_context(context);
+      let db = BodyCheckDb::from_shared_context(Arc::clone(&context));
       let res = db::queries::body_check::check_body(&db, body);
       let mut state = self.lock_state();
-      state.body_results.insert(body, Arc::clone(&res));
+      // The analysis may have been discarded while the lock was released.
+      if state.uses_body_check_context(&context) {
+        state.body_results.insert(body, Arc::clone(&res));
+      }
       Ok(res)
     })
   }
diff --git a/typecheck-ts/src/program/state/body_context.rs b/typecheck-ts/src/program/state/body_context.rs
index 44a33e9..5b3247f 100644
--- a/typecheck-ts/src/program/state/body_context.rs
+++ b/typecheck-ts/src/program/state/body_context.rs
@@ -48,6 +48,13 @@ impl ProgramState {
     Ok(context)
   }
 
+  pub(in super::super) fn uses_body_check_context(&self, context: &Arc<BodyCheckContext>) -> bool {
+    self
+      .cached_body_context
+      .as_ref()
+      .is_some_and(|cached| Arc::ptr_eq(&cached.context, context))
+  }
+
   fn build_body_check_context(&mut self) -> Result<BodyCheckContext, FatalError> {
     let store = Arc::clone(&self.store);
     let mut def_ids: Vec<_> = self.def_data.keys().copied().collect();
-- 
2.43.0


From 131b114e000df5aa92e446ec0c461cb4fab97b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:13 +0000
Subject: [PATCH 23/26] fix: do not keep or answer a query cancelled while it
 gave up on parts

---
 typecheck-ts/src/program/api.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/typecheck-ts/src/program/api.rs b/typecheck-ts/src/program/api.rs
index 0a94dc1..b8bfc58 100644
--- a/typecheck-ts/src/program/api.rs
+++ b/typecheck-ts/src/program/api.rs
@@ -262,7 +262,14 @@ impl Program {
     state: &mut ProgramState,
     f: impl FnOnce(&mut ProgramState) -> Result<R, FatalError>,
   ) -> Result<R, FatalError> {
-    match panic::catch_unwind(AssertUnwindSafe(|| f(&mut *state))) {
+    let run = || {
+      let value = f(&mut *state)?;
+      // Some steps give up silently when cancelled: what they left out must
+      // neither be answered nor kept.
+      state.check_cancelled()?;
+      Ok(value)
+    };
+    match panic::catch_unwind(AssertUnwindSafe(run)) {
       Ok(Ok(value)) => Ok(value),
       Ok(Err(fatal)) => {
         state.discard_partial_analysis(&self.roots);
-- 
2.43.0


From dc95f8d98701a6309fca24dd5dfc5655d786a913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:13 +0000
Subject: [PATCH 24/26] fix: keep partial reference expansions out of the
 evaluated reference cache

---
 types-ts-interned/src/eval.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/types-ts-interned/src/eval.rs b/types-ts-interned/src/eval.rs
index e10d296..17d8829 100644
--- a/types-ts-interned/src/eval.rs
+++ b/types-ts-interned/src/eval.rs
@@ -225,6 +225,9 @@ pub struct EvaluatorCaches {
   generation: Arc<AtomicU64>,
   eval: Arc<ShardedCache<EvalKey, TypeId>>,
   refs: Arc<ShardedCache<RefKey, TypeId>>,
+  // Expansions recorded by relation checks. They stop at the `Ref` boundary, so
+  // they must not be taken for the evaluated references in `refs`.
+  expansions: Arc<ShardedCache<RefKey, TypeId>>,
 }
 
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
@@ -256,6 +259,7 @@ impl EvaluatorCaches {
       generation: Arc::new(AtomicU64::new(0)),
       eval: Arc::new(ShardedCache::new(config)),
       refs: Arc::new(ShardedCache::new(config)),
+      expansions: Arc::new(ShardedCache::new(config)),
     }
   }
 
@@ -264,9 +268,11 @@ impl EvaluatorCaches {
   }
 
   pub fn stats(&self) -> EvaluatorCacheStats {
+    let mut references = self.refs.stats();
+    references.merge(&self.expansions.stats());
     EvaluatorCacheStats {
       eval: self.eval.stats(),
-      references: self.refs.stats(),
+      references,
     }
   }
 
@@ -276,7 +282,7 @@ impl EvaluatorCaches {
       def,
       args: SmallVec::from_slice(args),
     };
-    self.refs.get(&key)
+    self.expansions.get(&key)
   }
 
   pub fn insert_ref(&self, def: DefId, args: &[TypeId], value: TypeId) {
@@ -285,12 +291,13 @@ impl EvaluatorCaches {
       def,
       args: SmallVec::from_slice(args),
     };
-    self.refs.insert(key, value);
+    self.expansions.insert(key, value);
   }
 
   pub fn clear(&self) {
     self.eval.clear();
     self.refs.clear();
+    self.expansions.clear();
   }
 }
 
-- 
2.43.0


From 0c50fc2d78bdd2823078836c36c64fc1bc0418ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:48 +0000
Subject: [PATCH 25/26] fix: do not overflow the stack on definitions that
 expand to themselves

---
 .../src/program/types/property_lookup.rs      | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/typecheck-ts/src/program/types/property_lookup.rs b/typecheck-ts/src/program/types/property_lookup.rs
index 1e2a506..9a247d7 100644
--- a/typecheck-ts/src/program/types/property_lookup.rs
+++ b/typecheck-ts/src/program/types/property_lookup.rs
@@ -5,6 +5,16 @@ pub(in super::super) fn lookup_interned_property_type(
   expander: Option<&dyn tti::RelateTypeExpander>,
   ty: tti::TypeId,
   name: &str,
+) -> Option<tti::TypeId> {
+  lookup_property_type(store, expander, ty, name, &mut Vec::new())
+}
+
+fn lookup_property_type(
+  store: &tti::TypeStore,
+  expander: Option<&dyn tti::RelateTypeExpander>,
+  ty: tti::TypeId,
+  name: &str,
+  expanding: &mut Vec<tti::TypeId>,
 ) -> Option<tti::TypeId> {
   if !store.contains_type_id(ty) {
     return None;
@@ -14,7 +24,7 @@ pub(in super::super) fn lookup_interned_property_type(
     tti::TypeKind::Union(members) | tti::TypeKind::Intersection(members) => {
       let mut collected = Vec::new();
       for member in members.iter().copied() {
-        if let Some(prop) = lookup_interned_property_type(store, expander, member, name) {
+        if let Some(prop) = lookup_property_type(store, expander, member, name, expanding) {
           collected.push(prop);
         }
       }
@@ -24,9 +34,18 @@ pub(in super::super) fn lookup_interned_property_type(
         Some(store.union(collected))
       }
     }
-    tti::TypeKind::Ref { def, args } => expander
-      .and_then(|exp| exp.expand_ref(store, def, &args))
-      .and_then(|expanded| lookup_interned_property_type(store, expander, expanded, name)),
+    tti::TypeKind::Ref { def, args } => {
+      // Definitions that are still being inferred may expand to themselves.
+      if expanding.contains(&ty) {
+        return None;
+      }
+      expanding.push(ty);
+      let found = expander
+        .and_then(|exp| exp.expand_ref(store, def, &args))
+        .and_then(|expanded| lookup_property_type(store, expander, expanded, name, expanding));
+      expanding.pop();
+      found
+    }
     tti::TypeKind::Object(obj_id) => {
       let shape = store.shape(store.object(obj_id).shape);
       for prop in shape.properties.iter() {
-- 
2.43.0


From a1e585f462ec874dd54209b7f7b827f89ef64401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:11 +0000
Subject: [PATCH 26/26] fix: report a failing snapshot instead of starting the
 server

---
 optimize-js-debugger/src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/optimize-js-debugger/src/main.rs b/optimize-js-debugger/src/main.rs
index 0473da9..83e0e17 100644
--- a/optimize-js-debugger/src/main.rs
+++ b/optimize-js-debugger/src/main.rs
@@ -546,8 +546,13 @@ async fn main() {
   tracing_subscriber::fmt::init();
 
   let args: Vec<String> = env::args().skip(1).collect();
-  if let Ok(true) = run_snapshot_mode(&args) {
-    return;
+  match run_snapshot_mode(&args) {
+    Ok(true) => return,
+    Ok(false) => {}
+    Err(err) => {
+      eprintln!("error: {err}");
+      std::process::exit(1);
+    }
   }
 
   let app = build_app();
-- 
2.43.0

