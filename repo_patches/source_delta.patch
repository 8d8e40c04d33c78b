From 744f0d148a90415d334193de14059de3916823c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 01/11] fix: keep unpacked tar entries and git sub-folders
 inside the temporary directory

---
 crates/weaver_common/src/vdir.rs | 36 +++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/crates/weaver_common/src/vdir.rs b/crates/weaver_common/src/vdir.rs
index 3f1961d..d958187 100644
--- a/crates/weaver_common/src/vdir.rs
+++ b/crates/weaver_common/src/vdir.rs
@@ -80,7 +80,7 @@ use std::fmt::Display;
 use std::fs::{create_dir_all, File};
 use std::io;
 use std::num::NonZeroU32;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::str::FromStr;
 use std::sync::atomic::AtomicBool;
 use std::sync::{Arc, Mutex};
@@ -752,8 +752,12 @@ impl VirtualDirectory {
             let path_to_repo = tmp_path.join(sub_folder);
 
             // Checks the existence of the path in the repo.
-            // If the path doesn't exist, returns an error.
-            if !path_to_repo.exists() {
+            // If the path doesn't exist or is outside of the repo, returns an error.
+            let is_in_repo = match (path_to_repo.canonicalize(), tmp_path.canonicalize()) {
+                (Ok(path), Ok(root)) => path.starts_with(root),
+                _ => false,
+            };
+            if !is_in_repo {
                 return Err(GitError {
                     repo_url: url.to_owned(),
                     message: format!("Path `{sub_folder}` not found in repo"),
@@ -884,6 +888,7 @@ impl VirtualDirectory {
             })?;
 
             if let Some(valid_entry_path) = Self::path_to_unpack(&path, sub_folder, target_path) {
+                Self::ensure_contained(&valid_entry_path, target_path, archive_filename)?;
                 Self::create_parent_dirs(&valid_entry_path, archive_filename)?;
                 // Unpack returns an Unpacked type containing the file descriptor to the
                 // unpacked file. The file descriptor is ignored as we don't have any use for it.
@@ -1000,6 +1005,31 @@ impl VirtualDirectory {
         Some(target_path.join(components.collect::<PathBuf>()))
     }
 
+    /// Fails if unpacking to `entry_path` would write outside of `target_path`, either through a
+    /// `..` component or through a symbolic link unpacked earlier.
+    fn ensure_contained(
+        entry_path: &Path,
+        target_path: &Path,
+        archive_filename: &str,
+    ) -> Result<(), Error> {
+        let relative_path = entry_path.strip_prefix(target_path).unwrap_or(entry_path);
+        let escapes = relative_path
+            .components()
+            .any(|c| !matches!(c, Component::Normal(_) | Component::CurDir))
+            || entry_path
+                .ancestors()
+                .skip(1)
+                .take_while(|p| *p != target_path)
+                .any(Path::is_symlink);
+        if escapes {
+            return Err(InvalidRegistryArchive {
+                archive: archive_filename.to_owned(),
+                error: format!("Entry `{}` leaves the archive", entry_path.display()),
+            });
+        }
+        Ok(())
+    }
+
     /// Creates parent directories for the given path.
     fn create_parent_dirs(new_path: &Path, archive_filename: &str) -> Result<(), Error> {
         if let Some(parent) = new_path.parent() {
-- 
2.43.0


From 76bfcc7e489956465eaad2db8cbb2394b29a1d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 02/11] fix: report a markdown snippet that is never closed
 instead of dropping the rest of the file

---
 crates/weaver_semconv_gen/src/lib.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/weaver_semconv_gen/src/lib.rs b/crates/weaver_semconv_gen/src/lib.rs
index a7cd1d1..e47c6a2 100644
--- a/crates/weaver_semconv_gen/src/lib.rs
+++ b/crates/weaver_semconv_gen/src/lib.rs
@@ -66,6 +66,13 @@ pub enum Error {
         header: String,
     },
 
+    /// Thrown when a snippet is opened but never closed.
+    #[error("Snippet is never closed: [{header}]")]
+    UnterminatedSnippet {
+        /// The line that opens the snippet.
+        header: String,
+    },
+
     /// Thrown when a snippet lookup id is not valid.
     #[error("Could not parse snippet id: [{id}]")]
     InvalidSnippetId {
@@ -149,6 +156,7 @@ pub trait MarkdownSnippetGenerator {
     ) -> Result<String, Error> {
         let mut result = String::new();
         let mut snippet_context: Option<SnippetType> = None;
+        let mut snippet_header = "";
         for line in contents.lines() {
             match snippet_context {
                 Some(SnippetType::Semconv) => {
@@ -172,6 +180,7 @@ pub trait MarkdownSnippetGenerator {
                     result.push('\n');
                     // Check to see if line matches snippet request.
                     // If so, generate the snippet and continue.
+                    snippet_header = line;
                     if parser::is_markdown_snippet_directive(line) {
                         snippet_context = Some(SnippetType::Semconv);
                         let arg = parser::parse_markdown_snippet_directive(line)?;
@@ -187,6 +196,12 @@ pub trait MarkdownSnippetGenerator {
                 }
             }
         }
+        // Everything after a snippet that is never closed would be lost.
+        if snippet_context.is_some() {
+            return Err(Error::UnterminatedSnippet {
+                header: snippet_header.to_owned(),
+            });
+        }
         Ok(result)
     }
 
-- 
2.43.0


From 8472905d96e53b5804dbc081cfcbf1db63a771a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 03/11] fix: report the non-fatal errors of resolved and
 overridden dependencies

---
 crates/weaver_resolver/src/lib.rs | 50 ++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/crates/weaver_resolver/src/lib.rs b/crates/weaver_resolver/src/lib.rs
index 8b4451b..52b3d53 100644
--- a/crates/weaver_resolver/src/lib.rs
+++ b/crates/weaver_resolver/src/lib.rs
@@ -211,6 +211,7 @@ impl WeaverResolver {
             }
         }
 
+        let mut non_fatal_errors = vec![];
         let loaded = if let Some(override_path) = self.config.schema_url_overrides.get(&schema_url)
         {
             let mut nfes = vec![];
@@ -220,28 +221,36 @@ impl WeaverResolver {
                 &mut nfes,
                 &self.config.auth,
             ) {
-                Ok(repo) => match self.load_repository(repo) {
-                    WResult::Ok(l) => l,
-                    WResult::OkWithNFEs(l, _) => l,
-                    WResult::FatalErr(e) => return WResult::FatalErr(e),
-                },
+                Ok(repo) => {
+                    non_fatal_errors.extend(nfes.into_iter().map(Error::from));
+                    match self.load_repository(repo) {
+                        WResult::Ok(l) => l,
+                        WResult::OkWithNFEs(l, load_nfes) => {
+                            non_fatal_errors.extend(load_nfes);
+                            l
+                        }
+                        WResult::FatalErr(e) => return WResult::FatalErr(e),
+                    }
+                }
                 Err(e) => return WResult::FatalErr(Error::FailToResolveDefinition(e)),
             }
         } else {
             loaded
         };
 
-        match self.resolve_loaded(loaded) {
-            WResult::Ok(arc) => match &*arc {
-                WeaverResolvedSchema::V1(s) => WResult::Ok(s.clone().into()),
-                WeaverResolvedSchema::V2(s) => WResult::Ok(s.clone().into()),
-            },
-            WResult::OkWithNFEs(arc, nfes) => match &*arc {
-                WeaverResolvedSchema::V1(s) => WResult::OkWithNFEs(s.clone().into(), nfes),
-                WeaverResolvedSchema::V2(s) => WResult::OkWithNFEs(s.clone().into(), nfes),
-            },
-            WResult::FatalErr(e) => WResult::FatalErr(e),
-        }
+        let arc = match self.resolve_loaded(loaded) {
+            WResult::Ok(arc) => arc,
+            WResult::OkWithNFEs(arc, nfes) => {
+                non_fatal_errors.extend(nfes);
+                arc
+            }
+            WResult::FatalErr(e) => return WResult::FatalErr(e),
+        };
+        let resolved: ResolvedDependency = match &*arc {
+            WeaverResolvedSchema::V1(s) => s.clone().into(),
+            WeaverResolvedSchema::V2(s) => s.clone().into(),
+        };
+        WResult::with_non_fatal_errors(resolved, non_fatal_errors)
     }
 }
 
@@ -426,7 +435,7 @@ impl WeaverResolver {
         };
 
         let include_unreferenced = self.config.include_unreferenced;
-        resolve_registry_with_dependencies(
+        let resolved = resolve_registry_with_dependencies(
             &mut attr_catalog,
             repo,
             specs,
@@ -446,7 +455,12 @@ impl WeaverResolver {
             dependencies,
             versions: None,
             registry_manifest: manifest,
-        })
+        });
+        if non_fatal_errors.is_empty() {
+            resolved
+        } else {
+            resolved.extend_non_fatal_errors(non_fatal_errors)
+        }
     }
 
     /// Resolves an already loaded semantic convention repository, executing graph deduplication
-- 
2.43.0


From 7122ad4fcfe32b5dfe493aa80490d45321d37a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:00 +0000
Subject: [PATCH 04/11] fix: report the warnings found by registry diff, stats
 and mcp

---
 src/registry/diff.rs  | 10 ++++++----
 src/registry/mcp.rs   |  5 +++++
 src/registry/stats.rs |  2 +-
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/registry/diff.rs b/src/registry/diff.rs
index 865c2a0..0ec5709 100644
--- a/src/registry/diff.rs
+++ b/src/registry/diff.rs
@@ -9,7 +9,7 @@ use clap::Args;
 use include_dir::{include_dir, Dir};
 use log::info;
 use std::path::PathBuf;
-use weaver_common::diagnostic::DiagnosticMessages;
+use weaver_common::diagnostic::{DiagnosticMessage, DiagnosticMessages};
 use weaver_common::http_auth::HttpAuthResolver;
 use weaver_common::vdir::VirtualDirectoryPath;
 use weaver_config::{WeaverCommand, WeaverConfig};
@@ -75,10 +75,12 @@ pub(crate) fn command(
     info!("Checking registry `{}`", cmd_config.registry.registry);
 
     let registry_path = cmd_config.registry.registry.clone();
+    let mut nfes = vec![];
     let main_registry_repo =
-        RegistryRepo::try_new_with_auth(None, &registry_path, &mut vec![], auth)?;
+        RegistryRepo::try_new_with_auth(None, &registry_path, &mut nfes, auth)?;
     let baseline_registry_repo =
-        RegistryRepo::try_new_with_auth(None, &args.baseline_registry, &mut vec![], auth)?;
+        RegistryRepo::try_new_with_auth(None, &args.baseline_registry, &mut nfes, auth)?;
+    diag_msgs.extend_from_vec(nfes.into_iter().map(DiagnosticMessage::new).collect());
 
     let main_resolved = weaver.load_and_resolve_repo(main_registry_repo, &mut diag_msgs)?;
     let baseline_resolved = weaver.load_and_resolve_repo(baseline_registry_repo, &mut diag_msgs)?;
@@ -109,7 +111,7 @@ pub(crate) fn command(
 
     Ok(ExitDirectives {
         exit_code: 0,
-        warnings: None,
+        warnings: Some(diag_msgs),
     })
 }
 
diff --git a/src/registry/mcp.rs b/src/registry/mcp.rs
index 0d5c6f2..984f386 100644
--- a/src/registry/mcp.rs
+++ b/src/registry/mcp.rs
@@ -83,6 +83,11 @@ pub(crate) fn command(
     };
     let forge_registry = resolved_v2.into_template_schema();
 
+    if !diag_msgs.is_empty() {
+        // Log warnings but continue
+        diag_msgs.log();
+    }
+
     info!("Starting MCP server (communicating over stdio)");
     info!("The server will run until stdin is closed.");
 
diff --git a/src/registry/stats.rs b/src/registry/stats.rs
index ae815b2..32a2692 100644
--- a/src/registry/stats.rs
+++ b/src/registry/stats.rs
@@ -120,7 +120,7 @@ pub(crate) fn command(
 
     Ok(ExitDirectives {
         exit_code: 0,
-        warnings: None,
+        warnings: Some(diag_msgs),
     })
 }
 
-- 
2.43.0


From c186d90b7e4627cb4ec611e942e42f2dfbbbb2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:34 +0000
Subject: [PATCH 05/11] fix: report a dangling reference in the attribute list
 of a registry

---
 crates/weaver_forge/src/v2/registry.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_forge/src/v2/registry.rs b/crates/weaver_forge/src/v2/registry.rs
index 38d96a4..6fc8253 100644
--- a/crates/weaver_forge/src/v2/registry.rs
+++ b/crates/weaver_forge/src/v2/registry.rs
@@ -155,7 +155,16 @@ impl ForgeResolvedRegistry {
             .registry
             .attributes
             .iter()
-            .filter_map(&attribute_lookup)
+            .filter_map(|r| {
+                let attr = attribute_lookup(r);
+                if attr.is_none() {
+                    errors.push(Error::AttributeNotFound {
+                        group_id: "registry.attributes".to_owned(),
+                        attr_ref: AttributeRef(r.0),
+                    });
+                }
+                attr
+            })
             .map(|a| Attribute {
                 key: a.key.clone(),
                 r#type: a.r#type.clone(),
-- 
2.43.0


From 2313f354e4fb91755d010a35a68494548d0dc536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:34 +0000
Subject: [PATCH 06/11] fix: check the attributes of exponential histogram data
 points

---
 .../src/advice/type_advisor.rs                | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/crates/weaver_live_check/src/advice/type_advisor.rs b/crates/weaver_live_check/src/advice/type_advisor.rs
index f1836e3..a833deb 100644
--- a/crates/weaver_live_check/src/advice/type_advisor.rs
+++ b/crates/weaver_live_check/src/advice/type_advisor.rs
@@ -699,6 +699,36 @@ impl Advisor for TypeAdvisor {
                     Ok(Vec::new())
                 }
             }
+            SampleRef::ExponentialHistogramDataPoint(sample_histogram_data_point) => {
+                if let Some(semconv_metric) = registry_group {
+                    let advice_list = match &*semconv_metric {
+                        VersionedSignal::Group(group) => check_attributes(
+                            &group.attributes,
+                            &sample_histogram_data_point.attributes,
+                            parent_signal,
+                        ),
+                        VersionedSignal::Metric(metric) => check_attributes(
+                            &metric.attributes,
+                            &sample_histogram_data_point.attributes,
+                            parent_signal,
+                        ),
+                        VersionedSignal::Span(_span) => vec![],
+                        VersionedSignal::Event(_event) => vec![],
+                    };
+
+                    // Emit each finding if emitter available
+                    emit_findings(
+                        &advice_list,
+                        &sample,
+                        otlp_emitter.as_deref(),
+                        parent_signal,
+                    );
+
+                    Ok(advice_list)
+                } else {
+                    Ok(Vec::new())
+                }
+            }
             SampleRef::Log(sample_log) => {
                 if let Some(semconv_event) = registry_group {
                     let advice_list = match &*semconv_event {
-- 
2.43.0


From f45d5ffdd57854cd7e4c20cb7830558a3c05c504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:34 +0000
Subject: [PATCH 07/11] fix: attach the current resource to profiles read by
 live-check

---
 src/registry/live_check.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/registry/live_check.rs b/src/registry/live_check.rs
index 844a25d..364e5d8 100644
--- a/src/registry/live_check.rs
+++ b/src/registry/live_check.rs
@@ -398,6 +398,7 @@ pub(crate) fn command(
             Sample::Metric(m) => m.resource = current_resource.clone(),
             Sample::Log(l) => l.resource = current_resource.clone(),
             Sample::Span(s) => s.resource = current_resource.clone(),
+            Sample::Profile(p) => p.resource = current_resource.clone(),
             _ => {}
         }
         sample.run_live_check(&mut live_checker, &mut stats, None, &sample.clone())?;
-- 
2.43.0


From 07d4c962310f49574150c24c893edd0f594f7f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:00 +0000
Subject: [PATCH 08/11] fix: keep the requirement level of signals imported
 from a version 2 dependency

---
 crates/weaver_resolver/src/imports.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/weaver_resolver/src/imports.rs b/crates/weaver_resolver/src/imports.rs
index 5df18a8..88e914c 100644
--- a/crates/weaver_resolver/src/imports.rs
+++ b/crates/weaver_resolver/src/imports.rs
@@ -786,6 +786,7 @@ impl ImportableDependency for V2Schema {
                 Some(GroupLineage::new(v2_provenance(self, &deps, &m.provenance))),
             );
             group.metric_name = Some(m.name.to_string());
+            group.requirement_level = m.requirement_level.clone();
             group.instrument = Some(m.instrument.clone());
             group.unit = Some(m.unit.clone());
             group.entity_associations = to_named_associations(&m.entity_associations);
@@ -818,6 +819,7 @@ impl ImportableDependency for V2Schema {
                 Some(GroupLineage::new(v2_provenance(self, &deps, &e.provenance))),
             );
             group.name = Some(e.name.to_string());
+            group.requirement_level = e.requirement_level.clone();
             group.entity_associations = to_named_associations(&e.entity_associations);
             _ = origins.insert(
                 group.id.clone(),
@@ -856,6 +858,7 @@ impl ImportableDependency for V2Schema {
                 Some(GroupLineage::new(v2_provenance(self, &deps, &e.provenance))),
             );
             group.name = Some(e.r#type.to_string());
+            group.requirement_level = e.requirement_level.clone();
             result.push(group);
         }
 
@@ -882,6 +885,7 @@ impl ImportableDependency for V2Schema {
                 Some(GroupLineage::new(v2_provenance(self, &deps, &s.provenance))),
             );
             group.span_kind = Some(s.kind.clone());
+            group.requirement_level = s.requirement_level.clone();
             group.span_name = Some(s.name.clone());
             group.name = Some(s.r#type.to_string());
             group.entity_associations = to_named_associations(&s.entity_associations);
-- 
2.43.0


From 9df3b6420a515121701ada2e1609c0c63df352eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:36 +0000
Subject: [PATCH 09/11] fix: report the entries of a policy directory that
 cannot be read

---
 crates/weaver_checker/src/lib.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/weaver_checker/src/lib.rs b/crates/weaver_checker/src/lib.rs
index bc20011..b07f54d 100644
--- a/crates/weaver_checker/src/lib.rs
+++ b/crates/weaver_checker/src/lib.rs
@@ -464,11 +464,24 @@ impl Engine {
         };
 
         // Visit recursively all the files in the policy directory
-        for entry in walkdir::WalkDir::new(policy_dir)
+        for entry in walkdir::WalkDir::new(policy_dir.as_ref())
             .into_iter()
             .filter_entry(|e| !is_hidden(e))
-            .flatten()
         {
+            let entry = match entry {
+                Ok(entry) => entry,
+                Err(err) => {
+                    errors.push(Error::AccessDenied {
+                        path: err
+                            .path()
+                            .unwrap_or(policy_dir.as_ref())
+                            .display()
+                            .to_string(),
+                        error: err.to_string(),
+                    });
+                    continue;
+                }
+            };
             if is_policy_file(&entry) {
                 if let Err(err) = self.add_policy_from_file(entry.path()) {
                     errors.push(err);
-- 
2.43.0


From a69393df00438416404fbf08b0e47078cffa6dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:36 +0000
Subject: [PATCH 10/11] fix: report the markdown entries that cannot be read

---
 src/registry/update_markdown.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/registry/update_markdown.rs b/src/registry/update_markdown.rs
index 12c7c0e..30690b9 100644
--- a/src/registry/update_markdown.rs
+++ b/src/registry/update_markdown.rs
@@ -180,11 +180,16 @@ pub(crate) fn command(
     let mut has_error = false;
     for entry in walkdir::WalkDir::new(&markdown_dir)
         .into_iter()
-        .filter_map(|e| match e {
-            Ok(v) if is_markdown(&v) => Some(v),
-            _ => None,
-        })
+        .filter(|e| e.as_ref().map_or(true, is_markdown))
     {
+        let entry = match entry {
+            Ok(entry) => entry,
+            Err(error) => {
+                has_error = true;
+                log_error(error);
+                continue;
+            }
+        };
         log_info(format!("{}: ${}", operation, entry.path().display()));
         if let Err(error) = generator.update_markdown(
             &entry.path().display().to_string(),
-- 
2.43.0


From b08cdba1ad4bb1ae5593006138d1b6d0c5e0bbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:03 +0000
Subject: [PATCH 11/11] fix: report every finding in the MCP live_check
 findings_only output

The compact output dropped the findings of logs, resources, profiles, span
events and links themselves, and everything below metrics and span links, so
samples with violations were presented as clean. It also counted entries
instead of samples.
---
 crates/weaver_mcp/src/service.rs | 228 ++++++++++++++++++++++---------
 1 file changed, 165 insertions(+), 63 deletions(-)

diff --git a/crates/weaver_mcp/src/service.rs b/crates/weaver_mcp/src/service.rs
index 90ee3fc..814f352 100644
--- a/crates/weaver_mcp/src/service.rs
+++ b/crates/weaver_mcp/src/service.rs
@@ -19,6 +19,8 @@ use weaver_live_check::advice::{
     Advisor, DeprecatedAdvisor, EnumAdvisor, RegoAdvisor, StabilityAdvisor, TypeAdvisor,
 };
 use weaver_live_check::live_checker::LiveChecker;
+use weaver_live_check::sample_attribute::SampleAttribute;
+use weaver_live_check::sample_metric::{DataPoints, SampleExemplar};
 use weaver_live_check::{
     DisabledStatistics, LiveCheckResult, LiveCheckRunner, LiveCheckStatistics, Sample,
     VersionedRegistry,
@@ -122,9 +124,7 @@ fn extract_findings(result: &Option<LiveCheckResult>) -> Vec<serde_json::Value>
 }
 
 /// Extract actionable findings from all attributes in a slice.
-fn extract_attr_findings(
-    attrs: &[weaver_live_check::sample_attribute::SampleAttribute],
-) -> Vec<serde_json::Value> {
+fn extract_attr_findings(attrs: &[SampleAttribute]) -> Vec<serde_json::Value> {
     let mut out = Vec::new();
     for a in attrs {
         let findings = extract_findings(&a.live_check_result);
@@ -138,7 +138,56 @@ fn extract_attr_findings(
     out
 }
 
-/// Collect compact findings from all samples. Returns one entry per sample that has findings.
+/// Append the compact entry of a sample (or nested element) when it has findings.
+fn push_compact_entry(
+    out: &mut Vec<serde_json::Value>,
+    kind: &str,
+    name: Option<&str>,
+    findings: Vec<serde_json::Value>,
+    attr_findings: Vec<serde_json::Value>,
+) {
+    if findings.is_empty() && attr_findings.is_empty() {
+        return;
+    }
+    let mut entry = json!({
+        "type": kind,
+        "findings": findings,
+        "attribute_findings": attr_findings,
+    });
+    if let Some(name) = name {
+        entry["name"] = json!(name);
+    }
+    out.push(entry);
+}
+
+/// Append the compact entries of the data points of a metric and of their exemplars.
+fn push_data_point_entries(
+    out: &mut Vec<serde_json::Value>,
+    metric: &str,
+    attributes: &[SampleAttribute],
+    result: &Option<LiveCheckResult>,
+    exemplars: &[SampleExemplar],
+) {
+    push_compact_entry(
+        out,
+        "data_point",
+        Some(metric),
+        extract_findings(result),
+        extract_attr_findings(attributes),
+    );
+    for exemplar in exemplars {
+        push_compact_entry(
+            out,
+            "exemplar",
+            Some(metric),
+            extract_findings(&exemplar.live_check_result),
+            extract_attr_findings(&exemplar.filtered_attributes),
+        );
+    }
+}
+
+/// Collect compact findings from all samples. Returns one entry per sample, or element nested
+/// in a sample, that has findings.
 fn collect_compact_findings(samples: &[Sample]) -> Vec<serde_json::Value> {
     let mut out = Vec::new();
     for sample in samples {
@@ -150,71 +199,119 @@ fn collect_compact_findings(samples: &[Sample]) -> Vec<serde_json::Value> {
                 }
             }
             Sample::Span(s) => {
-                let mut parts = extract_findings(&s.live_check_result);
-                let attr_findings = extract_attr_findings(&s.attributes);
-                if !parts.is_empty() || !attr_findings.is_empty() {
-                    out.push(json!({
-                        "type": "span",
-                        "findings": parts,
-                        "attribute_findings": attr_findings,
-                    }));
-                }
-                // Check nested span events/links attributes
+                push_compact_entry(
+                    &mut out,
+                    "span",
+                    None,
+                    extract_findings(&s.live_check_result),
+                    extract_attr_findings(&s.attributes),
+                );
                 for evt in &s.span_events {
-                    parts = extract_attr_findings(&evt.attributes);
-                    if !parts.is_empty() {
-                        out.push(json!({"type": "span_event", "attribute_findings": parts}));
-                    }
+                    push_compact_entry(
+                        &mut out,
+                        "span_event",
+                        None,
+                        extract_findings(&evt.live_check_result),
+                        extract_attr_findings(&evt.attributes),
+                    );
                 }
-            }
-            Sample::SpanEvent(e) => {
-                let parts = extract_attr_findings(&e.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "span_event", "attribute_findings": parts}));
-                }
-            }
-            Sample::SpanLink(l) => {
-                let parts = extract_attr_findings(&l.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "span_link", "attribute_findings": parts}));
-                }
-            }
-            Sample::Resource(r) => {
-                let parts = extract_attr_findings(&r.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "resource", "attribute_findings": parts}));
-                }
-            }
-            Sample::InstrumentationScope(scope) => {
-                let findings = extract_findings(&scope.live_check_result);
-                let attr_findings = extract_attr_findings(&scope.attributes);
-                if !findings.is_empty() || !attr_findings.is_empty() {
-                    out.push(json!({
-                        "name": scope.name,
-                        "type": "instrumentation_scope",
-                        "findings": findings,
-                        "attribute_findings": attr_findings,
-                    }));
+                for link in &s.span_links {
+                    push_compact_entry(
+                        &mut out,
+                        "span_link",
+                        None,
+                        extract_findings(&link.live_check_result),
+                        extract_attr_findings(&link.attributes),
+                    );
                 }
             }
+            Sample::SpanEvent(e) => push_compact_entry(
+                &mut out,
+                "span_event",
+                None,
+                extract_findings(&e.live_check_result),
+                extract_attr_findings(&e.attributes),
+            ),
+            Sample::SpanLink(l) => push_compact_entry(
+                &mut out,
+                "span_link",
+                None,
+                extract_findings(&l.live_check_result),
+                extract_attr_findings(&l.attributes),
+            ),
+            Sample::Resource(r) => push_compact_entry(
+                &mut out,
+                "resource",
+                None,
+                extract_findings(&r.live_check_result),
+                extract_attr_findings(&r.attributes),
+            ),
+            Sample::InstrumentationScope(scope) => push_compact_entry(
+                &mut out,
+                "instrumentation_scope",
+                Some(&scope.name),
+                extract_findings(&scope.live_check_result),
+                extract_attr_findings(&scope.attributes),
+            ),
             Sample::Metric(m) => {
-                let findings = extract_findings(&m.live_check_result);
-                if !findings.is_empty() {
-                    out.push(json!({"name": m.name, "type": "metric", "findings": findings}));
-                }
-            }
-            Sample::Log(l) => {
-                let parts = extract_attr_findings(&l.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "log", "attribute_findings": parts}));
-                }
-            }
-            Sample::Profile(p) => {
-                let parts = extract_attr_findings(&p.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "profile", "attribute_findings": parts}));
+                push_compact_entry(
+                    &mut out,
+                    "metric",
+                    Some(&m.name),
+                    extract_findings(&m.live_check_result),
+                    vec![],
+                );
+                match &m.data_points {
+                    Some(DataPoints::Number(points)) => {
+                        for p in points {
+                            push_data_point_entries(
+                                &mut out,
+                                &m.name,
+                                &p.attributes,
+                                &p.live_check_result,
+                                &p.exemplars,
+                            );
+                        }
+                    }
+                    Some(DataPoints::Histogram(points)) => {
+                        for p in points {
+                            push_data_point_entries(
+                                &mut out,
+                                &m.name,
+                                &p.attributes,
+                                &p.live_check_result,
+                                &p.exemplars,
+                            );
+                        }
+                    }
+                    Some(DataPoints::ExponentialHistogram(points)) => {
+                        for p in points {
+                            push_data_point_entries(
+                                &mut out,
+                                &m.name,
+                                &p.attributes,
+                                &p.live_check_result,
+                                &p.exemplars,
+                            );
+                        }
+                    }
+                    None => {}
                 }
             }
+            Sample::Log(l) => push_compact_entry(
+                &mut out,
+                "log",
+                None,
+                extract_findings(&l.live_check_result),
+                extract_attr_findings(&l.attributes),
+            ),
+            Sample::Profile(p) => push_compact_entry(
+                &mut out,
+                "profile",
+                None,
+                extract_findings(&p.live_check_result),
+                extract_attr_findings(&p.attributes),
+            ),
         }
     }
     out
@@ -523,10 +620,15 @@ impl WeaverMcpService {
             LiveCheckOutput::FindingsOnly => {
                 let findings = collect_compact_findings(&samples);
                 let total = samples.len();
+                // One sample can have several entries (e.g. a span and its events).
+                let with_findings = samples
+                    .iter()
+                    .filter(|s| !collect_compact_findings(std::slice::from_ref(s)).is_empty())
+                    .count();
                 let result_json = json!({
                     "findings": findings,
                     "total_samples_checked": total,
-                    "samples_with_findings": findings.len(),
+                    "samples_with_findings": with_findings,
                 });
                 serde_json::to_string_pretty(&result_json).unwrap_or_else(|e| format!("Error: {e}"))
             }
-- 
2.43.0

