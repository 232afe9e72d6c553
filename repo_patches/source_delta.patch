From 5beda8eaae3acd97e3d5d6fbb283c433535c4fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:11 +0000
Subject: [PATCH 01/20] fix: never remove RRDP files that a published
 notification file refers to

Deprecated files which became current again (source returning to an earlier
session, deltas reappearing) stayed on the clean-up list and were removed while
published, and files were removed before the notification file that listed them
was replaced.
---
 src/process.rs | 11 +++++++++--
 src/rrdp.rs    | 44 ++++++++++++++++++++++++++++++--------------
 2 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 2790ad8..7920c3a 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -105,8 +105,7 @@ pub fn process(config: &Config) -> Result<()> {
     // - updates the RrdpState with new content,
     // - deprecate old files
     // - move new snapshot and deltas to the target RRDP dir
-    // - clean up old files, deprecated for the configured time
-    // - move new notification file to the target RRDP dir
+    let expired = rrdp_state.take_expired(config);
     rrdp_state.apply_staged_changed(staged, config)?;
 
     // ===================================================================
@@ -141,6 +140,14 @@ pub fn process(config: &Config) -> Result<()> {
     // ===================================================================
     rrdp_state.write_notification(config.rrdp_notify_delay)?;
 
+    // ===================================================================
+    // Clean up RRDP files and empty parent directories if they had been
+    // deprecated by an earlier update for more than the configured
+    // 'cleanup_after' time. Only now is it certain that the published
+    // notification file no longer refers to them.
+    // ===================================================================
+    rrdp_state.clean(expired)?;
+
     // ===================================================================
     // Persist state
     // ===================================================================
diff --git a/src/rrdp.rs b/src/rrdp.rs
index c57166e..52e75c2 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -328,8 +328,6 @@ impl RrdpState {
     /// - updates the RrdpState with new content
     /// - deprecate old files
     /// - move new snapshot and deltas to the target RRDP dir
-    /// - clean up old files, deprecated for the configured time
-    /// - move new notification file to the target RRDP dir
     pub fn apply_staged_changed(
         &mut self,
         mut staged: StagedChanges,
@@ -369,22 +367,34 @@ impl RrdpState {
         self.deltas.sort_by_key(|d| d.serial());
         self.deltas.reverse();
 
-        // Clean up any RRDP files and empty parent directories if they had been
-        // deprecated for more than the configured 'cleanup_after' time.
-        self.clean(config)?;
+        // Files that are part of the new content may have been deprecated earlier,
+        // e.g. if the source returned to a previous session. They are in use again.
+        let current = self.current_paths();
+        self.deprecated_files.retain(|d| !current.contains(&d.path));
 
         Ok(())
     }
 
-    /// Cleans deprecated files and their parent directories if they are empty
-    pub fn clean(&mut self, config: &Config) -> Result<()> {
+    /// Takes the files out of the deprecated files which were deprecated for more
+    /// than the configured 'cleanup_after' time.
+    pub fn take_expired(&mut self, config: &Config) -> Vec<DeprecatedFile> {
         let clean_before = Time::seconds_ago(config.cleanup_after);
-
-        for deprecated in self
+        let (expired, keep) = self
             .deprecated_files
-            .iter()
-            .filter(|d| d.since <= clean_before)
-        {
+            .drain(..)
+            .partition(|d| d.since <= clean_before);
+        self.deprecated_files = keep;
+
+        expired
+    }
+
+    /// Cleans expired files and their parent directories if they are empty. This
+    /// must not be done before the notification file which may still refer to these
+    /// files was replaced.
+    pub fn clean(&self, expired: Vec<DeprecatedFile>) -> Result<()> {
+        let current = self.current_paths();
+
+        for deprecated in expired.iter().filter(|d| !current.contains(&d.path)) {
             let path = &deprecated.path;
             if path.exists() {
                 info!(
@@ -396,11 +406,17 @@ impl RrdpState {
             }
         }
 
-        self.deprecated_files.retain(|d| d.since > clean_before);
-
         Ok(())
     }
 
+    /// The paths of the current snapshot and deltas.
+    fn current_paths(&self) -> Vec<PathBuf> {
+        self.snapshot_path()
+            .into_iter()
+            .chain(self.deltas.iter().map(|d| self.mappings.path(d.rel_path())))
+            .collect()
+    }
+
     /// Persist the RRDP state to disk (as json)
     pub fn persist(&self, path: &Path) -> Result<()> {
         debug!("Saving RRDP state to disk");
-- 
2.43.0


From 35e17e38741e8176ff64803dd0fb0583b3d251b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:14 +0000
Subject: [PATCH 02/20] fix: never deprecate the rsync revision that is current

Running again for the same revision, or returning to an earlier one, left the
current revision on the list of old revisions, so that it was removed while the
current symlink still referred to it.
---
 src/rsync.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index c34748e..80af94e 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -45,6 +45,8 @@ pub fn update_from_rrdp_state(rrdp_state: &RrdpState, config: &Config) -> Result
     writer.create_out_path_if_missing()?;
     writer.for_snapshot_path(&snapshot_path)?;
 
+    rsync_state.renew_if_still_current(config);
+
     if config.rsync_dir_use_symlinks() {
         symlink_current_to_new_revision_dir(&new_revision, config)?;
     } else {
@@ -182,11 +184,26 @@ impl RsyncDirState {
         file_ops::write_buf(&state_path, json.as_bytes()).with_context(|| "Could not save state.")
     }
 
+    /// If an earlier run was interrupted, then the 'current' symlink may still
+    /// refer to a revision that is on the old list. Such a revision is only
+    /// replaced now.
+    fn renew_if_still_current(&mut self, config: &Config) {
+        if let Ok(target) = std::fs::read_link(config.rsync_dir_current()) {
+            for old in self.old.iter_mut() {
+                if Path::new(&old.revision.dir_name()) == target {
+                    old.since = Time::now();
+                }
+            }
+        }
+    }
+
     /// Updates the current revision for this state, moves a possible
-    /// existing current state to old.
+    /// existing, different, current state to old.
     fn update_current(&mut self, current: RsyncRevision) {
-        let existing = std::mem::replace(&mut self.current, Some(current));
-        if let Some(existing) = existing {
+        self.old.retain(|old| old.revision != current);
+
+        let existing = std::mem::replace(&mut self.current, Some(current.clone()));
+        if let Some(existing) = existing.filter(|existing| existing != &current) {
             self.old.push(existing.deprecate());
         }
     }
-- 
2.43.0


From 6abd6c87091f0234fa01ac319095d913d771952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:17 +0000
Subject: [PATCH 03/20] fix: do not rewrite files in an rsync revision
 directory that is in use

When a run is repeated for the revision that is already current, or the source
returns to a revision that is still kept, its files were truncated and written
again while clients could be reading them.
---
 src/rsync.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index 80af94e..79829a6 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -337,13 +337,17 @@ impl ProcessSnapshot for RsyncFromSnapshotWriter {
         let mut bytes: Vec<u8> = vec![];
         data.read_to_end(&mut bytes)?;
 
-        file_ops::write_buf(&path, &bytes).with_context(|| {
-            format!(
-                "Could not copy element for uri: {}, to path: {}",
-                uri,
-                path.to_string_lossy()
-            )
-        })?;
+        // Leave a file which is already there untouched: the revision may be
+        // current already, or still be in use by clients.
+        if !file_ops::read_file(&path).is_ok_and(|existing| existing == bytes) {
+            file_ops::write_buf(&path, &bytes).with_context(|| {
+                format!(
+                    "Could not copy element for uri: {}, to path: {}",
+                    uri,
+                    path.to_string_lossy()
+                )
+            })?;
+        }
 
         fix_since(&path, &bytes);
 
-- 
2.43.0


From de273443410fcf26f2c2143f678e92e41dda3f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:20 +0000
Subject: [PATCH 04/20] fix: save state files atomically

A run that was killed while saving its state left a truncated file behind that
made every later run fail.
---
 src/file_ops.rs | 16 ++++++++++++++++
 src/rrdp.rs     |  2 +-
 src/rsync.rs    |  3 ++-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 3ea154c..18fc278 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -8,6 +8,8 @@ use anyhow::{anyhow, Context, Result};
 use bytes::Bytes;
 use log::trace;
 
+use crate::config::TMP_FILE_EXT;
+
 pub fn write_buf(file_path: &Path, buf: &[u8]) -> Result<()> {
     create_file(file_path)?
         .write_all(buf)
@@ -16,6 +18,20 @@ pub fn write_buf(file_path: &Path, buf: &[u8]) -> Result<()> {
     Ok(())
 }
 
+/// Write to a temporary file next to the given path and then rename it, so that
+/// there is never an incomplete file at that path.
+pub fn write_buf_atomic(file_path: &Path, buf: &[u8]) -> Result<()> {
+    let tmp_path = path_with_extension(file_path, TMP_FILE_EXT);
+    write_buf(&tmp_path, buf)?;
+    std::fs::rename(&tmp_path, file_path).with_context(|| {
+        format!(
+            "Cannot rename {} to {}",
+            tmp_path.display(),
+            file_path.display()
+        )
+    })
+}
+
 /// Create an empty file for a path
 pub fn create_file(file_path: &Path) -> Result<std::fs::File> {
     create_path_for_file(file_path)?;
diff --git a/src/rrdp.rs b/src/rrdp.rs
index 52e75c2..c0ca389 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -422,7 +422,7 @@ impl RrdpState {
         debug!("Saving RRDP state to disk");
         let json = serde_json::to_string_pretty(&self)?;
 
-        file_ops::write_buf(path, json.as_bytes())
+        file_ops::write_buf_atomic(path, json.as_bytes())
             .with_context(|| format!("Could not save state to {}.", path.display()))
     }
 
diff --git a/src/rsync.rs b/src/rsync.rs
index 79829a6..7068d32 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -181,7 +181,8 @@ impl RsyncDirState {
     fn persist(&self, config: &Config) -> Result<()> {
         let state_path = config.rsync_state_path();
         let json = serde_json::to_string_pretty(&self)?;
-        file_ops::write_buf(&state_path, json.as_bytes()).with_context(|| "Could not save state.")
+        file_ops::write_buf_atomic(&state_path, json.as_bytes())
+            .with_context(|| "Could not save state.")
     }
 
     /// If an earlier run was interrupted, then the 'current' symlink may still
-- 
2.43.0


From 3dcaa8e2859e684b43185d5c729771bb4f661858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:49 +0000
Subject: [PATCH 05/20] fix: copy files between file systems atomically

When staging and target directories are on different file systems, an existing,
published file was truncated and written again if a run was repeated.
---
 src/file_ops.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 18fc278..2855df1 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -71,11 +71,21 @@ pub fn move_file(source_base_dir: &Path, target_base_dir: &Path, relative: &str)
     }
 
     if std::fs::rename(&original_file, &target_file).is_err() {
-        // Move failed. Try to copy and delete instead.
-        std::fs::copy(&original_file, &target_file).with_context(|| {
+        // Move failed. Try to copy and delete instead. Copy to a temporary file
+        // first, so that there is never an incomplete file at the target.
+        let tmp_file = target_base_dir.join(format!("{relative}.{TMP_FILE_EXT}"));
+        std::fs::copy(&original_file, &tmp_file).with_context(|| {
             format!(
                 "Cannot copy file from {} to {}",
                 original_file.to_string_lossy(),
+                tmp_file.to_string_lossy()
+            )
+        })?;
+
+        std::fs::rename(&tmp_file, &target_file).with_context(|| {
+            format!(
+                "Cannot rename {} to {}",
+                tmp_file.to_string_lossy(),
                 target_file.to_string_lossy()
             )
         })?;
-- 
2.43.0


From b82e364449ea00734d407da4b75ecd5ca2b4b67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:52 +0000
Subject: [PATCH 06/20] fix: accept 0 as the maximum number of deltas

A run with --rrdp-max-deltas 0 panicked if the source listed any delta.
---
 src/rrdp.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index c0ca389..241c8f8 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -103,7 +103,15 @@ impl RrdpState {
                 Ok(None)
             }
             Some((mut notification_file, notification_etag)) => {
-                if !notification_file.sort_and_verify_deltas(limit) {
+                if limit == Some(0) {
+                    // sort_and_verify_deltas() cannot deal with this limit
+                    notification_file = NotificationFile::new(
+                        notification_file.session_id(),
+                        notification_file.serial(),
+                        notification_file.snapshot().clone(),
+                        vec![],
+                    );
+                } else if !notification_file.sort_and_verify_deltas(limit) {
                     return Err(anyhow!("Notification file contained gaps in deltas"));
                 }
 
-- 
2.43.0


From 31501a9a62203d3fac532137a13076b6eb68ed05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:18 +0000
Subject: [PATCH 07/20] fix: start anew when notification URI or RRDP directory
 changed

---
 src/process.rs |  2 +-
 src/rrdp.rs    | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index 7920c3a..cd59c7c 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -15,7 +15,7 @@ pub fn process(config: &Config) -> Result<()> {
     //  - create a new state based on config
     // ===================================================================
     let mut rrdp_state = if config.rrdp_state_path().exists() {
-        RrdpState::recover(&config.rrdp_state_path())?
+        RrdpState::recover(&config.rrdp_state_path())?.reconfigure(config)?
     } else {
         RrdpState::create(config)?
     };
diff --git a/src/rrdp.rs b/src/rrdp.rs
index 241c8f8..66bcfa6 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -87,6 +87,20 @@ impl RrdpState {
         Ok(recovered)
     }
 
+    /// If the notification URI or the RRDP directory were changed in the
+    /// configuration, then what was published before is no starting point for
+    /// what is to be published now. Start anew, but still clean up old files.
+    pub fn reconfigure(self, config: &Config) -> Result<Self> {
+        let mappings = SourceMappings::build(config)?;
+        if self.notification_source.uri == config.notification_uri && self.mappings == mappings {
+            Ok(self)
+        } else {
+            let mut new = Self::create(config)?;
+            new.deprecated_files = self.deprecated_files;
+            Ok(new)
+        }
+    }
+
     /// Get updates and saved them into the staging directory.
     ///
     /// Returns:
-- 
2.43.0


From 2ead2656746a94e3e82137cfee3acf6ccd9f23f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:26 +0000
Subject: [PATCH 08/20] fix: refuse URIs that lead out of the RRDP or rsync
 revision directory

---
 src/rrdp.rs  | 20 +++++++++++++++-----
 src/rsync.rs |  8 +++++++-
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index 66bcfa6..7df15fc 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -1,6 +1,6 @@
 use std::{
     fs,
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
 };
 
 use anyhow::{anyhow, Context, Result};
@@ -695,12 +695,22 @@ impl SourceMappings {
     }
 
     /// Derives the relative path of the given URI versus the base URI.
-    /// Returns an error in case the URI is not relative to the base URI.
+    /// Returns an error in case the URI is not relative to the base URI, or if
+    /// it would lead out of a base directory.
     pub fn relative(&self, uri: &Https) -> Result<String> {
-        uri.as_str()
+        let relative = uri
+            .as_str()
             .strip_prefix(self.base_uri.as_str())
-            .ok_or_else(|| anyhow!("Uri {} not relative to base uri: {}", uri, self.base_uri))
-            .map(|s| s.to_string())
+            .ok_or_else(|| anyhow!("Uri {} not relative to base uri: {}", uri, self.base_uri))?;
+
+        if Path::new(relative)
+            .components()
+            .all(|c| matches!(c, Component::Normal(_)))
+        {
+            Ok(relative.to_string())
+        } else {
+            Err(anyhow!("Uri {} leads out of the base directory", uri))
+        }
     }
 
     /// Resolve the given relative path under the base URI.
diff --git a/src/rsync.rs b/src/rsync.rs
index 7068d32..938befb 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -4,7 +4,7 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use anyhow::{Context, Result};
+use anyhow::{anyhow, Context, Result};
 
 use filetime::{set_file_mtime, FileTime};
 use log::{error, info, warn};
@@ -321,6 +321,12 @@ impl ProcessSnapshot for RsyncFromSnapshotWriter {
         data: &mut rpki::rrdp::ObjectReader,
     ) -> Result<()> {
         let path = if self.include_host_and_module {
+            if [uri.authority(), uri.module_name()]
+                .iter()
+                .any(|name| matches!(*name, "." | ".."))
+            {
+                return Err(anyhow!("Uri {} leads out of the rsync directory", uri));
+            }
             self.out_path.join(format!(
                 "{}/{}/{}",
                 uri.authority(),
-- 
2.43.0


From 9862c0178f02a8d365ec819f91ff72c4d163e264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:28 +0000
Subject: [PATCH 09/20] fix: refuse snapshot and delta files that cannot be
 parsed

---
 src/rrdp.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index 7df15fc..5842f33 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -1,5 +1,6 @@
 use std::{
     fs,
+    io::BufReader,
     path::{Component, Path, PathBuf},
 };
 
@@ -9,7 +10,7 @@ use serde::{Deserialize, Serialize};
 use uuid::Uuid;
 
 use rpki::{
-    rrdp::{self, DeltaInfo, Hash, NotificationFile, SnapshotInfo},
+    rrdp::{self, Delta, DeltaInfo, Hash, NotificationFile, Snapshot, SnapshotInfo},
     uri::Https,
 };
 
@@ -531,6 +532,8 @@ impl RrdpState {
         let relative_name = self.mappings.relative(snapshot_info.uri())?;
         let target = config.staging_path(&relative_name);
         fetcher.retrieve_file(snapshot_info.uri(), snapshot_info.hash(), &target)?;
+        Snapshot::parse(BufReader::new(fs::File::open(&target)?))
+            .with_context(|| format!("Cannot parse snapshot {}", snapshot_info.uri()))?;
 
         let rel_path = self.mappings.relative(snapshot_info.uri())?;
 
@@ -586,6 +589,8 @@ impl RrdpState {
                 let target = config.staging_path(&relative_path);
 
                 fetcher.retrieve_file(uri, hash, &target)?;
+                Delta::parse(BufReader::new(fs::File::open(&target)?))
+                    .with_context(|| format!("Cannot parse delta {uri}"))?;
 
                 let rel_path = self.mappings.relative(uri)?;
 
-- 
2.43.0


From 6e45d35bb8197d9798077810c5fb40673c3f519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:30 +0000
Subject: [PATCH 10/20] fix: do not accept 'not modified' for snapshot and
 delta files

---
 src/fetch.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/fetch.rs b/src/fetch.rs
index 70e35c4..c689e41 100644
--- a/src/fetch.rs
+++ b/src/fetch.rs
@@ -318,11 +318,16 @@ impl Fetcher {
             }
         }
         let source = self.resolve_source(uri)?;
-        source
+        match source
             .fetch(Some(hash), None, Some(target))
-            .map_err(|e| anyhow!("Could not read snapshot: {}", e))?;
-
-        Ok(())
+            .map_err(|e| anyhow!("Could not read snapshot: {}", e))?
+        {
+            FetchResponse::UnModified => Err(anyhow!(
+                "Got unexpected 'not modified' HTTP response to GET for {}",
+                uri
+            )),
+            _ => Ok(()),
+        }
     }
 
     pub fn resolve_source(&self, uri: &uri::Https) -> Result<FetchSource> {
-- 
2.43.0


From 8d25e343d6d221d350ceb26a587acb48114c99c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:31 +0000
Subject: [PATCH 11/20] fix: always validate the staged content, never data of
 an earlier run

---
 src/validation/validator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 27ceafe..23bde45 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -66,8 +66,10 @@ impl Validator {
     }
 
     /// Ensure that the staged data is updated even if we are
-    /// running in offline mode.
+    /// running in offline mode, or if we already have data from
+    /// an earlier run.
     pub fn initialise_staging_data(&mut self, notify_uri: &uri::Https) -> Result<()> {
+        self.repositories.data.remove(&notify_uri.into());
         self.repositories
             .get_latest(notify_uri, false, Time::now())?;
         Ok(())
-- 
2.43.0


From bba787c011f2d1cd830b6a4a3a89f6ff5c896fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:33 +0000
Subject: [PATCH 12/20] fix: do not follow certificate loops in validation

---
 src/validation/validator.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 23bde45..f2ae0c2 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -6,6 +6,7 @@ use bytes::Bytes;
 use chrono::Duration;
 use log::{debug, info, trace, warn};
 use rpki::{
+    crypto::KeyIdentifier,
     repository::{
         aspa::Aspa, error::VerificationError, x509::Time, Cert, Crl, Manifest, ResourceCert, Roa,
     },
@@ -101,13 +102,14 @@ impl Validator {
         let info = ValidatedCaCertInfo::try_from(&ta_cert)
             .map_err(|e| anyhow!(format!("Invalid TA certificate: {e}")))?;
 
-        Ok(self.validate_tree_at(&ta_cert, &info, offline, when))
+        Ok(self.validate_tree_at(&ta_cert, &info, &[], offline, when))
     }
 
     fn validate_tree_at(
         &mut self,
         resource_cert: &ResourceCert,
         ca_cert_info: &ValidatedCaCertInfo,
+        ancestors: &[KeyIdentifier],
         offline: bool,
         when: Time,
     ) -> ValidationReport {
@@ -128,6 +130,11 @@ impl Validator {
 
         let mut child_certificates = vec![];
 
+        // The keys of this CA and all CAs above it. A certificate for one of
+        // these keys is part of a loop that would never end.
+        let mut chain = ancestors.to_vec();
+        chain.push(resource_cert.subject_key_identifier());
+
         {
             let mft_uri = &ca_cert_info.sia_mft;
             let sia_ca = &ca_cert_info.sia_ca;
@@ -349,6 +356,11 @@ impl Validator {
                                             uri,
                                             "certificate was revoked",
                                         ));
+                                    } else if chain.contains(&child_cert.subject_key_identifier()) {
+                                        ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                                            uri,
+                                            "certificate is part of a loop",
+                                        ));
                                     } else {
                                         match child_cert.validate_ca_at(resource_cert, strict, when)
                                         {
@@ -457,7 +469,7 @@ impl Validator {
 
         // recurse child certificates
         for (cert, info) in child_certificates {
-            report.add_other(self.validate_tree_at(&cert, &info, offline, when));
+            report.add_other(self.validate_tree_at(&cert, &info, &chain, offline, when));
         }
 
         report
-- 
2.43.0


From 886891880ae0a2af5ac210db3676f19379f70071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:05 +0000
Subject: [PATCH 13/20] fix: publish again when an interrupted run left another
 revision published

---
 src/rrdp.rs  | 43 ++++++++++++++++++++++++++++++++++++++++++-
 src/rsync.rs | 16 +++++++++++++++-
 2 files changed, 57 insertions(+), 2 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index 5842f33..b8fc892 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -17,7 +17,7 @@ use rpki::{
 use crate::{
     config::Config,
     fetch::{FetchMap, FetchMode, FetchSource, Fetcher, NotificationFileResponse},
-    file_ops,
+    file_ops, rsync,
     util::{self, Time},
     validation::{Tal, UriString, Validator},
 };
@@ -130,6 +130,20 @@ impl RrdpState {
                     return Err(anyhow!("Notification file contained gaps in deltas"));
                 }
 
+                // A run that was interrupted may have published a later serial than
+                // the one we have in our state.
+                if let Some((session_id, serial)) = self.published_revision() {
+                    if session_id == notification_file.session_id()
+                        && serial > notification_file.serial()
+                    {
+                        return Err(anyhow!(format!(
+                            "The notification file serial '{}' is *before* the published serial '{}'. Server session reset recommended.",
+                            notification_file.serial(),
+                            serial
+                        )));
+                    }
+                }
+
                 let mut session_reset = false;
 
                 if let Some(snapshot) = &self.snapshot {
@@ -146,6 +160,11 @@ impl RrdpState {
                                     notification_file.serial()
                                 )
                             }
+                            std::cmp::Ordering::Equal if !self.is_published(config) => {
+                                debug!("An interrupted run left another revision published, will publish again.");
+                                // publish all files as in the source's notification file
+                                session_reset = true;
+                            }
                             std::cmp::Ordering::Equal => {
                                 // no change, session and serial unchanged
                                 debug!("Notification file unchanged (etag not supported?), no update needed.");
@@ -205,6 +224,28 @@ impl RrdpState {
         }
     }
 
+    /// The session and serial of the published notification file, if there is
+    /// one.
+    fn published_revision(&self) -> Option<(Uuid, u64)> {
+        let path = self.mappings.path(self.notification_source.name());
+        let bytes = file_ops::read_file(&path).ok()?;
+        let notification = NotificationFile::parse(bytes.as_ref()).ok()?;
+        Some((notification.session_id(), notification.serial()))
+    }
+
+    /// Returns false if the published notification file or the current rsync
+    /// revision are not those of this state. This happens if an earlier run was
+    /// interrupted before it could save its state.
+    fn is_published(&self, config: &Config) -> bool {
+        match &self.snapshot {
+            None => false,
+            Some(snapshot) => {
+                self.published_revision() == Some((snapshot.session_id(), snapshot.serial()))
+                    && !rsync::other_revision_is_current(snapshot, config)
+            }
+        }
+    }
+
     /// Pre-validate the new RRDP state.
     ///
     /// Dependent on configuration
diff --git a/src/rsync.rs b/src/rsync.rs
index 938befb..8a9dcc9 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -18,7 +18,7 @@ use uuid::Uuid;
 use crate::{
     config::{self, Config},
     file_ops,
-    rrdp::RrdpState,
+    rrdp::{RrdpState, SnapshotState},
     util::{self, Time},
 };
 
@@ -61,6 +61,20 @@ pub fn update_from_rrdp_state(rrdp_state: &RrdpState, config: &Config) -> Result
     Ok(())
 }
 
+/// Returns true if the 'current' symlink leads to another revision than that of
+/// the given snapshot.
+pub fn other_revision_is_current(snapshot: &SnapshotState, config: &Config) -> bool {
+    let revision = RsyncRevision {
+        session_id: snapshot.session_id(),
+        serial: snapshot.serial(),
+    };
+
+    config.rsync_enabled()
+        && config.rsync_dir_use_symlinks()
+        && std::fs::read_link(config.rsync_dir_current())
+            .is_ok_and(|target| target != Path::new(&revision.dir_name()))
+}
+
 /// Create a new symlink then rename it. We need to do this because the std library
 /// refuses to overwrite an existing symlink. And if we were to remove it first, then
 /// we would introduce a race condition for clients accessing.
-- 
2.43.0


From dc7bfcf5345cd2bdd03beb69d9a7531a2e253ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:54 +0000
Subject: [PATCH 14/20] fix: do not reuse an rsync revision directory with
 another layout

---
 src/rsync.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index 8a9dcc9..9e8a5a2 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -31,12 +31,10 @@ pub fn update_from_rrdp_state(rrdp_state: &RrdpState, config: &Config) -> Result
     // We can assume now that there is a snapshot and unwrap things for it
     let snapshot_path = rrdp_state.snapshot_path().unwrap();
     let snapshot = rrdp_state.snapshot().unwrap();
-    let session_id = snapshot.session_id();
-    let serial = snapshot.serial();
 
     let mut rsync_state = RsyncDirState::recover(config)?;
 
-    let new_revision = RsyncRevision { session_id, serial };
+    let new_revision = RsyncRevision::new(snapshot, config);
 
     let mut writer = RsyncFromSnapshotWriter {
         out_path: new_revision.path(config),
@@ -64,10 +62,7 @@ pub fn update_from_rrdp_state(rrdp_state: &RrdpState, config: &Config) -> Result
 /// Returns true if the 'current' symlink leads to another revision than that of
 /// the given snapshot.
 pub fn other_revision_is_current(snapshot: &SnapshotState, config: &Config) -> bool {
-    let revision = RsyncRevision {
-        session_id: snapshot.session_id(),
-        serial: snapshot.serial(),
-    };
+    let revision = RsyncRevision::new(snapshot, config);
 
     config.rsync_enabled()
         && config.rsync_dir_use_symlinks()
@@ -265,11 +260,29 @@ struct RsyncRevision {
     #[serde(deserialize_with = "util::de_uuid", serialize_with = "util::ser_uuid")]
     session_id: Uuid,
     serial: u64,
+
+    /// Whether the objects are below host and module directories. Such a
+    /// revision must not share its directory with one without them.
+    #[serde(default)]
+    include_host: bool,
 }
 
 impl RsyncRevision {
+    fn new(snapshot: &SnapshotState, config: &Config) -> Self {
+        RsyncRevision {
+            session_id: snapshot.session_id(),
+            serial: snapshot.serial(),
+            include_host: config.rsync_include_host,
+        }
+    }
+
     fn dir_name(&self) -> String {
-        format!("session_{}_serial_{}", self.session_id, self.serial)
+        format!(
+            "session_{}_serial_{}{}",
+            self.session_id,
+            self.serial,
+            if self.include_host { "_host" } else { "" }
+        )
     }
 
     fn path(&self, config: &Config) -> PathBuf {
-- 
2.43.0


From 45e741b0ec493e78f08d966e54ab98c4f606fc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:20 +0000
Subject: [PATCH 15/20] fix: refuse revoked router certificates

The serial number of a BGPSec router certificate was never looked up in the
CRL of the issuing CA.
---
 src/validation/validator.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index f2ae0c2..7c9e1ec 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -400,6 +400,13 @@ impl Validator {
                                     }
                                 } else {
                                     // This should be a BGPSec router (EE) certificate
+                                    if crl.contains(child_cert.serial_number()) {
+                                        ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                                            uri,
+                                            "certificate was revoked",
+                                        ));
+                                        continue;
+                                    }
                                     match child_cert.validate_router_at(resource_cert, strict, when)
                                     {
                                         Ok(_) => {
-- 
2.43.0


From 1c3fb39270330f97350f2ef623fc1f33b79d09e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:20 +0000
Subject: [PATCH 16/20] fix: use the snapshot if deltas do not lead to the
 notified serial

The validator accepted an update of its data for a repository even if the
deltas ended before the serial in the notification file, if that serial was
lower than the one it had, or if a delta file was for another session or
serial than the notification file said. It then kept using outdated data.
---
 src/validation/validator.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 7c9e1ec..e0451ff 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -717,6 +717,13 @@ impl VisitedRepositories {
                 continue;
             } else {
                 let delta = Self::read_delta_file(fetcher, delta_info.uri(), delta_info.hash())?;
+                if delta.session_id() != data.session_id || delta.serial() != delta_info.serial() {
+                    return Err(anyhow!(
+                        "delta at {} is not for serial {} of this session",
+                        delta_info.uri(),
+                        delta_info.serial()
+                    ));
+                }
                 for element in delta.into_elements() {
                     match element {
                         DeltaElement::Publish(publish) => {
@@ -763,6 +770,16 @@ impl VisitedRepositories {
             }
         }
 
+        // The deltas may end before the notified serial, or the notified
+        // serial may be lower than what we have.
+        if data.serial != notification.serial() {
+            return Err(anyhow!(
+                "deltas lead to serial {} rather than {}",
+                data.serial,
+                notification.serial()
+            ));
+        }
+
         data.etag = etag;
         data.last_fetch = when;
         data.fetched = true;
-- 
2.43.0


From 060c03d97cd6d040ca2797dcb37513ce9ea23cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:01 +0000
Subject: [PATCH 17/20] fix: refuse stale manifests, and manifests and CRLs of
 the future

A manifest whose next update time has passed was accepted as long as its
certificate was valid, and the this update time of manifests and CRLs was not
looked at.
---
 src/validation/validator.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index e0451ff..6b52134 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -200,6 +200,15 @@ impl Validator {
                 }
             };
 
+            if content.next_update() < when || content.this_update() > when {
+                ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                    mft_uri_string,
+                    "Manifest is stale or not yet valid",
+                ));
+                report.add_cert(ca_cert);
+                return report;
+            }
+
             #[allow(clippy::mutable_key_type)]
             let mut mft_entries: HashMap<_, _> = content
                 .iter_uris(sia_ca)
@@ -278,6 +287,15 @@ impl Validator {
                 return report;
             }
 
+            if crl.this_update() > when {
+                ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                    crl_uri,
+                    "CRL is not yet valid",
+                ));
+                report.add_cert(ca_cert);
+                return report;
+            }
+
             if crl.contains(mft_cert.serial_number()) {
                 ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
                     crl_uri,
-- 
2.43.0


From 7d6d74a0fe0ee284df2b2f6a925681f992d683df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:05 +0000
Subject: [PATCH 18/20] fix: deprecate files anew that an interrupted run had
 published again

A run that was interrupted after it replaced the notification file, but before
it saved its state, may have published files which the state still has as
deprecated. The next run removed them directly after it replaced that
notification file, without waiting for the clean-up time.
---
 src/rrdp.rs | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index b8fc892..68ad8de 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -224,13 +224,29 @@ impl RrdpState {
         }
     }
 
+    /// The published notification file, if there is one.
+    fn published_notification(&self) -> Option<NotificationFile> {
+        let path = self.mappings.path(self.notification_source.name());
+        let bytes = file_ops::read_file(&path).ok()?;
+        NotificationFile::parse(bytes.as_ref()).ok()
+    }
+
     /// The session and serial of the published notification file, if there is
     /// one.
     fn published_revision(&self) -> Option<(Uuid, u64)> {
-        let path = self.mappings.path(self.notification_source.name());
-        let bytes = file_ops::read_file(&path).ok()?;
-        let notification = NotificationFile::parse(bytes.as_ref()).ok()?;
-        Some((notification.session_id(), notification.serial()))
+        self.published_notification()
+            .map(|notification| (notification.session_id(), notification.serial()))
+    }
+
+    /// The paths of the snapshot and deltas in the published notification file.
+    fn published_paths(&self) -> Vec<PathBuf> {
+        match self.published_notification() {
+            None => vec![],
+            Some(notification) => std::iter::once(notification.snapshot().uri())
+                .chain(notification.deltas().iter().map(|delta| delta.uri()))
+                .filter_map(|uri| self.mappings.path_for_uri(uri).ok())
+                .collect(),
+        }
     }
 
     /// Returns false if the published notification file or the current rsync
@@ -442,6 +458,15 @@ impl RrdpState {
     /// Takes the files out of the deprecated files which were deprecated for more
     /// than the configured 'cleanup_after' time.
     pub fn take_expired(&mut self, config: &Config) -> Vec<DeprecatedFile> {
+        // A run that was interrupted may have published deprecated files again. They
+        // are deprecated only now.
+        let published = self.published_paths();
+        for deprecated in &mut self.deprecated_files {
+            if published.contains(&deprecated.path) {
+                deprecated.since = Time::now();
+            }
+        }
+
         let clean_before = Time::seconds_ago(config.cleanup_after);
         let (expired, keep) = self
             .deprecated_files
-- 
2.43.0


From e982e28f3d41cbec937724ed6787be0f1c34b152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:23 +0000
Subject: [PATCH 19/20] fix: report manifests with unusable file names rather
 than crash

---
 src/validation/validator.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 6b52134..fd6a34e 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -8,7 +8,8 @@ use log::{debug, info, trace, warn};
 use rpki::{
     crypto::KeyIdentifier,
     repository::{
-        aspa::Aspa, error::VerificationError, x509::Time, Cert, Crl, Manifest, ResourceCert, Roa,
+        aspa::Aspa, error::VerificationError, manifest::ManifestHash, x509::Time, Cert, Crl,
+        Manifest, ResourceCert, Roa,
     },
     rrdp::{self, Delta, DeltaElement, NotificationFile, Snapshot},
     uri,
@@ -209,11 +210,28 @@ impl Validator {
                 return report;
             }
 
-            #[allow(clippy::mutable_key_type)]
-            let mut mft_entries: HashMap<_, _> = content
-                .iter_uris(sia_ca)
-                .map(|(k, v)| (UriString::from(k), v))
-                .collect();
+            // Resolve the file names here rather than use iter_uris: it panics
+            // on names that cannot be part of a URI.
+            let mut mft_entries = HashMap::new();
+            for item in content.iter() {
+                let (file, hash) = item.into_pair();
+                match sia_ca.join(file.as_ref()) {
+                    Ok(uri) => {
+                        mft_entries.insert(
+                            UriString::from(uri),
+                            ManifestHash::new(hash, content.file_hash_alg()),
+                        );
+                    }
+                    Err(e) => {
+                        ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                            mft_uri_string,
+                            format!("Invalid file name on manifest: {e}"),
+                        ));
+                        report.add_cert(ca_cert);
+                        return report;
+                    }
+                }
+            }
 
             let crl_uri = match mft_cert.crl_uri() {
                 Some(uri) => UriString::from(uri),
-- 
2.43.0


From 3a780b0e6d2bf8aadeabb51bd3fac3f6c4254c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:55 +0000
Subject: [PATCH 20/20] fix: never use the name of a listed file for a
 temporary file

---
 src/file_ops.rs | 8 +++++++-
 src/rrdp.rs     | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 2855df1..ccfc40d 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -73,7 +73,7 @@ pub fn move_file(source_base_dir: &Path, target_base_dir: &Path, relative: &str)
     if std::fs::rename(&original_file, &target_file).is_err() {
         // Move failed. Try to copy and delete instead. Copy to a temporary file
         // first, so that there is never an incomplete file at the target.
-        let tmp_file = target_base_dir.join(format!("{relative}.{TMP_FILE_EXT}"));
+        let tmp_file = target_base_dir.join(tmp_name(relative));
         std::fs::copy(&original_file, &tmp_file).with_context(|| {
             format!(
                 "Cannot copy file from {} to {}",
@@ -128,6 +128,12 @@ pub fn read_file(file_path: &Path) -> Result<Bytes> {
     Ok(Bytes::from(buf))
 }
 
+/// The name for a temporary file next to a published RRDP file. It cannot be the
+/// name of another published file, because URIs cannot contain a '#'.
+pub fn tmp_name(name: &str) -> String {
+    format!("{name}.{TMP_FILE_EXT}#")
+}
+
 pub fn path_with_extension(path: &Path, ext: &str) -> PathBuf {
     let mut res = path.to_path_buf();
     res.set_extension(ext);
diff --git a/src/rrdp.rs b/src/rrdp.rs
index 68ad8de..2425f23 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -735,7 +735,7 @@ impl NotificationSource {
     }
 
     pub fn tmp_name(&self) -> String {
-        format!("{}.tmp", self.name)
+        file_ops::tmp_name(&self.name)
     }
 }
 
-- 
2.43.0

