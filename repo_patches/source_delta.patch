From 1c2427c88a57f0312b6c4ad5d9fa71628b65b18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 01/47] fix: do not require a piped stdin when running a test
 command

Executable tests inherit stdin, so taking the child's stdin pipe
unconditionally panicked for every such test.
---
 lit/src/utils.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/lit/src/utils.rs b/lit/src/utils.rs
index 95cb573..d11e26d 100644
--- a/lit/src/utils.rs
+++ b/lit/src/utils.rs
@@ -71,18 +71,20 @@ impl ShellCommand {
         match self.command.spawn() {
             Ok(mut child) => {
                 let pipe_stdin = self.pipe_stdin.take();
-                let mut stdin = child.stdin.take().unwrap();
-                let _ = std::thread::scope(move |scope| {
-                    scope
-                        .spawn(move || {
-                            if let Some(bytes) = pipe_stdin {
-                                stdin.write_all(&bytes)
-                            } else {
-                                Ok(())
-                            }
-                        })
-                        .join()
-                });
+                // Only commands whose input we provide have a piped stdin
+                if let Some(mut stdin) = child.stdin.take() {
+                    let _ = std::thread::scope(move |scope| {
+                        scope
+                            .spawn(move || {
+                                if let Some(bytes) = pipe_stdin {
+                                    stdin.write_all(&bytes)
+                                } else {
+                                    Ok(())
+                                }
+                            })
+                            .join()
+                    });
+                }
                 let stdout_handle = child.stdout.take().map(read);
                 let stderr_handle = child.stderr.take().map(read);
 
-- 
2.43.0


From 0a50ab47b249bb00dc17f7fd601c9ee94d0694f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 02/47] fix: enforce the test timeout and reap timed out
 commands

The output of a command was read to its end before the command was
killed, so the timeout never took effect while the command was alive
and holding its pipes, and writing its input was not subject to the
timeout at all. Kill and reap the command first, and report what it
has written so far.
---
 lit/src/utils.rs | 73 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 48 insertions(+), 25 deletions(-)

diff --git a/lit/src/utils.rs b/lit/src/utils.rs
index d11e26d..6f10ae3 100644
--- a/lit/src/utils.rs
+++ b/lit/src/utils.rs
@@ -2,9 +2,11 @@ use std::borrow::Cow;
 use std::ffi::OsStr;
 use std::io::Write;
 use std::path::Path;
+use std::sync::Arc;
 use std::time::{Duration, Instant};
 
 use litcheck::diagnostics::{DiagResult, IntoDiagnostic};
+use parking_lot::Mutex;
 
 use super::{TestResult, TestStatus};
 
@@ -73,16 +75,14 @@ impl ShellCommand {
                 let pipe_stdin = self.pipe_stdin.take();
                 // Only commands whose input we provide have a piped stdin
                 if let Some(mut stdin) = child.stdin.take() {
-                    let _ = std::thread::scope(move |scope| {
-                        scope
-                            .spawn(move || {
-                                if let Some(bytes) = pipe_stdin {
-                                    stdin.write_all(&bytes)
-                                } else {
-                                    Ok(())
-                                }
-                            })
-                            .join()
+                    // This is never joined: the command decides how much of its input it reads
+                    // and when, and waiting for it here would not be subject to the timeout
+                    std::thread::spawn(move || {
+                        if let Some(bytes) = pipe_stdin {
+                            stdin.write_all(&bytes)
+                        } else {
+                            Ok(())
+                        }
                     });
                 }
                 let stdout_handle = child.stdout.take().map(read);
@@ -95,20 +95,18 @@ impl ShellCommand {
                             if timeout.is_zero() || elapsed < timeout {
                                 continue;
                             }
-                            let stdout = stdout_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
-                            let stderr = stderr_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
                             let _ = child.kill();
-                            let status = child.try_wait().transpose();
+                            let status = child.wait().ok();
+                            // Descendants of the command may still hold the other end of these
+                            // pipes, so take what was written so far instead of waiting for them
+                            let stdout = stdout_handle.map(|t| t.take()).unwrap_or_default();
+                            let stderr = stderr_handle.map(|t| t.take()).unwrap_or_default();
                             let result = TestResult::new(TestStatus::Timeout)
                                 .with_stdout(stdout)
                                 .with_stderr(stderr)
                                 .with_start(started_at)
                                 .with_elapsed(elapsed);
-                            if let Some(Ok(status)) = status {
+                            if let Some(status) = status {
                                 break result.with_exit_status(status);
                             } else {
                                 break result;
@@ -163,12 +161,37 @@ impl ShellCommand {
     }
 }
 
-fn read<R: std::io::Read + Send + 'static>(mut input: R) -> std::thread::JoinHandle<Vec<u8>> {
-    std::thread::spawn(move || {
-        let mut buffer = vec![];
-        match input.read_to_end(&mut buffer) {
-            Ok(_) => buffer,
-            Err(_) => buffer,
+/// Output of a command, collected in the background
+struct Reader {
+    buffer: Arc<Mutex<Vec<u8>>>,
+    thread: std::thread::JoinHandle<()>,
+}
+impl Reader {
+    /// Wait for the output to be closed, and return all of it
+    fn join(self) -> std::thread::Result<Vec<u8>> {
+        self.thread.join()?;
+        Ok(std::mem::take(&mut *self.buffer.lock()))
+    }
+
+    /// Return the output collected so far, without waiting
+    fn take(self) -> Vec<u8> {
+        std::mem::take(&mut *self.buffer.lock())
+    }
+}
+
+fn read<R: std::io::Read + Send + 'static>(mut input: R) -> Reader {
+    let buffer = Arc::new(Mutex::new(vec![]));
+    let output = buffer.clone();
+    let thread = std::thread::spawn(move || {
+        let mut chunk = [0; 8192];
+        loop {
+            match input.read(&mut chunk) {
+                Ok(0) => break,
+                Ok(len) => output.lock().extend_from_slice(&chunk[..len]),
+                Err(err) if err.kind() == std::io::ErrorKind::Interrupted => continue,
+                Err(_) => break,
+            }
         }
-    })
+    });
+    Reader { buffer, thread }
 }
-- 
2.43.0


From 89a39d54c054a29d5e97dfdb1379085e0207620c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 03/47] fix: count the last line of a test script

A last line without a trailing newline, which is what the input reader
always produces, was given the number of the line before it.
---
 lit/src/formats/sh/script/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lit/src/formats/sh/script/parser.rs b/lit/src/formats/sh/script/parser.rs
index 3f09d8a..b0579ee 100644
--- a/lit/src/formats/sh/script/parser.rs
+++ b/lit/src/formats/sh/script/parser.rs
@@ -398,7 +398,7 @@ impl<'a> Iterator for Lines<'a> {
             .strip_suffix('\n')
             .map(|line| (1, line))
             .unwrap_or((0, line));
-        self.current_line += stripped;
+        self.current_line += 1;
         let (stripped, line) = line
             .strip_suffix('\r')
             .map(|line| (stripped + 1, line))
-- 
2.43.0


From 627962cd23380a56d7c25350c956492f8930192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 04/47] fix: substitute DEFINE'd names and values literally

The name in a DEFINE or REDEFINE directive was compiled as a regular expression as is, and
'%{name}' is not a valid one, so applying the directive aborted the run. Likewise a '$' in
the value was taken as a reference to a capture group.
---
 lit/src/formats/sh/script/directives.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lit/src/formats/sh/script/directives.rs b/lit/src/formats/sh/script/directives.rs
index 27dbe61..f3eec83 100644
--- a/lit/src/formats/sh/script/directives.rs
+++ b/lit/src/formats/sh/script/directives.rs
@@ -244,9 +244,14 @@ impl Substitution {
         use crate::config::substitutions::Matches;
         use itertools::Itertools;
 
-        match substitutions.find_matching(&self.key) {
+        // Substitutions are regular expressions and replacement templates, but the keys and
+        // values of these directives are neither. The braces are the only special characters
+        // which are valid in such a key.
+        let pattern = self.key.replace('{', r"\{").replace('}', r"\}");
+        let value = self.value.replace('$', "$$");
+        match substitutions.find_matching(&pattern) {
             Matches::Empty if !self.replace => {
-                substitutions.insert(self.key.clone(), self.value.clone());
+                substitutions.insert(pattern, value);
                 Ok(())
             }
             Matches::Empty => Err(InvalidSubstitutionError::NotDefined {
@@ -254,7 +259,7 @@ impl Substitution {
                 key: self.key.clone(),
             }),
             Matches::Exact(_) if self.replace => {
-                substitutions.insert(self.key.clone(), self.value.clone());
+                substitutions.insert(pattern, value);
                 Ok(())
             }
             Matches::Exact(_) => Err(InvalidSubstitutionError::AlreadyExists {
-- 
2.43.0


From 7f8e6daf5134b5d92282df5a44d9accc6b359e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 05/47] fix: reject incomplete DEFINE directives and line
 continuations

A DEFINE or REDEFINE directive without a '=' was ignored, and so was the continuation on the
last line of a test script.
---
 lit/src/formats/sh/script/mod.rs    | 13 +++++++++++++
 lit/src/formats/sh/script/parser.rs | 11 +++++++++++
 2 files changed, 24 insertions(+)

diff --git a/lit/src/formats/sh/script/mod.rs b/lit/src/formats/sh/script/mod.rs
index 0873b9c..6c74609 100644
--- a/lit/src/formats/sh/script/mod.rs
+++ b/lit/src/formats/sh/script/mod.rs
@@ -73,6 +73,19 @@ pub enum TestScriptError {
         prev_line: SourceSpan,
         expected: DirectiveKind,
     },
+    #[error("unterminated directive")]
+    #[diagnostic()]
+    UnterminatedContinuation {
+        #[label("this line ended with a continuation, but it is the last one")]
+        span: SourceSpan,
+    },
+    #[error("invalid '{kind}' directive")]
+    #[diagnostic(help("substitutions are defined using the syntax '%{{name}} = value'"))]
+    MissingSubstitutionValue {
+        #[label("expected a '=' here")]
+        span: SourceSpan,
+        kind: DirectiveKind,
+    },
     #[error("test has no 'RUN:' directive")]
     #[diagnostic(help("lit requires at least one command to run per test"))]
     MissingRunDirective,
diff --git a/lit/src/formats/sh/script/parser.rs b/lit/src/formats/sh/script/parser.rs
index b0579ee..f4494f9 100644
--- a/lit/src/formats/sh/script/parser.rs
+++ b/lit/src/formats/sh/script/parser.rs
@@ -125,6 +125,12 @@ impl<'a> TestScriptParser<'a> {
         while needs_continuation {
             let prev_line = span.clone();
             let Some(line) = self.next_line() else {
+                self.errors.push(TestScriptError::UnterminatedContinuation {
+                    span: SourceSpan::from_range_unchecked(
+                        directive.span().source_id(),
+                        prev_line,
+                    ),
+                });
                 break;
             };
             span.end = line.span().end().to_usize();
@@ -237,6 +243,11 @@ impl<'a> TestScriptParser<'a> {
                     self.errors.push(err.into());
                 }
             }
+        } else {
+            self.errors.push(TestScriptError::MissingSubstitutionValue {
+                span: line.span(),
+                kind,
+            });
         }
 
         Ok(())
-- 
2.43.0


From 648da27ddc41e24aa0f1071e0c31563e2fca5799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 06/47] fix: account for the test whose execution aborted the
 run

---
 litcheck/src/commands/lit.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/litcheck/src/commands/lit.rs b/litcheck/src/commands/lit.rs
index 69e1035..9309567 100644
--- a/litcheck/src/commands/lit.rs
+++ b/litcheck/src/commands/lit.rs
@@ -385,7 +385,14 @@ impl TestRunner {
     pub fn run(&mut self, test: Arc<Test>, config: &Config) -> DiagResult<()> {
         self.progress.set_message(test.name().to_string());
 
-        let result = test.suite.config.format.execute(&test, config)?;
+        let result = match test.suite.config.format.execute(&test, config) {
+            Ok(result) => result,
+            Err(err) => {
+                // The run is aborted, but this test must still be accounted for
+                self.report(test, TestResult::new(TestStatus::Unresolved))?;
+                return Err(err);
+            }
+        };
         if result.is_failure() {
             self.progress.suspend(|| {
                 println!(
-- 
2.43.0


From 486f4aa450b27648cb9d0994895ea0b9fc5eb1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 07/47] fix: apply every local configuration between the
 nearest known one and a test

---
 lit/src/suite/registry/default.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/lit/src/suite/registry/default.rs b/lit/src/suite/registry/default.rs
index 3a82aab..2772cb2 100644
--- a/lit/src/suite/registry/default.rs
+++ b/lit/src/suite/registry/default.rs
@@ -421,22 +421,21 @@ fn get_local_config(
     // using the suite config and source directory as a fallback - and `path_in_suite`.
     // We start at that point and descend to `path_in_suite`, computing the effective
     // configuration at each step if we encounter a `lit.local.toml` at that level.
-    let (mut config, search_root_in_suite) =
-        if let Some(entry) = local_config_cache.nearest_ancestor(&path) {
-            (
-                entry.data.clone(),
-                entry.path.strip_prefix(source_dir).unwrap().to_path_buf(),
-            )
-        } else {
-            (suite.config.clone(), path_in_suite.to_path_buf())
-        };
+    let (mut config, mut dir) = match local_config_cache.nearest_ancestor(&path) {
+        // An ancestor may also belong to a suite which contains this one, or differ from the
+        // one in `path` if that contains symlinks
+        Some(entry) if entry.path.starts_with(source_dir) && path.starts_with(&entry.path) => {
+            (entry.data.clone(), entry.path)
+        }
+        _ => (suite.config.clone(), source_dir.to_path_buf()),
+    };
 
-    let mut path = source_dir.to_path_buf();
-    for component in search_root_in_suite.components() {
-        path.push(AsRef::<Path>::as_ref(&component));
+    let rest = path.strip_prefix(&dir).unwrap().to_path_buf();
+    for component in rest.components() {
+        dir.push(AsRef::<Path>::as_ref(&component));
 
         let mut found =
-            fs::search_directory(&path, false, |entry| entry.file_name() == "lit.local.toml");
+            fs::search_directory(&dir, false, |entry| entry.file_name() == "lit.local.toml");
         if let Some(entry) = found.next() {
             let entry = entry.into_diagnostic()?;
             let mut cfg = TestConfig::parse(entry.path(), lit)?;
@@ -444,7 +443,7 @@ fn get_local_config(
             cfg.set_default_substitutions(lit, suite, &path);
             cfg.set_default_features(lit);
             let cfg = Arc::<TestConfig>::from(cfg);
-            local_config_cache.insert(&path, cfg.clone());
+            local_config_cache.insert(&dir, cfg.clone());
             config = cfg;
         }
     }
-- 
2.43.0


From 8e65bc0fc7817b6a687ecda2f0f8950b4c97a3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 08/47] fix: do not override substitutions of a local
 configuration with the defaults

---
 lit/src/suite/registry/default.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lit/src/suite/registry/default.rs b/lit/src/suite/registry/default.rs
index 2772cb2..f2b4481 100644
--- a/lit/src/suite/registry/default.rs
+++ b/lit/src/suite/registry/default.rs
@@ -439,9 +439,8 @@ fn get_local_config(
         if let Some(entry) = found.next() {
             let entry = entry.into_diagnostic()?;
             let mut cfg = TestConfig::parse(entry.path(), lit)?;
+            // The defaults are inherited as well, so that they can be overridden
             cfg.inherit(&config);
-            cfg.set_default_substitutions(lit, suite, &path);
-            cfg.set_default_features(lit);
             let cfg = Arc::<TestConfig>::from(cfg);
             local_config_cache.insert(&dir, cfg.clone());
             config = cfg;
-- 
2.43.0


From c02d4e87b564fb9657a682af92084574c9b695b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 09/47] fix: execute tests using the format of their own
 configuration

---
 litcheck/src/commands/lit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litcheck/src/commands/lit.rs b/litcheck/src/commands/lit.rs
index 9309567..1300c1c 100644
--- a/litcheck/src/commands/lit.rs
+++ b/litcheck/src/commands/lit.rs
@@ -385,7 +385,7 @@ impl TestRunner {
     pub fn run(&mut self, test: Arc<Test>, config: &Config) -> DiagResult<()> {
         self.progress.set_message(test.name().to_string());
 
-        let result = match test.suite.config.format.execute(&test, config) {
+        let result = match test.config.format.execute(&test, config) {
             Ok(result) => result,
             Err(err) => {
                 // The run is aborted, but this test must still be accounted for
-- 
2.43.0


From e75fc2499dc36fa6b8116f93846fb6d621c255c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 10/47] fix: select each test below the given paths exactly
 once

---
 lit/src/suite/registry/default.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/lit/src/suite/registry/default.rs b/lit/src/suite/registry/default.rs
index f2b4481..77ed4a2 100644
--- a/lit/src/suite/registry/default.rs
+++ b/lit/src/suite/registry/default.rs
@@ -51,7 +51,7 @@ impl DefaultTestSuiteRegistry {
             let mut lock = suite.search_paths();
             core::mem::take(&mut *lock)
         };
-        if search_paths.is_empty() {
+        if search_paths.is_empty() || search_paths.contains(Path::new("")) {
             log::debug!(
                 target: "lit:suite:registry",
                 "no search paths given, searching entire suite source directory for tests"
@@ -73,6 +73,14 @@ impl DefaultTestSuiteRegistry {
                 search_paths.len()
             );
             for path in search_paths.iter() {
+                // Tests below a path which is itself searched are already found there
+                if path
+                    .ancestors()
+                    .skip(1)
+                    .any(|parent| search_paths.contains(parent))
+                {
+                    continue;
+                }
                 log::debug!(target: "lit:suite:registry", "searching {} for tests..", path.display());
                 // Look for local configuration that applies to these tests,
                 // using the suite config if no local config is present
@@ -140,17 +148,17 @@ impl TestSuiteRegistry for DefaultTestSuiteRegistry {
         if let Some(suite) = self.find_nearest_suite(&input_path, search_root, config)? {
             log::debug!("resolved input {} to {}", input.display(), suite.id());
             let suite_source_dir = suite.source_dir();
-            let filter_path = input_path.strip_prefix(suite_source_dir).expect(
-                "test suite source directory should have been an ancestor of the input path",
+            // If the input is not a path in the source directory of the suite, it is the directory
+            // containing its configuration, and so the whole suite is selected
+            let filter_path = input_path
+                .strip_prefix(suite_source_dir)
+                .unwrap_or(Path::new(""));
+            log::debug!(
+                "filtering suite '{}' by path: '{}'",
+                suite.id(),
+                filter_path.display()
             );
-            if filter_path != Path::new("") {
-                log::debug!(
-                    "filtering suite '{}' by path: '{}'",
-                    suite.id(),
-                    filter_path.display()
-                );
-                suite.filter_by_path(filter_path);
-            }
+            suite.filter_by_path(filter_path);
             self.load_tests_for_suite(suite, &cwd, config)?;
         } else {
             log::warn!("unable to locate test suite for {}", input.display());
-- 
2.43.0


From 576f80fe12a002b876b77bbc39b5184e4b09a699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 11/47] fix: find the nearest suite of a path when another
 suite is already loaded

---
 lit/src/suite/registry/default.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lit/src/suite/registry/default.rs b/lit/src/suite/registry/default.rs
index 77ed4a2..aa02012 100644
--- a/lit/src/suite/registry/default.rs
+++ b/lit/src/suite/registry/default.rs
@@ -283,15 +283,6 @@ impl DefaultTestSuiteRegistry {
         config: &Config,
     ) -> DiagResult<Option<Arc<TestSuite>>> {
         log::debug!(target: "lit:suite:registry", "finding nearest suite containing {}", path.display());
-        // If `dir` is not explicitly represented in `config_paths`, then it hasn't
-        // been visited to check for a `lit.suite.toml` file yet, and we can't rely
-        // on the nearest ancestor to be correct. Otherwise, the nearest ancestor
-        // refers to the nearest path in `config_paths`
-        if let Some(cache_key) = self.config_cache.nearest_ancestor(path) {
-            log::debug!(target: "lit:suite:registry", "found nearest ancestor suite in cache: '{}'", cache_key.data.name());
-            return Ok(Some(self.get(cache_key.into_value())));
-        }
-
         let dir = if path.is_dir() {
             path
         } else {
@@ -303,6 +294,12 @@ impl DefaultTestSuiteRegistry {
         log::debug!(target: "lit:suite:registry", "searching ancestors of {}", dir.display());
         for ancestor in dir.ancestors() {
             let is_cwd = ancestor == cwd;
+            // Only an exact match can be relied upon, an ancestor which is known may be further
+            // away than a `lit.suite.toml` which hasn't been visited yet
+            if let Some(cache_key) = self.config_cache.get(ancestor) {
+                log::debug!(target: "lit:suite:registry", "found ancestor suite in cache: '{}'", cache_key.name());
+                return Ok(Some(self.get(cache_key)));
+            }
             let mut found = fs::search_directory(ancestor, false, |entry| {
                 entry.file_name() == "lit.suite.toml"
             });
@@ -330,6 +327,9 @@ impl DefaultTestSuiteRegistry {
     }
 
     fn load_without_cache(&mut self, path: &Path, config: &Config) -> DiagResult<Arc<TestSuite>> {
+        if let Some(key) = self.config_cache.get(path) {
+            return Ok(self.get(key));
+        }
         let suite = TestSuite::parse(path, config)?;
         self.suites.insert(suite.clone());
         self.tests_by_suite.insert(suite.id(), TestList::default());
-- 
2.43.0


From c26c6cad77c1a032670d6c6ebbffba9e2d2f548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:46 +0000
Subject: [PATCH 12/47] fix: find the newlines of input with CRLF line endings

The search ignored the start of the given range when looking at the byte before a line feed,
and gave up when that byte was not a carriage return, so checking such input panicked.
---
 core/src/text/mod.rs | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/core/src/text/mod.rs b/core/src/text/mod.rs
index d4538d4..be8b12f 100644
--- a/core/src/text/mod.rs
+++ b/core/src/text/mod.rs
@@ -125,16 +125,11 @@ pub fn find_next_lf_or_eof(buffer: &[u8], range: Range<usize>) -> Option<usize>
 }
 
 pub fn find_next_crlf_or_eof(buffer: &[u8], range: Range<usize>) -> Option<usize> {
-    match memchr::memchr(b'\n', &buffer[range]) {
-        Some(0) => None,
-        Some(index) => {
-            let line_end = index - 1;
-            match unsafe { *buffer.get_unchecked(line_end) } {
-                b'\r' => Some(line_end),
-                _ => None,
-            }
-        }
-        None => None,
+    let newline = find_next_lf_or_eof(buffer, range)?;
+    // The newline starts at the carriage return, if there is one in the searched range
+    match buffer[range.start..newline].last() {
+        Some(b'\r') => Some(newline - 1),
+        _ => Some(newline),
     }
 }
 
@@ -143,16 +138,11 @@ pub fn find_prev_lf_or_eof(buffer: &[u8], range: Range<usize>) -> Option<usize>
 }
 
 pub fn find_prev_crlf_or_eof(buffer: &[u8], range: Range<usize>) -> Option<usize> {
-    match memchr::memrchr(b'\n', &buffer[range]) {
-        Some(0) => None,
-        Some(index) => {
-            let line_end = index - 1;
-            match unsafe { *buffer.get_unchecked(line_end) } {
-                b'\r' => Some(line_end),
-                _ => None,
-            }
-        }
-        None => None,
+    let newline = find_prev_lf_or_eof(buffer, range)?;
+    // The newline starts at the carriage return, if there is one in the searched range
+    match buffer[range.start..newline].last() {
+        Some(b'\r') => Some(newline - 1),
+        _ => Some(newline),
     }
 }
 
-- 
2.43.0


From 850990ba03417d61ec8689698bb59bde6eea09bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:46 +0000
Subject: [PATCH 13/47] fix: accept empty matches of CHECK-SAME at the end of a
 line

An empty match, e.g. of {{$}}, starts at the end of the line, which panicked.
---
 filecheck/src/rules/same.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/rules/same.rs b/filecheck/src/rules/same.rs
index b8ef922..8cc2ca2 100644
--- a/filecheck/src/rules/same.rs
+++ b/filecheck/src/rules/same.rs
@@ -40,7 +40,7 @@ where
                 info: Some(info),
             } if ty.is_ok() => {
                 let cursor = context.cursor_mut();
-                assert!(info.span.start().to_usize() < cursor.end_of_line());
+                assert!(info.span.start().to_usize() <= cursor.end_of_line());
                 cursor.set_start(info.span.end().to_usize());
                 Ok(MatchResult::new(ty, Some(info)).into())
             }
-- 
2.43.0


From 43d5aafe8891affe7c0418dbaac04ae2d51a0116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:12 +0000
Subject: [PATCH 14/47] fix: honour --ignore-case for sets of CHECK-DAG and
 CHECK-NOT literals

The searcher was built anew from the patterns, always case sensitive.
---
 filecheck/src/pattern/matcher/matchers/substring_set.rs | 9 ++++++++-
 filecheck/src/pattern/search/substring_set.rs           | 3 ++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/substring_set.rs b/filecheck/src/pattern/matcher/matchers/substring_set.rs
index bbaab5f..c34a291 100644
--- a/filecheck/src/pattern/matcher/matchers/substring_set.rs
+++ b/filecheck/src/pattern/matcher/matchers/substring_set.rs
@@ -13,6 +13,8 @@ pub struct SubstringSetMatcher<'a> {
     patterns: Vec<Span<Cow<'a, str>>>,
     /// The automaton that will perform the search
     searcher: AhoCorasick,
+    /// Whether to ignore case when matching ASCII letters
+    case_insensitive: bool,
 }
 impl<'a> fmt::Debug for SubstringSetMatcher<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
@@ -47,7 +49,11 @@ impl<'a> SubstringSetMatcher<'a> {
         &'patterns self,
         input: Input<'input>,
     ) -> DiagResult<SubstringSetSearcher<'a, 'patterns, 'input>> {
-        SubstringSetSearcher::new(input, Cow::Borrowed(&self.patterns))
+        SubstringSetSearcher::new(
+            input,
+            Cow::Borrowed(&self.patterns),
+            self.case_insensitive,
+        )
     }
 
     pub fn pattern_len(&self) -> usize {
@@ -294,6 +300,7 @@ impl<'a> SubstringSetBuilder<'a> {
         Ok(SubstringSetMatcher {
             patterns: self.patterns,
             searcher,
+            case_insensitive: self.case_insensitive,
         })
     }
 }
diff --git a/filecheck/src/pattern/search/substring_set.rs b/filecheck/src/pattern/search/substring_set.rs
index a85cc28..fe6bc59 100644
--- a/filecheck/src/pattern/search/substring_set.rs
+++ b/filecheck/src/pattern/search/substring_set.rs
@@ -22,13 +22,14 @@ impl<'a, 'patterns, 'input> SubstringSetSearcher<'a, 'patterns, 'input> {
     pub fn new(
         input: Input<'input>,
         patterns: Cow<'patterns, [Span<Cow<'a, str>>]>,
+        case_insensitive: bool,
     ) -> DiagResult<Self> {
         let source_id = input.source_id();
         let buffer = input.buffer();
         let crlf = input.is_crlf();
         let mut builder = AhoCorasickBuilder::new();
         builder
-            .ascii_case_insensitive(false)
+            .ascii_case_insensitive(case_insensitive)
             .match_kind(MatchKind::LeftmostLongest)
             .start_kind(StartKind::Unanchored);
         let pattern = builder
-- 
2.43.0


From ce5205fd18e953b20ec880fba56b5294c629894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:32 +0000
Subject: [PATCH 15/47] fix: apply --implicit-check-not between the checks of a
 CHECK-LABEL block

It was only inserted between positive checks which precede the first label.
---
 filecheck/src/check/program.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/filecheck/src/check/program.rs b/filecheck/src/check/program.rs
index ccbb644..f6f1ab1 100644
--- a/filecheck/src/check/program.rs
+++ b/filecheck/src/check/program.rs
@@ -264,8 +264,18 @@ impl<'a> CheckProgram<'a> {
                             Check::Label => {
                                 break;
                             }
+                            Check::Not => {
+                                block.push(iter.next().unwrap());
+                            }
                             _ => {
                                 block.push(iter.next().unwrap());
+
+                                // Insert the --implicit-check-not pattern after every positive check
+                                if let Some(implicit_check_not) =
+                                    implicit_check_not_pattern.as_ref()
+                                {
+                                    block.push(implicit_check_not.clone());
+                                }
                             }
                         }
                     }
-- 
2.43.0


From ec6b0b68dfee44d704af9378c921dbb7fd95fb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:32 +0000
Subject: [PATCH 16/47] fix: require a match for each of several identical
 CHECK-DAG patterns

Repeated literals were dropped, and suffixes of a repeated prefix were recorded at the index of
the check, rather than of the prefix, which could be out of bounds.
---
 filecheck/src/pattern/matcher/matchers/all.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/all.rs b/filecheck/src/pattern/matcher/matchers/all.rs
index dbce0e7..5285814 100644
--- a/filecheck/src/pattern/matcher/matchers/all.rs
+++ b/filecheck/src/pattern/matcher/matchers/all.rs
@@ -92,7 +92,7 @@ impl<'a> MatchAll<'a> {
                     return Err(Report::from(diag));
                 }
             };
-            unique_prefixes.insert(prefix.clone(), id);
+            unique_prefixes.insert(prefix.clone(), suffixes.len());
             prefixes.push(pattern_prefix);
             let pattern = core::mem::replace(&mut unordered[id].pattern, CheckPattern::Empty(span));
             if !pattern.is_empty() {
@@ -109,14 +109,14 @@ impl<'a> MatchAll<'a> {
         // A single stage match means that each prefix is unique, and that the prefix represents the entire pattern
         let is_single_stage = suffixes
             .iter()
-            .all(|patterns| patterns.iter().all(|p| matches!(p, Pattern::Empty(_))));
+            .all(|patterns| matches!(patterns.as_slice(), [Pattern::Empty(_)]));
 
-        // Literal patterns are always single stage, and can be performed with a simple substring set matcher
+        // Literal patterns are single stage unless some are repeated, and can be performed with a
+        // simple substring set matcher
         let is_literal = prefixes
             .iter()
             .all(|prefix| matches!(prefix, PatternPrefix::Literal { .. }));
-        if is_literal {
-            assert!(is_single_stage);
+        if is_literal && is_single_stage {
             // We can use a simple substring searcher in this case
             return SubstringSetMatcher::new(
                 prefixes
-- 
2.43.0


From a9f970987be43971386a0d1aaf9c241cdfb245db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:32 +0000
Subject: [PATCH 17/47] fix: do not discard CHECK-DAG matches adjacent to the
 match of a following CHECK

The end of a match is exclusive, so a match which starts right there does not overlap it.
---
 filecheck/src/check/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index 8912203..831a10e 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -494,7 +494,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                         Ok(mut left_matches) => {
                             if let Some(left_range) = left_matches.range()
                                 && (left_range.start >= right_range.start
-                                    || left_range.end >= right_range.start)
+                                    || left_range.end > right_range.start)
                             {
                                 // At least one matching CHECK-DAG overlaps following CHECK,
                                 // so visit each match result and rewrite overlapping matches
@@ -508,7 +508,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                                         } if ty.is_ok() => {
                                             let left_range = info.span;
                                             if left_range.start().to_usize() >= right_range.start
-                                                || left_range.end().to_usize() >= right_range.start
+                                                || left_range.end().to_usize() > right_range.start
                                             {
                                                 let span = info.span;
                                                 let pattern_span = info.pattern_span;
@@ -573,7 +573,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                                                 } if (span.start().to_usize()
                                                     >= right_range.start
                                                     || span.end().to_usize()
-                                                        >= right_range.start) =>
+                                                        > right_range.start) =>
                                                 {
                                                     *mr = MatchResult::failed(
                                                         CheckFailedError::MatchFoundButDiscarded {
-- 
2.43.0


From 962e9ad5fbd04e6a88c7fce295b1755058c75488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 18/47] fix: continue after all matches of a CHECK-DAG group

After a group with a shared prefix, the following checks were matched from the start of the
group's search region, i.e. they could match before, or overlap, its matches.
---
 filecheck/src/check/mod.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index 831a10e..9e0875a 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -464,13 +464,16 @@ pub fn check_group<'section, 'input, 'a: 'input>(
             Ok(Ok(matched))
         }
         CheckGroup::Unordered(check_dag) => match check_dag.apply(context) {
-            Ok(matches) => {
-                if matches.range().is_none() {
-                    Ok(Err(vec![matches]))
-                } else {
+            Ok(matches) => match matches.range() {
+                None => Ok(Err(vec![matches])),
+                Some(range) => {
+                    // The checks which follow must match after all of these matches
+                    if matches.is_ok() {
+                        context.cursor_mut().set_start(range.end);
+                    }
                     Ok(Ok(vec![matches]))
                 }
-            }
+            },
             Err(err) => {
                 test_result.failed(CheckFailedError::MatchNoneErrorNote {
                     span: check_dag.span(),
-- 
2.43.0


From 3b4f5184236afd287af61ecddfd5365c691e070f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:15 +0000
Subject: [PATCH 19/47] fix: CHECK-EMPTY needs a line after the current one

---
 filecheck/src/rules/empty.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/rules/empty.rs b/filecheck/src/rules/empty.rs
index ebd4af2..42ea163 100644
--- a/filecheck/src/rules/empty.rs
+++ b/filecheck/src/rules/empty.rs
@@ -23,14 +23,17 @@ impl Rule for CheckEmpty {
     where
         C: Context<'input, 'context> + ?Sized,
     {
-        // Next line must be empty, meaning the start of the line is the end of the line
+        // There must be a next line, and it must be empty, meaning the start of the line is the
+        // end of the line. At the end of the input there is no newline left to move past, so
+        // there is no next line
         let cursor = context.cursor_mut();
         let next_line_start = cursor.start_of_next_line();
         let next_eol = cursor
             .next_newline_from(next_line_start)
             .unwrap_or_else(|| cursor.end_of_file());
         let next_line = next_line_start..next_eol;
-        if cursor.at_end_of_line() && next_line.is_empty() {
+        let has_next_line = cursor.start() < next_line_start;
+        if has_next_line && cursor.at_end_of_line() && next_line.is_empty() {
             let span =
                 SourceSpan::from_range_unchecked(cursor.source_id, next_line_start..next_eol);
             // Move to the end of the empty line
-- 
2.43.0


From b220919b75cc47fd27538efc2892ec44c9445a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:45 +0000
Subject: [PATCH 20/47] fix: reject a number that does not meet its constraint

---
 .../src/pattern/matcher/matchers/smart/searcher.rs   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index d84fb7b..2d748fb 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -516,6 +516,18 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
                 let lhs = lhs.as_numeric(span, rhs.format, context)?;
                 if lhs.value != rhs.value {
                     self.captures.set_pattern(None);
+                    return Ok(MatchResult::failed(
+                        CheckFailedError::MatchFoundConstraintFailed {
+                            span: lhs.span(),
+                            input_file: context.input_file(),
+                            pattern: Some(RelatedCheckError {
+                                span,
+                                match_file: context.source_file(span.source_id()).unwrap(),
+                            }),
+                            error: None,
+                            help: Some(format!("expected {rhs}, but found {lhs}")),
+                        },
+                    ));
                 }
 
                 log::trace!(target: "smart:searcher", "constraint was applied successfully");
-- 
2.43.0


From c6ed73adb37f3f2f0cdf66b8e3c20c63945650fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:45 +0000
Subject: [PATCH 21/47] fix: match the value of a string variable literally

---
 filecheck/src/pattern/matcher/matchers/smart/searcher.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 2d748fb..56e52e2 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -578,7 +578,8 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
                 }
                 _ => format!("{num}"),
             }),
-            Right(s) => s,
+            // The value of a string variable is matched literally
+            Right(s) => Cow::Owned(::regex::escape(&s)),
         };
         log::trace!(target: "smart:searcher", "resolved substitution expression to pattern: '{pattern_source}'");
         let pattern = Regex::builder()
-- 
2.43.0


From 06c782e2e8d72495d05d2d9baa402d085669351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:45 +0000
Subject: [PATCH 22/47] fix: let a pattern with substitutions match at the end
 of the input

---
 .../src/pattern/matcher/matchers/smart/searcher.rs    | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 56e52e2..c4c541c 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -133,17 +133,6 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
         context: &mut ContextGuard<'_, 'input, 'context>,
     ) -> DiagResult<MatchResult<'input>> {
         for part in parts.iter() {
-            if self.cursor.is_empty() {
-                log::trace!(target: "smart:searcher", "no more input to consume: cannot match");
-                // No match possible
-                self.captures.set_pattern(None);
-                return Ok(MatchResult::failed(CheckFailedError::match_none(
-                    self.span,
-                    &self.input,
-                    context,
-                )));
-            }
-
             match part {
                 MatchOp::Constraint {
                     span,
-- 
2.43.0


From 487e2203338255f69e1a2fbcb94e9cff32a0942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:45 +0000
Subject: [PATCH 23/47] fix: find a match that overlaps with a failed attempt
 to match

---
 filecheck/src/pattern/matcher/matchers/smart/searcher.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index c4c541c..dcfeee9 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -86,6 +86,7 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
             Err(err) => return ControlFlow::Break(Err(err)),
         };
         if let Some(info) = result.info.as_ref() {
+            let attempt_started_at = info.span.start().to_usize();
             self.part_matched(info.span.into_slice_index());
             self.cursor.set_anchored(true);
 
@@ -110,10 +111,9 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
                 self.match_end,
                 result.ty
             );
-            // Reset the searcher, but start the next search where the cursor left off, but ensure
-            // that we advance the cursor at least one byte to avoid looping indefinitely
-            let search_stopped_at = self.match_end;
-            self.reset(core::cmp::max(search_stopped_at, search_started_at + 1));
+            // Reset the searcher, and start the next search one byte behind the start of the failed
+            // attempt, as the next match may overlap with the part that did match
+            self.reset(attempt_started_at + 1);
             if anchored {
                 self.captures.set_pattern(None);
                 return ControlFlow::Break(Ok(()));
-- 
2.43.0


From 52369a171783d99e82b44756660c6239be7ff366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:36 +0000
Subject: [PATCH 24/47] fix: stop searching when a match attempt fails at the
 end of the input

---
 filecheck/src/pattern/matcher/matchers/smart/searcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index dcfeee9..8548976 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -114,7 +114,7 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
             // Reset the searcher, and start the next search one byte behind the start of the failed
             // attempt, as the next match may overlap with the part that did match
             self.reset(attempt_started_at + 1);
-            if anchored {
+            if anchored || attempt_started_at >= self.input.end() {
                 self.captures.set_pattern(None);
                 return ControlFlow::Break(Ok(()));
             }
-- 
2.43.0


From 59dfa02cf080d7c5705049540ea1c32b0ef4536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 25/47] fix: keep scoped variables when one of several
 CHECK-DAG does not match

---
 filecheck/src/pattern/visitors/dynamic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/pattern/visitors/dynamic.rs b/filecheck/src/pattern/visitors/dynamic.rs
index 8fc7264..dad15d5 100644
--- a/filecheck/src/pattern/visitors/dynamic.rs
+++ b/filecheck/src/pattern/visitors/dynamic.rs
@@ -151,7 +151,8 @@ impl<'a, 'input, S: PatternSearcher<'input>> DynamicPatternSetVisitor<'a, S> {
                                 // Remember the most recent error for matched patterns that failed
                                 self.errors[pattern_offset] = Some(error);
                                 match_states.push(None);
-                                pattern_context.env_mut().clear();
+                                // Discard its bindings, but not those made by previous rules
+                                pattern_context.env_mut().take();
                             }
                         }
                     }
-- 
2.43.0


From fd7d38990a38dbb44181223a4f16aa78255b912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:44 +0000
Subject: [PATCH 26/47] fix: keep the alternatives of a regex block within the
 block

---
 filecheck/src/ast/pattern.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/ast/pattern.rs b/filecheck/src/ast/pattern.rs
index 351be77..71b0368 100644
--- a/filecheck/src/ast/pattern.rs
+++ b/filecheck/src/ast/pattern.rs
@@ -463,9 +463,13 @@ impl<'a> CheckPattern<'a> {
                             captures.append(part_captures);
                             if is_literal_mode {
                                 is_literal_mode = false;
-                                convert_to_regex(&mut pattern, part.len())
+                                convert_to_regex(&mut pattern, 4 + part.len())
                             }
+                            // Group the regex, so that its alternatives, if it has any, do not
+                            // extend to the parts which surround it
+                            pattern.push_str("(?:");
                             pattern.push_str(part.as_ref());
+                            pattern.push(')');
                         }
                         CheckPatternPart::Match(Match::Substitution {
                             pattern: Some(part),
-- 
2.43.0


From d3478c36ef4e043ef7e0850e599b15ff04e7b967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:13 +0000
Subject: [PATCH 27/47] fix: tell a literal CHECK-DAG from a regex with the
 same text

---
 filecheck/src/ast/pattern.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/ast/pattern.rs b/filecheck/src/ast/pattern.rs
index 71b0368..8e6612a 100644
--- a/filecheck/src/ast/pattern.rs
+++ b/filecheck/src/ast/pattern.rs
@@ -229,7 +229,12 @@ impl<'a> Ord for Prefix<'a> {
                 .unwrap()
                 .cmp(bp.inner().as_ref())
                 .then(Ordering::Less),
-            (a, b) => a.as_str().unwrap().cmp(b.as_str().unwrap()),
+            // The same text does not match the same input when only one of them is a regex
+            (a, b) => a
+                .as_str()
+                .unwrap()
+                .cmp(b.as_str().unwrap())
+                .then(matches!(a, Self::Regex(_)).cmp(&matches!(b, Self::Regex(_)))),
         }
     }
 }
-- 
2.43.0


From d182617ab1a76b7c485780ef80e020f53159081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:41 +0000
Subject: [PATCH 28/47] fix: print unsigned values of more than 64 bits in full

---
 filecheck/src/expr/num.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/expr/num.rs b/filecheck/src/expr/num.rs
index ab6a725..63c926d 100644
--- a/filecheck/src/expr/num.rs
+++ b/filecheck/src/expr/num.rs
@@ -293,9 +293,9 @@ impl fmt::Display for Number {
             }
         }
         match format {
-            NumberFormat::Unsigned { precision: 0 } => write!(f, "{}", value as u64),
+            NumberFormat::Unsigned { precision: 0 } => write!(f, "{}", value as u128),
             NumberFormat::Unsigned { .. } => {
-                write!(f, "{:0padding$}", value as u64)
+                write!(f, "{:0padding$}", value as u128)
             }
             NumberFormat::Signed { precision: 0 } => write!(f, "{value}"),
             NumberFormat::Signed { .. } => write!(f, "{value:0padding$}"),
-- 
2.43.0


From 97f9f6e24be5562a376e78439e08faf16521ab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:53 +0000
Subject: [PATCH 29/47] fix: report an expression which cannot be evaluated
 instead of panicking

---
 .../matcher/matchers/smart/searcher.rs        | 32 +++++++++++--------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 8548976..f298a4b 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -670,20 +670,26 @@ fn evaluate_expr<'input>(
                 (Left(l), Left(r)) => {
                     if let Some(format) = l.infer_expression_format(&r).or(explicit_format) {
                         let result = match op {
-                            BinaryOp::Add => l.value + r.value,
-                            BinaryOp::Sub => l.value - r.value,
-                            BinaryOp::Mul => l.value * r.value,
-                            BinaryOp::Div => l.value / r.value,
-                            BinaryOp::Min => core::cmp::min(l.value, r.value),
-                            BinaryOp::Max => core::cmp::max(l.value, r.value),
-                            BinaryOp::Eq => {
-                                if l.value == r.value {
-                                    1
-                                } else {
-                                    0
-                                }
-                            }
+                            BinaryOp::Add => l.value.checked_add(r.value),
+                            BinaryOp::Sub => l.value.checked_sub(r.value),
+                            BinaryOp::Mul => l.value.checked_mul(r.value),
+                            BinaryOp::Div => l.value.checked_div(r.value),
+                            BinaryOp::Min => Some(core::cmp::min(l.value, r.value)),
+                            BinaryOp::Max => Some(core::cmp::max(l.value, r.value)),
+                            BinaryOp::Eq => Some((l.value == r.value) as i128),
                         };
+                        let result = result.ok_or_else(|| {
+                            litcheck::diagnostics::diagnostic!(
+                                labels = vec![litcheck::diagnostics::LabeledSpan::new_with_span(
+                                    Some(format!(
+                                        "the operands are {} and {}",
+                                        l.value, r.value
+                                    )),
+                                    op_span,
+                                )],
+                                "unable to evaluate expression, its value is undefined or does not fit in 128 bits",
+                            )
+                        })?;
                         let format = if l.format.is_none()
                             && r.format.is_none()
                             && explicit_format.is_none()
-- 
2.43.0


From 2002c061f3979b66ccdda00518dd7dac4f5e8015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:35 +0000
Subject: [PATCH 30/47] fix: evaluate subtractions which follow one another
 from left to right

---
 filecheck/src/ast/mod.rs            | 22 ++++++++-
 filecheck/src/parse/grammar.lalrpop | 75 +++++++++++------------------
 2 files changed, 48 insertions(+), 49 deletions(-)

diff --git a/filecheck/src/ast/mod.rs b/filecheck/src/ast/mod.rs
index 78def52..4ab0dda 100644
--- a/filecheck/src/ast/mod.rs
+++ b/filecheck/src/ast/mod.rs
@@ -10,7 +10,10 @@ pub use self::pattern::{
     Capture, CheckPattern, CheckPatternPart, Constraint, Match, Prefix, RegexPattern,
 };
 
-use crate::expr::{BinaryOp, Expr, VariableName};
+use crate::{
+    common::*,
+    expr::{BinaryOp, Expr, VariableName},
+};
 
 pub(crate) struct ConstraintExpr {
     pub constraint: Constraint,
@@ -21,6 +24,23 @@ pub(crate) struct BinaryOpAndOperand {
     pub op: BinaryOp,
     pub operand: Box<Expr>,
 }
+impl BinaryOpAndOperand {
+    /// Apply the operators in `rest`, from left to right, starting with `first`
+    pub fn fold(first: Expr, rest: Vec<Self>) -> Expr {
+        rest.into_iter().fold(first, |lhs, Self { op, operand: rhs }| {
+            let start = lhs.span();
+            Expr::Binary {
+                span: SourceSpan::from_range_unchecked(
+                    start.source_id(),
+                    start.start().to_usize()..rhs.span().end().to_usize(),
+                ),
+                op,
+                lhs: Box::new(lhs),
+                rhs,
+            }
+        })
+    }
+}
 
 pub(crate) struct CaptureNumeric {
     pub name: Option<VariableName>,
diff --git a/filecheck/src/parse/grammar.lalrpop b/filecheck/src/parse/grammar.lalrpop
index b4b946a..4c0ca9b 100644
--- a/filecheck/src/parse/grammar.lalrpop
+++ b/filecheck/src/parse/grammar.lalrpop
@@ -3,7 +3,7 @@ use std::borrow::Cow;
 use either::Either;
 use either::Either::*;
 
-use crate::common::{Spanned, Span, Symbol, SourceId, symbols};
+use crate::common::{Span, Symbol, SourceId, symbols};
 use crate::ast::*;
 use crate::expr::*;
 use crate::parse::{LexerError, Token, ParserError, ParseError};
@@ -72,23 +72,17 @@ Comma<T>: Vec<T> = {
 
 pub Match: Match<'input> = {
     <l:@L> "[[" <name:LineVar> <expr:CaptureExprRest> "]]" <r:@R> => {
-        match expr {
-            Some(BinaryOpAndOperand { op, operand: rhs }) => {
-                let span = span!(source_id, l, r);
-                Match::Numeric {
-                    span,
-                    format: None,
-                    capture: None,
-                    constraint: Constraint::Eq,
-                    expr: Some(Expr::Binary {
-                        span,
-                        op,
-                        lhs: Box::new(Expr::Var(name)),
-                        rhs,
-                    }),
-                }
+        let span = span!(source_id, l, r);
+        if expr.is_empty() {
+            Match::Substitution { span, name, pattern: None }
+        } else {
+            Match::Numeric {
+                span,
+                format: None,
+                capture: None,
+                constraint: Constraint::Eq,
+                expr: Some(BinaryOpAndOperand::fold(Expr::Var(name), expr)),
             }
-            None => Match::Substitution { span: span!(source_id, l, r), name, pattern: None },
         }
     },
 
@@ -137,17 +131,7 @@ CaptureNumericOrExpr: CaptureNumericOrExpr = {
                 constraint: constraint.constraint,
                 expr: Some(constraint.expr)
             }),
-            Right(None) => CaptureNumericOrExpr::Expr(Expr::Var(var)),
-            Right(Some(BinaryOpAndOperand { op, operand: rhs })) => {
-                let rhs_span = rhs.span();
-                let end = rhs_span.end().to_usize();
-                CaptureNumericOrExpr::Expr(Expr::Binary {
-                    span: span!(source_id, l, end),
-                    op,
-                    lhs: Box::new(Expr::Var(var)),
-                    rhs,
-                })
-            }
+            Right(rest) => CaptureNumericOrExpr::Expr(BinaryOpAndOperand::fold(Expr::Var(var), rest)),
         }
     },
 
@@ -161,30 +145,25 @@ CaptureNumericOrExpr: CaptureNumericOrExpr = {
 
     Builtin => CaptureNumericOrExpr::Expr(<>),
 
-    <l:@L> "(" <lhs:Expr> ")" <rhs:CaptureExprRest> <r:@R> => {
-        match rhs {
-            None => CaptureNumericOrExpr::Expr(lhs),
-            Some(BinaryOpAndOperand { op, operand }) => {
-                CaptureNumericOrExpr::Expr(
-                    Expr::Binary {
-                        span: span!(source_id, l, r),
-                        op,
-                        lhs: Box::new(lhs),
-                        rhs: operand,
-                    }
-                )
-            }
-        }
-    }
+    <l:@L> "(" <lhs:Expr> ")" <rest:CaptureExprRest> => CaptureNumericOrExpr::Expr(BinaryOpAndOperand::fold(lhs, rest)),
 }
 
-CaptureExprRest: Option<BinaryOpAndOperand> = {
-    "+" <expr:Expr> => Some(BinaryOpAndOperand { op: BinaryOp::Add, operand: Box::new(expr) }),
-    "-" <expr:Expr> => Some(BinaryOpAndOperand { op: BinaryOp::Sub, operand: Box::new(expr) }),
-    => None,
+// The operators and operands which follow the first operand of an expression, left to right
+CaptureExprRest: Vec<BinaryOpAndOperand> = {
+    <rest:CaptureExprRest> "+" <expr:Subexpr> => {
+        let mut rest = rest;
+        rest.push(BinaryOpAndOperand { op: BinaryOp::Add, operand: Box::new(expr) });
+        rest
+    },
+    <rest:CaptureExprRest> "-" <expr:Subexpr> => {
+        let mut rest = rest;
+        rest.push(BinaryOpAndOperand { op: BinaryOp::Sub, operand: Box::new(expr) });
+        rest
+    },
+    => vec![],
 }
 
-EitherCaptureOrExpr: Either<Option<ConstraintExpr>, Option<BinaryOpAndOperand>> = {
+EitherCaptureOrExpr: Either<Option<ConstraintExpr>, Vec<BinaryOpAndOperand>> = {
     ":" <constraint:Constraint?> => Left(constraint),
     <CaptureExprRest> => Right(<>),
 }
-- 
2.43.0


From 361abb805da7e1322a81acf3b0fe8faeef50c096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:45 +0000
Subject: [PATCH 31/47] fix: take the precision of a numeric variable as its
 least number of digits

---
 .../src/pattern/matcher/matchers/smart/operand.rs      | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/operand.rs b/filecheck/src/pattern/matcher/matchers/smart/operand.rs
index 6bb5da5..f3e388e 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/operand.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/operand.rs
@@ -72,10 +72,11 @@ impl<'input> Operand<'input> {
                         } else {
                             value.trim()
                         };
-                        if value.len() > precision as usize {
+                        // The precision is the least number of digits
+                        if value.len() < precision as usize {
                             return Err(InvalidNumericCastError {
                                 span: Some(span),
-                                kind: std::num::IntErrorKind::PosOverflow,
+                                kind: std::num::IntErrorKind::InvalidDigit,
                                 specific_span: None,
                                 match_file: context.source_file(span.source_id()).unwrap(),
                             });
@@ -117,10 +118,11 @@ fn parse_number(
 ) -> Result<i128, InvalidNumericCastError> {
     let precision = precision as usize;
     let value = if precision > 0 {
-        if value.len() > precision {
+        // The precision is the least number of digits
+        if value.len() < precision {
             return Err(InvalidNumericCastError {
                 span: Some(span),
-                kind: std::num::IntErrorKind::PosOverflow,
+                kind: std::num::IntErrorKind::InvalidDigit,
                 specific_span: None,
                 match_file: context.source_file(span.source_id()).unwrap(),
             });
-- 
2.43.0


From 6e5246d6ad495617d4e7144f0de7bfccd82231f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:52 +0000
Subject: [PATCH 32/47] fix: search on after each match of a set of patterns
 with variables

---
 filecheck/src/pattern/search/pattern_set.rs | 75 +++++++++------------
 1 file changed, 33 insertions(+), 42 deletions(-)

diff --git a/filecheck/src/pattern/search/pattern_set.rs b/filecheck/src/pattern/search/pattern_set.rs
index 825d185..e78b8b3 100644
--- a/filecheck/src/pattern/search/pattern_set.rs
+++ b/filecheck/src/pattern/search/pattern_set.rs
@@ -16,10 +16,8 @@ pub struct PatternSetSearcher<'a, 'patterns, 'input> {
     /// The buffer of pending pattern matches
     ///
     /// Each time a search is performed, we locate the next match
-    /// for all patterns, place them into this buffer, and sort by
-    /// the start position of each match. We then pop matches from
-    /// the buffer until no more remain, at which point we locate
-    /// the next set of matches.
+    /// for all patterns which have none in this buffer, sort them
+    /// by the start position of each match, and pop the first.
     found: VecDeque<MatchResult<'input>>,
 }
 impl<'a, 'patterns, 'input> PatternSetSearcher<'a, 'patterns, 'input> {
@@ -27,7 +25,7 @@ impl<'a, 'patterns, 'input> PatternSetSearcher<'a, 'patterns, 'input> {
         let num_patterns = patterns.len();
         let excluded_chunks = (num_patterns / 64) + (!num_patterns.is_multiple_of(64) as usize);
         let excluded = smallvec![0; excluded_chunks];
-        let next_starts = vec![0; num_patterns];
+        let next_starts = vec![input.start(); num_patterns];
 
         Ok(Self {
             searched: input.bounds(),
@@ -95,21 +93,22 @@ impl<'a, 'patterns, 'input> PatternSearcher<'input> for PatternSetSearcher<'a, '
     where
         C: Context<'input, 'context> + ?Sized,
     {
-        if let Some(mr) = self.found.pop_front() {
-            if let Some(range) = mr.matched_range() {
-                let last_end = self.last_match_end.get_or_insert(range.end);
-                *last_end = core::cmp::max(*last_end, range.end);
-            }
-            return Ok(mr);
-        }
-
-        let mut next_start = self.input.start();
+        // Locate the next match of each pattern which has none pending
         for (pattern_id, pattern) in self.patterns.iter().enumerate() {
             let excluded_chunk = pattern_id / 64;
             let excluded_bit = 1 << (pattern_id % 64);
             let is_excluded = self.excluded[excluded_chunk] & excluded_bit == excluded_bit;
+            let is_pending = self
+                .found
+                .iter()
+                .any(|mr| matches!(mr.info, Some(ref info) if info.pattern_id == pattern_id));
 
-            if is_excluded {
+            if is_excluded || is_pending {
+                continue;
+            }
+
+            if self.next_starts[pattern_id] > self.input.end() {
+                self.excluded[excluded_chunk] |= excluded_bit;
                 continue;
             }
 
@@ -117,19 +116,17 @@ impl<'a, 'patterns, 'input> PatternSearcher<'input> for PatternSetSearcher<'a, '
             input.set_start(self.next_starts[pattern_id]);
 
             let mut guard = context.protect();
-            match pattern.try_match_mut(self.input, &mut guard)? {
+            match pattern.try_match_mut(input, &mut guard)? {
                 MatchResult {
                     info: Some(mut info),
                     ty,
                 } if ty.is_ok() => {
                     let end = info.span.end().to_usize();
-                    next_start = core::cmp::min(end, next_start);
-                    self.next_starts[pattern_id] =
-                        if info.span.is_empty() && Some(end) == self.last_match_end {
-                            end.saturating_add(1)
-                        } else {
-                            end
-                        };
+                    self.next_starts[pattern_id] = if info.span.is_empty() {
+                        end.saturating_add(1)
+                    } else {
+                        end
+                    };
                     info.pattern_id = pattern_id;
                     self.found.push_back(MatchResult {
                         info: Some(info),
@@ -147,13 +144,11 @@ impl<'a, 'patterns, 'input> PatternSearcher<'input> for PatternSetSearcher<'a, '
                 } => {
                     // This is an error that we are going to return before other valid matches.
                     let end = info.span.end().to_usize();
-                    next_start = core::cmp::min(end, next_start);
-                    self.next_starts[pattern_id] =
-                        if info.span.is_empty() && Some(end) == self.last_match_end {
-                            end.saturating_add(1)
-                        } else {
-                            end
-                        };
+                    self.next_starts[pattern_id] = if info.span.is_empty() {
+                        end.saturating_add(1)
+                    } else {
+                        end
+                    };
                     info.pattern_id = pattern_id;
                     self.found.push_back(MatchResult {
                         info: Some(info),
@@ -163,10 +158,7 @@ impl<'a, 'patterns, 'input> PatternSearcher<'input> for PatternSetSearcher<'a, '
             }
         }
 
-        // Set the input next start to the smallest end match
-        self.input.set_start(next_start);
-
-        // Sort the matches, errors first, then leftmost-longest (by span length, then by span start, then by pattern id)
+        // Sort the matches, errors first, then leftmost-longest (by span start, then by span length, then by pattern id)
         let found = self.found.make_contiguous();
         found.sort_unstable_by(|a, b| match (a, b) {
             (
@@ -180,9 +172,9 @@ impl<'a, 'patterns, 'input> PatternSearcher<'input> for PatternSetSearcher<'a, '
                 },
             ) => info1
                 .span
-                .len()
-                .cmp(&info2.span.len())
-                .then_with(|| info1.span.start().cmp(&info2.span.start()))
+                .start()
+                .cmp(&info2.span.start())
+                .then_with(|| info2.span.len().cmp(&info1.span.len()))
                 .then_with(|| info1.pattern_id.cmp(&info2.pattern_id)),
             (
                 MatchResult {
@@ -207,9 +199,9 @@ impl<'a, 'patterns, 'input> PatternSearcher<'input> for PatternSetSearcher<'a, '
                 },
             ) => info1
                 .span
-                .len()
-                .cmp(&info2.span.len())
-                .then_with(|| info1.span.start().cmp(&info2.span.start()))
+                .start()
+                .cmp(&info2.span.start())
+                .then_with(|| info2.span.len().cmp(&info1.span.len()))
                 .then_with(|| info1.pattern_id.cmp(&info2.pattern_id)),
             _ => unreachable!(),
         });
@@ -218,8 +210,7 @@ impl<'a, 'patterns, 'input> PatternSearcher<'input> for PatternSetSearcher<'a, '
         match self.found.pop_front() {
             Some(found) => {
                 if let Some(range) = found.matched_range() {
-                    let last_end = self.last_match_end.get_or_insert(range.end);
-                    *last_end = core::cmp::max(*last_end, range.end);
+                    self.last_match_end = Some(range.end);
                 }
                 Ok(found)
             }
-- 
2.43.0


From 3ca15e09d3f3de7cf044df2cbe695babdfb4b8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:52 +0000
Subject: [PATCH 33/47] fix: build literal matchers for anchored searches too

---
 filecheck/src/pattern/matcher/matchers/substring.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/pattern/matcher/matchers/substring.rs b/filecheck/src/pattern/matcher/matchers/substring.rs
index f24f648..a4f1703 100644
--- a/filecheck/src/pattern/matcher/matchers/substring.rs
+++ b/filecheck/src/pattern/matcher/matchers/substring.rs
@@ -26,7 +26,7 @@ impl<'a> fmt::Debug for SubstringMatcher<'a> {
 impl<'a> SubstringMatcher<'a> {
     /// Construct a new matcher from a given string
     pub fn new(pattern: Span<Cow<'a, str>>, config: &Config) -> DiagResult<Self> {
-        Self::new_with_start_kind(pattern, StartKind::Unanchored, config)
+        Self::new_with_start_kind(pattern, StartKind::Both, config)
     }
 
     pub fn new_with_start_kind(
-- 
2.43.0


From 345c9b80723d5bed47f734440f33f07d9ada27b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:34 +0000
Subject: [PATCH 34/47] fix: let a CHECK-DAG match start where its prefix does

---
 filecheck/src/pattern/visitors/dynamic.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/pattern/visitors/dynamic.rs b/filecheck/src/pattern/visitors/dynamic.rs
index dad15d5..9e476ea 100644
--- a/filecheck/src/pattern/visitors/dynamic.rs
+++ b/filecheck/src/pattern/visitors/dynamic.rs
@@ -120,7 +120,7 @@ impl<'a, 'input, S: PatternSearcher<'input>> DynamicPatternSetVisitor<'a, S> {
             match self.next_prefix(&mut prefix_context)? {
                 // We found a match for the prefix
                 ControlFlow::Continue(prefix_id) => {
-                    let prefix_id = prefix_id.into_inner();
+                    let (prefix_span, prefix_id) = prefix_id.into_parts();
                     // Add an temporary binding scope which will be merged into
                     // the overall match bindings if we find a match at this location
                     let mut pattern_context = prefix_context.protect();
@@ -139,8 +139,13 @@ impl<'a, 'input, S: PatternSearcher<'input>> DynamicPatternSetVisitor<'a, S> {
                         let pattern_offset = self.prefix_pattern_offsets[prefix_id] + index;
                         match self.match_pattern(pattern, &mut pattern_context)? {
                             // A match was successful
-                            Ok(info) => {
+                            Ok(mut info) => {
                                 self.errors[pattern_offset] = None;
+                                // The match starts where its prefix does
+                                info.span = SourceSpan::new(
+                                    info.span.source_id(),
+                                    Range::new(prefix_span.start(), info.span.end()),
+                                );
                                 match_states.push(Some(MatchState {
                                     info,
                                     bindings: pattern_context.env_mut().take(),
-- 
2.43.0


From 8ed7a3cdc87c1ff9f9cae39e104fafbd5aa60fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:54 +0000
Subject: [PATCH 35/47] fix: keep white space at the ends of a regex block

---
 filecheck/src/parse/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index 1a2e308..ce9d8a4 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -532,7 +532,7 @@ impl<'input> Lexer<'input> {
                     last_delimiter_end = delim_range.end;
                     let regex_start = in_regex.take().unwrap();
                     let pattern_start = regex_start.span().end().to_usize();
-                    let raw = self.input.as_str(pattern_start..delim_range.start).trim();
+                    let raw = self.input.as_str(pattern_start..delim_range.start);
                     self.buffer
                         .push_back(Ok((pattern_start, Token::Raw(raw), delim_range.start)));
                     self.buffer.push_back(Ok((
-- 
2.43.0


From bc64c179f0ad04194dc5cb6e4d3452a304dee22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:07 +0000
Subject: [PATCH 36/47] fix: match each regex of a set as it would be on its
 own

A set of regular expressions reported the shortest of all overlapping
matches first, so that variables captured in CHECK-DAG groups were
bound to one character of what they match.
---
 .../src/pattern/matcher/matchers/regex_set.rs | 612 ++++--------------
 1 file changed, 116 insertions(+), 496 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/regex_set.rs b/filecheck/src/pattern/matcher/matchers/regex_set.rs
index 700b74e..cea8624 100644
--- a/filecheck/src/pattern/matcher/matchers/regex_set.rs
+++ b/filecheck/src/pattern/matcher/matchers/regex_set.rs
@@ -1,290 +1,72 @@
-use regex_automata::{
-    Anchored, MatchKind, PatternID,
-    dfa::{self, Automaton, OverlappingState, StartKind, dense, onepass},
-    meta,
-    nfa::thompson,
-    util::{
-        captures::{Captures, GroupInfo},
-        syntax,
-    },
-};
-
 use crate::{
-    ast::{Capture, RegexPattern},
+    ast::RegexPattern,
     common::*,
-    pattern::{matcher::regex, search::Input as _},
+    pattern::matcher::RegexMatcher,
 };
 
-#[derive(Default, Clone)]
-#[allow(clippy::large_enum_variant)]
-pub enum CapturingRegex {
-    #[default]
-    None,
-    Onepass {
-        re: onepass::DFA,
-        cache: onepass::Cache,
-    },
-    Default {
-        re: meta::Regex,
-        cache: meta::Cache,
-    },
-}
-
-struct Search<'input> {
-    crlf: bool,
-    forward: bool,
-    input: regex_automata::Input<'input>,
-    reverse_input: regex_automata::Input<'input>,
+/// This searcher visits the matches of a set of regular expressions, ordered by where in the
+/// input they start.
+///
+/// Each pattern is searched for on its own, i.e. its matches are those which would be found if
+/// it was the only pattern in the set, regardless of what the other patterns match.
+pub struct RegexSetSearcher<'a, 'patterns, 'input> {
+    input: Input<'input>,
+    /// The bounds of `input` as originally given, before the search advanced through it
+    searched: Range<usize>,
     last_match_end: Option<usize>,
-    captures: Captures,
-    overlapping: OverlappingState,
-    overlapping_reverse: OverlappingState,
-}
-impl<'input> Search<'input> {
-    fn start(input: Input<'input>, captures: Captures) -> Self {
-        let crlf = input.is_crlf();
-        let input: regex_automata::Input<'input> = input.into();
-        let reverse_input = input.clone().earliest(false);
-        let overlapping = OverlappingState::start();
-        let overlapping_reverse = OverlappingState::start();
+    /// The set of patterns being searched for
+    patterns: &'patterns [RegexMatcher<'a>],
+    /// Where to search for the next match of each pattern, or `None` if it has no more of them
+    next_starts: Vec<Option<usize>>,
+    /// The next match of each pattern, once found
+    found: Vec<Option<MatchInfo<'input>>>,
+}
+impl<'a, 'patterns, 'input> RegexSetSearcher<'a, 'patterns, 'input> {
+    pub fn new(input: Input<'input>, patterns: &'patterns [RegexMatcher<'a>]) -> Self {
+        let mut found = Vec::with_capacity(patterns.len());
+        found.resize_with(patterns.len(), || None);
         Self {
-            crlf,
-            forward: true,
             input,
-            reverse_input,
+            searched: input.bounds(),
             last_match_end: None,
-            overlapping,
-            overlapping_reverse,
-            captures,
+            patterns,
+            next_starts: vec![Some(input.start()); patterns.len()],
+            found,
         }
     }
 }
-
-pub struct RegexSetSearcher<'a, 'input, A = dense::DFA<Vec<u32>>> {
-    search: Search<'input>,
-    /// The set of raw input patterns from which
-    /// this matcher was constructed
-    patterns: Vec<Span<Cow<'a, str>>>,
-    /// The compiled regex which will be used to search the input buffer
-    regex: dfa::regex::Regex<A>,
-    /// The regex used to obtain capturing groups, if there are any
-    capturing_regex: CapturingRegex,
-    /// Metadata about captures in the given patterns
-    ///
-    /// Each pattern gets its own vector of capture info, since
-    /// there is no requirement that all patterns have the same
-    /// number or type of captures
-    capture_types: Vec<Vec<Capture>>,
-    /// The bounds of the input as originally given, before the search advanced through it
-    searched: Range<usize>,
-}
-impl<'a, 'input> RegexSetSearcher<'a, 'input> {
-    pub fn new(
-        input: Input<'input>,
-        patterns: Vec<RegexPattern<'a>>,
-        config: &Config,
-    ) -> DiagResult<Self> {
-        let start_kind = if input.is_anchored() {
-            StartKind::Anchored
-        } else {
-            StartKind::Unanchored
-        };
-        Ok(
-            RegexSetMatcher::new_with_start_kind(start_kind, patterns, config)?
-                .into_searcher(input),
-        )
-    }
-}
-impl<'a, 'input, A: Automaton> RegexSetSearcher<'a, 'input, A> {
-    pub fn from_matcher(matcher: RegexSetMatcher<'a, A>, input: Input<'input>) -> Self {
-        let captures = matcher.captures;
-        let searched = input.bounds();
-        let search = Search::start(input, captures);
-        Self {
-            search,
-            patterns: matcher.patterns,
-            regex: matcher.regex,
-            capturing_regex: matcher.capturing_regex,
-            capture_types: matcher.capture_types,
-            searched,
-        }
-    }
-}
-
-impl<'a, 'input, A: Automaton + Clone> RegexSetSearcher<'a, 'input, A> {
-    pub fn from_matcher_ref(matcher: &RegexSetMatcher<'a, A>, input: Input<'input>) -> Self {
-        let captures = matcher.captures.clone();
-        let searched = input.bounds();
-        let search = Search::start(input, captures);
-        Self {
-            search,
-            patterns: matcher.patterns.clone(),
-            regex: matcher.regex.clone(),
-            capturing_regex: matcher.capturing_regex.clone(),
-            capture_types: matcher.capture_types.clone(),
-            searched,
-        }
-    }
-}
-impl<'a, 'input, A> fmt::Debug for RegexSetSearcher<'a, 'input, A> {
+impl<'a, 'patterns, 'input> fmt::Debug for RegexSetSearcher<'a, 'patterns, 'input> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         f.debug_struct("RegexSetSearcher")
             .field("patterns", &self.patterns)
-            .field("capture_types", &self.search.captures)
-            .field("crlf", &self.search.crlf)
-            .field("forward", &self.search.forward)
-            .field("last_match_end", &self.search.last_match_end)
+            .field("next_starts", &self.next_starts)
+            .field("last_match_end", &self.last_match_end)
             .finish()
     }
 }
-impl<'a, 'input, A> Spanned for RegexSetSearcher<'a, 'input, A> {
+impl<'a, 'patterns, 'input> Spanned for RegexSetSearcher<'a, 'patterns, 'input> {
     fn span(&self) -> SourceSpan {
-        let start = self
-            .patterns
-            .iter()
-            .map(|p| p.span())
-            .min_by_key(|span| span.start())
-            .unwrap();
-        let end = self
-            .patterns
-            .iter()
-            .map(|p| p.span())
-            .max_by_key(|span| span.end())
-            .unwrap();
-        SourceSpan::from_range_unchecked(
-            start.source_id(),
-            start.start().to_usize()..end.end().to_usize(),
-        )
+        span_of(self.patterns)
     }
 }
 
-pub struct RegexSetMatcher<'a, A = dense::DFA<Vec<u32>>> {
-    /// The set of raw input patterns from which
-    /// this matcher was constructed
-    patterns: Vec<Span<Cow<'a, str>>>,
-    /// The compiled regex which will be used to search the input buffer
-    regex: dfa::regex::Regex<A>,
-    /// The regex used to obtain capturing groups, if there are any
-    capturing_regex: CapturingRegex,
-    /// Captures storage
-    captures: Captures,
-    /// Metadata about captures in the given patterns
-    ///
-    /// Each pattern gets its own vector of capture info, since
-    /// there is no requirement that all patterns have the same
-    /// number or type of captures
-    capture_types: Vec<Vec<Capture>>,
+pub struct RegexSetMatcher<'a> {
+    patterns: Vec<RegexMatcher<'a>>,
 }
 impl<'a> RegexSetMatcher<'a> {
     pub fn new(patterns: Vec<RegexPattern<'a>>, config: &Config) -> DiagResult<Self> {
-        Self::new_with_start_kind(StartKind::Both, patterns, config)
+        let patterns = patterns
+            .into_iter()
+            .map(|pattern| RegexMatcher::new(pattern, config))
+            .collect::<DiagResult<Vec<_>>>()?;
+        Ok(Self { patterns })
     }
 
-    pub fn new_with_start_kind(
-        start_kind: StartKind,
-        patterns: Vec<RegexPattern<'a>>,
-        config: &Config,
-    ) -> DiagResult<Self> {
-        let regex = dfa::regex::Regex::builder()
-            .dense(
-                dense::Config::new()
-                    .match_kind(MatchKind::All)
-                    .start_kind(start_kind)
-                    .starts_for_each_pattern(true),
-            )
-            .syntax(
-                syntax::Config::new()
-                    .multi_line(true)
-                    .case_insensitive(config.options.ignore_case),
-            )
-            .build_many(&patterns)
-            .map_err(|error| {
-                regex::build_error_to_diagnostic(error, patterns.len(), |id| patterns[id].span())
-            })?;
-
-        let has_captures = patterns.iter().any(|p| !p.captures.is_empty());
-        let (capturing_regex, captures) = if !has_captures {
-            (CapturingRegex::None, Captures::empty(GroupInfo::empty()))
-        } else {
-            onepass::DFA::builder()
-                .syntax(
-                    syntax::Config::new()
-                        .utf8(false)
-                        .multi_line(true)
-                        .case_insensitive(config.options.ignore_case),
-                )
-                .thompson(thompson::Config::new().utf8(false))
-                .configure(onepass::Config::new().starts_for_each_pattern(true))
-                .build_many(&patterns)
-                .map_or_else(
-                    |_| {
-                        let re = Regex::builder()
-                            .configure(Regex::config().match_kind(MatchKind::All))
-                            .syntax(
-                                syntax::Config::new()
-                                    .multi_line(true)
-                                    .case_insensitive(config.options.ignore_case),
-                            )
-                            .build_many(&patterns)
-                            .unwrap();
-                        let cache = re.create_cache();
-                        let captures = re.create_captures();
-                        (CapturingRegex::Default { re, cache }, captures)
-                    },
-                    |re| {
-                        let cache = re.create_cache();
-                        let captures = re.create_captures();
-                        (CapturingRegex::Onepass { re, cache }, captures)
-                    },
-                )
-        };
-
-        // Compute capture group information
-        let mut capture_types = vec![vec![]; patterns.len()];
-        let mut strings = Vec::with_capacity(patterns.len());
-        let groups = captures.group_info();
-        for (
-            i,
-            RegexPattern {
-                pattern,
-                captures: pattern_captures,
-            },
-        ) in patterns.into_iter().enumerate()
-        {
-            let span = pattern.span();
-            strings.push(pattern);
-            let pid = PatternID::new_unchecked(i);
-            let num_captures = groups.group_len(pid);
-            capture_types[i].resize(num_captures, Capture::Ignore(span));
-            for capture in pattern_captures.into_iter() {
-                if let Capture::Ignore(_) = capture {
-                    continue;
-                }
-                if let Some(group_name) = capture.group_name() {
-                    let group_id = groups
-                        .to_index(pid, group_name.as_str())
-                        .unwrap_or_else(|| {
-                            panic!("expected group for capture of '{group_name}' in pattern {i}")
-                        });
-                    capture_types[i][group_id] = capture;
-                } else {
-                    assert_eq!(
-                        &capture_types[i][0],
-                        &Capture::Ignore(span),
-                        "{capture:?} would overwrite a previous implicit capture group in pattern {i}"
-                    );
-                    capture_types[i][0] = capture;
-                }
-            }
-        }
-
-        Ok(Self {
-            patterns: strings,
-            regex,
-            capturing_regex,
-            captures,
-            capture_types,
-        })
+    pub fn search<'patterns, 'input>(
+        &'patterns self,
+        input: Input<'input>,
+    ) -> RegexSetSearcher<'a, 'patterns, 'input> {
+        RegexSetSearcher::new(input, &self.patterns)
     }
 
     pub fn patterns_len(&self) -> usize {
@@ -304,47 +86,19 @@ impl<'a> RegexSetMatcher<'a> {
         self.first_pattern().span()
     }
 }
-impl<'a, A: Automaton + Clone> RegexSetMatcher<'a, A> {
-    pub fn search<'input>(&self, input: Input<'input>) -> RegexSetSearcher<'a, 'input, A> {
-        RegexSetSearcher::from_matcher_ref(self, input)
-    }
-}
-impl<'a, A: Automaton> RegexSetMatcher<'a, A> {
-    #[inline]
-    pub fn into_searcher<'input>(self, input: Input<'input>) -> RegexSetSearcher<'a, 'input, A> {
-        RegexSetSearcher::from_matcher(self, input)
-    }
-}
-impl<'a, A> fmt::Debug for RegexSetMatcher<'a, A> {
+impl<'a> fmt::Debug for RegexSetMatcher<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         f.debug_struct("RegexSetMatcher")
             .field("patterns", &self.patterns)
-            .field("captures", &self.captures)
-            .field("capture_types", &self.capture_types)
             .finish()
     }
 }
-impl<'a, A> Spanned for RegexSetMatcher<'a, A> {
+impl<'a> Spanned for RegexSetMatcher<'a> {
     fn span(&self) -> SourceSpan {
-        let start = self
-            .patterns
-            .iter()
-            .map(|p| p.span())
-            .min_by_key(|span| span.start())
-            .unwrap();
-        let end = self
-            .patterns
-            .iter()
-            .map(|p| p.span())
-            .max_by_key(|span| span.end())
-            .unwrap();
-        SourceSpan::from_range_unchecked(
-            start.source_id(),
-            start.start().to_usize()..end.end().to_usize(),
-        )
+        span_of(&self.patterns)
     }
 }
-impl<'a, A: Automaton + Clone> MatcherMut for RegexSetMatcher<'a, A> {
+impl<'a> MatcherMut for RegexSetMatcher<'a> {
     fn try_match_mut<'input, 'context, C>(
         &self,
         input: Input<'input>,
@@ -359,240 +113,106 @@ impl<'a, A: Automaton + Clone> MatcherMut for RegexSetMatcher<'a, A> {
         Ok(matched)
     }
 }
-impl<'a, 'input, A> PatternSearcher<'input> for RegexSetSearcher<'a, 'input, A>
-where
-    A: Automaton,
-{
-    type Input = regex_automata::Input<'input>;
-    type PatternID = PatternID;
+impl<'a, 'patterns, 'input> PatternSearcher<'input> for RegexSetSearcher<'a, 'patterns, 'input> {
+    type Input = Input<'input>;
+    type PatternID = usize;
 
     fn input(&self) -> &Self::Input {
-        &self.search.input
+        &self.input
     }
     fn searched(&self) -> Range<usize> {
         self.searched
     }
     fn last_match_end(&self) -> Option<usize> {
-        self.search.last_match_end
+        self.last_match_end
     }
     fn set_last_match_end(&mut self, end: usize) {
-        self.search.last_match_end = Some(end);
-        self.search.input.set_start(end);
+        self.last_match_end = Some(end);
+        self.input.set_start(end);
+        self.next_starts.fill(Some(end));
+        self.found.fill_with(|| None);
     }
     fn patterns_len(&self) -> usize {
         self.patterns.len()
     }
     fn pattern_span(&self, id: Self::PatternID) -> SourceSpan {
-        self.patterns[id.as_usize()].span()
+        self.patterns[id].span()
     }
     fn try_match_next<'context, C>(&mut self, context: &mut C) -> DiagResult<MatchResult<'input>>
     where
         C: Context<'input, 'context> + ?Sized,
     {
-        let (fwd_dfa, rev_dfa) = (self.regex.forward(), self.regex.reverse());
-        let matched;
-        let mut last_end = self
-            .search
-            .last_match_end
-            .unwrap_or(self.search.input.start());
-        loop {
-            if self.search.forward {
-                if let Some((pattern_id, end)) = {
-                    fwd_dfa
-                        .try_search_overlapping_fwd(
-                            &self.search.input,
-                            &mut self.search.overlapping,
-                        )
-                        .expect("match error");
-                    self.search
-                        .overlapping
-                        .get_match()
-                        .map(|hm| (hm.pattern(), hm.offset()))
-                } {
-                    last_end = end;
-                    self.search
-                        .reverse_input
-                        .set_anchored(Anchored::Pattern(pattern_id));
-                    self.search
-                        .reverse_input
-                        .set_range(self.search.input.start()..end);
-                    self.search.forward = false;
-                    self.search.overlapping_reverse = OverlappingState::start();
-                    continue;
-                } else {
-                    matched = None;
-                    break;
-                }
-            } else if let Some((pattern_id, start)) = {
-                rev_dfa
-                    .try_search_overlapping_rev(
-                        &self.search.reverse_input,
-                        &mut self.search.overlapping_reverse,
-                    )
-                    .expect("match error");
-                self.search
-                    .overlapping_reverse
-                    .get_match()
-                    .map(|hm| (hm.pattern(), hm.offset()))
-            } {
-                if start == last_end && !self.search.input.is_char_boundary(last_end) {
-                    continue;
-                }
-                self.search.last_match_end = Some(last_end);
-                matched = Some(regex_automata::Match::new(pattern_id, start..last_end));
-                break;
-            } else {
-                self.search.forward = true;
+        // Locate the next match of each pattern which has none pending
+        for (pattern_id, pattern) in self.patterns.iter().enumerate() {
+            if self.found[pattern_id].is_some() {
+                continue;
+            }
+            let Some(start) = self.next_starts[pattern_id].take() else {
+                continue;
+            };
+            if start > self.input.end() {
+                continue;
             }
-        }
 
-        if let Some(matched) = matched {
-            self.search.captures.clear();
-            let pattern_id = matched.pattern();
-            match self.capturing_regex {
-                CapturingRegex::None => {
-                    let overall_span = SourceSpan::from_range_unchecked(
-                        self.search.input.source_id(),
-                        matched.range(),
-                    );
-                    let pattern_index = pattern_id.as_usize();
-                    let pattern_span = self.patterns[pattern_index].span();
-                    Ok(MatchResult::ok(MatchInfo {
-                        span: overall_span,
-                        pattern_span,
-                        pattern_id: pattern_index,
-                        captures: vec![],
-                    }))
-                }
-                CapturingRegex::Default {
-                    ref re,
-                    ref mut cache,
-                } => {
-                    let input = self
-                        .search
-                        .input
-                        .clone()
-                        .anchored(Anchored::Pattern(pattern_id))
-                        .range(matched.range());
-                    re.search_captures_with(cache, &input, &mut self.search.captures);
-                    if let Some(matched) = self.search.captures.get_match() {
-                        extract_captures_from_match(
-                            matched,
-                            &self.search,
-                            &self.patterns,
-                            &self.capture_types,
-                            context,
-                        )
-                    } else {
-                        let span = SourceSpan::from_range_unchecked(
-                            self.search.input.source_id(),
-                            matched.range(),
-                        );
-                        let pattern_span = self.patterns[pattern_id.as_usize()].span();
-                        let error = CheckFailedError::MatchError {
-                            span,
-                            input_file: context.input_file(),
-                            labels: vec![RelatedLabel::note(Label::at(pattern_span), context.source_file(pattern_span.source_id()).unwrap())],
-                            help: Some("meta regex searcher failed to match the input even though an initial DFA pass found a match".to_string()),
-                        };
-                        Err(Report::new(error))
-                    }
-                }
-                CapturingRegex::Onepass {
-                    ref re,
-                    ref mut cache,
+            let mut input = self.input;
+            input.set_start(start);
+            match pattern.try_match(input, context)? {
+                MatchResult {
+                    info: Some(mut info),
+                    ..
                 } => {
-                    let input = self
-                        .search
-                        .input
-                        .clone()
-                        .anchored(Anchored::Pattern(pattern_id))
-                        .range(matched.range());
-                    re.captures(cache, input, &mut self.search.captures);
-                    if let Some(matched) = self.search.captures.get_match() {
-                        extract_captures_from_match(
-                            matched,
-                            &self.search,
-                            &self.patterns,
-                            &self.capture_types,
-                            context,
-                        )
+                    let end = info.span.end().to_usize();
+                    self.next_starts[pattern_id] = Some(if info.span.is_empty() {
+                        end.saturating_add(1)
                     } else {
-                        let span = SourceSpan::from_range_unchecked(
-                            self.search.input.source_id(),
-                            matched.range(),
-                        );
-                        let pattern_span = self.patterns[pattern_id.as_usize()].span();
-                        let error = CheckFailedError::MatchError {
-                            span,
-                            input_file: context.input_file(),
-                            labels: vec![RelatedLabel::note(Label::at(pattern_span), context.source_file(pattern_span.source_id()).unwrap())],
-                            help: Some("onepass regex searcher failed to match the input even though an initial DFA pass found a match".to_string()),
-                        };
-                        Err(Report::new(error))
-                    }
+                        end
+                    });
+                    info.pattern_id = pattern_id;
+                    self.found[pattern_id] = Some(info);
                 }
+                MatchResult {
+                    ty: MatchType::Failed(CheckFailedError::MatchNoneButExpected { .. }),
+                    ..
+                } => continue,
+                // The pattern matched, but its captures are not what they should be
+                result => return Ok(result),
             }
-        } else {
-            Ok(MatchResult::failed(CheckFailedError::match_none(
+        }
+
+        // Return the match that starts first, or the longest of those
+        let next = self
+            .found
+            .iter()
+            .flatten()
+            .min_by_key(|info| (info.span.start(), core::cmp::Reverse(info.span.end())))
+            .map(|info| info.pattern_id);
+        match next.and_then(|pattern_id| self.found[pattern_id].take()) {
+            Some(info) => {
+                self.last_match_end = Some(info.span.end().to_usize());
+                Ok(MatchResult::ok(info))
+            }
+            None => Ok(MatchResult::failed(CheckFailedError::match_none(
                 self.span(),
                 &context.search_range(self.searched),
                 context,
-            )))
+            ))),
         }
     }
 }
 
-fn extract_captures_from_match<'a, 'input, 'context, C>(
-    matched: regex_automata::Match,
-    search: &Search<'_>,
-    patterns: &[Span<Cow<'a, str>>],
-    capture_types: &[Vec<Capture>],
-    context: &C,
-) -> DiagResult<MatchResult<'input>>
-where
-    C: Context<'input, 'context> + ?Sized,
-{
-    let pattern_id = matched.pattern();
-    let pattern_index = pattern_id.as_usize();
-    let pattern_span = patterns[pattern_index].span();
-    let overall_span = SourceSpan::from_range_unchecked(search.input.source_id(), matched.range());
-    let mut capture_infos = Vec::with_capacity(search.captures.group_len());
-    for (index, (maybe_capture_span, capture)) in search
-        .captures
+fn span_of(patterns: &[RegexMatcher<'_>]) -> SourceSpan {
+    let start = patterns
         .iter()
-        .zip(capture_types[pattern_id].iter().copied())
-        .enumerate()
-    {
-        if let Some(capture_span) = maybe_capture_span {
-            let input = context.search();
-            let captured = input.as_str(capture_span.range());
-            let capture_span =
-                SourceSpan::from_range_unchecked(search.input.source_id(), capture_span.range());
-            let result = regex::try_convert_capture_to_type(
-                pattern_id,
-                index,
-                pattern_span,
-                overall_span,
-                Span::new(capture_span, captured),
-                capture,
-                &search.captures,
-                context,
-            );
-            match result {
-                Ok(capture_info) => {
-                    capture_infos.push(capture_info);
-                }
-                Err(error) => {
-                    return Ok(MatchResult::failed(error));
-                }
-            }
-        }
-    }
-    Ok(MatchResult::ok(MatchInfo {
-        span: overall_span,
-        pattern_span,
-        pattern_id: pattern_index,
-        captures: capture_infos,
-    }))
+        .map(|p| p.span())
+        .min_by_key(|span| span.start())
+        .unwrap();
+    let end = patterns
+        .iter()
+        .map(|p| p.span())
+        .max_by_key(|span| span.end())
+        .unwrap();
+    SourceSpan::from_range_unchecked(
+        start.source_id(),
+        start.start().to_usize()..end.end().to_usize(),
+    )
 }
-- 
2.43.0


From f6e33141923b7dd73b38bf1285875b7cb0ad240b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:07 +0000
Subject: [PATCH 37/47] fix: never let CHECK-DAG matches overlap

Neither matches of different prefixes, nor a match that encloses another,
were recognized as overlapping.
---
 filecheck/src/pattern/visitors/dynamic.rs | 6 ++++--
 filecheck/src/pattern/visitors/static.rs  | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/filecheck/src/pattern/visitors/dynamic.rs b/filecheck/src/pattern/visitors/dynamic.rs
index 9e476ea..9047609 100644
--- a/filecheck/src/pattern/visitors/dynamic.rs
+++ b/filecheck/src/pattern/visitors/dynamic.rs
@@ -279,10 +279,12 @@ impl<'a, 'input, S: PatternSearcher<'input>> DynamicPatternSetVisitor<'a, S> {
 
                 // Ignore this match if we have already matched a pattern to it at this location
                 let range = info.span.into_slice_index();
-                if self.patterns_matched[info.pattern_id]
+                if self
+                    .patterns_matched
                     .iter()
+                    .flatten()
                     .map(|span| span.span().into_slice_index())
-                    .any(|span| span.contains(&range.start) || span.contains(&range.end))
+                    .any(|span| range.start < span.end && span.start < range.end)
                 {
                     continue;
                 }
diff --git a/filecheck/src/pattern/visitors/static.rs b/filecheck/src/pattern/visitors/static.rs
index 0767535..133a60d 100644
--- a/filecheck/src/pattern/visitors/static.rs
+++ b/filecheck/src/pattern/visitors/static.rs
@@ -77,7 +77,7 @@ impl<'a, 'input, S: PatternSearcher<'input>> StaticPatternSetVisitor<'a, S> {
                     if matches
                         .iter()
                         .map(|mr| mr.info.as_ref().unwrap().span.into_slice_index())
-                        .any(|span| span.contains(&range.start) || span.contains(&range.end))
+                        .any(|span| range.start < span.end && span.start < range.end)
                     {
                         continue;
                     }
-- 
2.43.0


From 6061d062ecb2dff92064ecb72c1d33b999b0132e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:37 +0000
Subject: [PATCH 38/47] fix: subtract numbers in the definition of a numeric
 variable

---
 filecheck/src/expr/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/expr/parser.rs b/filecheck/src/expr/parser.rs
index 090bd57..c36645f 100644
--- a/filecheck/src/expr/parser.rs
+++ b/filecheck/src/expr/parser.rs
@@ -116,7 +116,7 @@ pub enum Token<'input> {
     Max,
     #[regex(r"[A-Za-z_][A-Za-z0-9_]*", |lex| lex.slice())]
     Ident(&'input str),
-    #[regex(r"-?[0-9]+", parse_int)]
+    #[regex(r"[0-9]+", parse_int)]
     Num(i128),
 }
 impl<'input> Eq for Token<'input> {}
-- 
2.43.0


From 8c59b4a0767d75600be76933886c469c4ed4f113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:37 +0000
Subject: [PATCH 39/47] fix: evaluate the definition of a numeric variable
 once, with those before it

---
 filecheck/src/env.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/filecheck/src/env.rs b/filecheck/src/env.rs
index 412af9a..4cad5c3 100644
--- a/filecheck/src/env.rs
+++ b/filecheck/src/env.rs
@@ -273,13 +273,15 @@ impl<'input> Env<'input> {
 
     /// Create a new environment, initialized from the given configuration
     pub fn from_config<'i>(config: &Config) -> Env<'i> {
-        let system = OrdMap::<_, Value<'i>>::from_iter(
-            config
-                .options
-                .variables
-                .iter()
-                .map(|v| (v.name().into_inner(), v.value().clone())),
-        );
+        let mut system = OrdMap::<_, Value<'i>>::default();
+        for var in config.options.variables.iter() {
+            // The expression of a numeric variable can only use those defined before it
+            let value = match var.value() {
+                Value::Num(expr) => resolve_expr(expr, &system).map_or(Value::Undef, Value::Num),
+                value => value.clone(),
+            };
+            system.insert(var.name().into_inner(), value);
+        }
         Env {
             bindings: Bindings::new_with_system(system),
             enable_var_scope: config.options.enable_var_scope,
@@ -305,6 +307,24 @@ impl<'input> Env<'input> {
         }
     }
 }
+/// Replace the variables used by `expr` with their definitions in `system`.
+///
+/// Returns `None` if any of them is not defined, or is not a numeric variable.
+fn resolve_expr(expr: &Expr, system: &OrdMap<Symbol, Value<'_>>) -> Option<Expr> {
+    match expr {
+        Expr::Num(_) | Expr::Var(VariableName::Pseudo(_)) => Some(expr.clone()),
+        Expr::Var(VariableName::User(name) | VariableName::Global(name)) => match system.get(name.inner()) {
+            Some(Value::Num(expr)) => Some(expr.clone()),
+            _ => None,
+        },
+        Expr::Binary { span, op, lhs, rhs } => Some(Expr::Binary {
+            span: *span,
+            op: *op,
+            lhs: Box::new(resolve_expr(lhs, system)?),
+            rhs: Box::new(resolve_expr(rhs, system)?),
+        }),
+    }
+}
 impl<'input> LexicalScope for Env<'input> {
     type Value = Value<'input>;
 
-- 
2.43.0


From 2d2731362fb6edce71de1d9c4dd6f7a1313925ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:37 +0000
Subject: [PATCH 40/47] fix: keep the casing of hexadecimal operands

---
 filecheck/src/expr/num.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/expr/num.rs b/filecheck/src/expr/num.rs
index 63c926d..0d20628 100644
--- a/filecheck/src/expr/num.rs
+++ b/filecheck/src/expr/num.rs
@@ -101,10 +101,15 @@ impl Number {
                     || rcasing == CasingStyle::Any) =>
             {
                 let precision = core::cmp::max(lprecision, rprecision);
+                let casing = if lcasing == CasingStyle::Any {
+                    rcasing
+                } else {
+                    lcasing
+                };
                 Some(NumberFormat::Hex {
                     precision,
                     require_prefix: lprefixed,
-                    casing: lcasing,
+                    casing,
                 })
             }
             (
-- 
2.43.0


From dfb3ab9e07be55f16e4c81cac1419370750f8fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:37 +0000
Subject: [PATCH 41/47] fix: honour the format given with the definition of a
 numeric variable

---
 filecheck/src/expr/grammar.lalrpop |  2 +-
 filecheck/src/expr/mod.rs          | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/expr/grammar.lalrpop b/filecheck/src/expr/grammar.lalrpop
index 271fd7c..bfce4a3 100644
--- a/filecheck/src/expr/grammar.lalrpop
+++ b/filecheck/src/expr/grammar.lalrpop
@@ -54,7 +54,7 @@ Comma<T>: Vec<T> = {
 
 pub NumericVar: Variable<'input> = {
     "#" <format:NumberFormat> <name:("," <Var>)> <value:("=" <Expr>)> => {
-        Variable { name, value: Value::Num(value) }
+        Variable { name, value: Value::Num(value.with_format(format)) }
     },
 
     "#" <name:Var> <value:("=" <Expr>)> => {
diff --git a/filecheck/src/expr/mod.rs b/filecheck/src/expr/mod.rs
index b89ac38..7f5bfba 100644
--- a/filecheck/src/expr/mod.rs
+++ b/filecheck/src/expr/mod.rs
@@ -43,6 +43,23 @@ impl Spanned for Expr {
     }
 }
 impl Expr {
+    /// Apply `format` to the literals of this expression, and so to its value
+    pub fn with_format(self, format: NumberFormat) -> Self {
+        match self {
+            Self::Num(num) => Self::Num(Number {
+                format: Some(format),
+                ..num
+            }),
+            Self::Var(_) => self,
+            Self::Binary { span, op, lhs, rhs } => Self::Binary {
+                span,
+                op,
+                lhs: Box::new(lhs.with_format(format)),
+                rhs: Box::new(rhs.with_format(format)),
+            },
+        }
+    }
+
     pub fn from_call(
         span: SourceSpan,
         callee: Span<Symbol>,
-- 
2.43.0


From b25eca556011d95c8329f124e17e42ef8be46139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:20 +0000
Subject: [PATCH 42/47] fix: match numbers of more digits than the largest
 number has, when required

---
 filecheck/src/expr/num.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/filecheck/src/expr/num.rs b/filecheck/src/expr/num.rs
index 0d20628..d53c79d 100644
--- a/filecheck/src/expr/num.rs
+++ b/filecheck/src/expr/num.rs
@@ -452,18 +452,24 @@ impl NumberFormat {
         unsafe { *<*const _>::from(self).cast::<u8>() }
     }
 
+    /// The maximum number of digits which are matched, at least as many as required
+    fn max_digits(&self) -> usize {
+        core::cmp::max(self.precision(), if self.is_hex() { 32 } else { 39 })
+    }
+
     pub fn pattern_nocapture(&self) -> Cow<'static, str> {
+        let max_digits = self.max_digits();
         // NOTE: The patterns below with precision 0 have their range capped at 39, which is the
         // maximum number of digits in i128::MAX, or the largest possible number that could be
         // represented in decimal form
         match self {
             NumberFormat::Signed { precision: 0 } => Cow::Borrowed(r"(?:[-+]?[0-9]{1,39})"),
             NumberFormat::Signed { precision } => {
-                Cow::Owned(format!("(?:[-+]?[0-9]{{{precision},39}})"))
+                Cow::Owned(format!("(?:[-+]?[0-9]{{{precision},{max_digits}}})"))
             }
             NumberFormat::Unsigned { precision: 0 } => Cow::Borrowed(r"(?:[0-9]{1,39})"),
             NumberFormat::Unsigned { precision } => {
-                Cow::Owned(format!("(?:[0-9]{{{precision},39}})"))
+                Cow::Owned(format!("(?:[0-9]{{{precision},{max_digits}}})"))
             }
             // The hex value for i128::MAX is 7fffffffffffffffffffffffffffffff or 32 digits
             NumberFormat::Hex {
@@ -475,7 +481,7 @@ impl NumberFormat {
                 require_prefix: true,
                 precision,
                 casing,
-            } => Cow::Owned(format!("(?:0x{}{{{precision},32}})", casing.as_hex_class())),
+            } => Cow::Owned(format!("(?:0x{}{{{precision},{max_digits}}})", casing.as_hex_class())),
             NumberFormat::Hex {
                 require_prefix: false,
                 precision: 0,
@@ -485,7 +491,7 @@ impl NumberFormat {
                 require_prefix: false,
                 precision,
                 casing,
-            } => Cow::Owned(format!("(?:{}{{{precision},32}})", casing.as_hex_class())),
+            } => Cow::Owned(format!("(?:{}{{{precision},{max_digits}}})", casing.as_hex_class())),
         }
     }
 
@@ -493,6 +499,7 @@ impl NumberFormat {
         // NOTE: The patterns below with precision 0 have their range capped at 39, which is the
         // maximum number of digits in i128::MAX, or the largest possible number that could be
         // represented in decimal form
+        let max_digits = self.max_digits();
         let group_name = group_name_override.unwrap_or("digits");
         match self {
             NumberFormat::Signed { precision: 0 } => match group_name_override {
@@ -500,14 +507,14 @@ impl NumberFormat {
                 Some(group_name) => Cow::Owned(format!("(?P<{group_name}>[-+]?[0-9]{{1,39}})")),
             },
             NumberFormat::Signed { precision } => {
-                Cow::Owned(format!("(?P<{group_name}>[-+]?[0-9]{{{precision},39}})"))
+                Cow::Owned(format!("(?P<{group_name}>[-+]?[0-9]{{{precision},{max_digits}}})"))
             }
             NumberFormat::Unsigned { precision: 0 } => match group_name_override {
                 None => Cow::Borrowed(r"(?P<digits>[0-9]{1,39})"),
                 Some(group_name) => Cow::Owned(format!("(?P<{group_name}>[0-9]{{1,39}})")),
             },
             NumberFormat::Unsigned { precision } => {
-                Cow::Owned(format!("(?P<{group_name}>[0-9]{{{precision},39}})"))
+                Cow::Owned(format!("(?P<{group_name}>[0-9]{{{precision},{max_digits}}})"))
             }
             // The hex value for i128::MAX is 7fffffffffffffffffffffffffffffff or 32 digits
             NumberFormat::Hex {
@@ -523,7 +530,7 @@ impl NumberFormat {
                 precision,
                 casing,
             } => Cow::Owned(format!(
-                "(?P<{group_name}>0x{}{{{precision},32}})",
+                "(?P<{group_name}>0x{}{{{precision},{max_digits}}})",
                 casing.as_hex_class()
             )),
             NumberFormat::Hex {
@@ -539,7 +546,7 @@ impl NumberFormat {
                 precision,
                 casing,
             } => Cow::Owned(format!(
-                "(?P<{group_name}>{}{{{precision},32}})",
+                "(?P<{group_name}>{}{{{precision},{max_digits}}})",
                 casing.as_hex_class()
             )),
         }
-- 
2.43.0


From 2378f3978f3e9408aa0a5f44e66e89cab9e3dc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:32 +0000
Subject: [PATCH 43/47] fix: tell the formats of numbers apart when patterns of
 a group are compared

Two patterns which start with an expression were taken to start alike
when their formats print the same pattern, although one of them had no
format of its own and used that of the variables of its expression.
---
 filecheck/src/ast/pattern.rs | 10 ++--------
 filecheck/src/expr/num.rs    |  4 ++--
 filecheck/src/expr/value.rs  | 37 +-----------------------------------
 3 files changed, 5 insertions(+), 46 deletions(-)

diff --git a/filecheck/src/ast/pattern.rs b/filecheck/src/ast/pattern.rs
index 8e6612a..d2f8bdb 100644
--- a/filecheck/src/ast/pattern.rs
+++ b/filecheck/src/ast/pattern.rs
@@ -874,11 +874,7 @@ impl<'a> Ord for Match<'a> {
                     expr: bexpr,
                     ..
                 },
-            ) => af
-                .unwrap_or_default()
-                .pattern(None)
-                .cmp(&bf.unwrap_or_default().pattern(None))
-                .then_with(|| aexpr.cmp(bexpr)),
+            ) => af.cmp(bf).then_with(|| aexpr.cmp(bexpr)),
             (
                 Self::Numeric { capture: None, .. },
                 Self::Numeric {
@@ -905,9 +901,7 @@ impl<'a> Ord for Match<'a> {
                     ..
                 },
             ) => af
-                .unwrap_or_default()
-                .pattern(None)
-                .cmp(&bf.unwrap_or_default().pattern(None))
+                .cmp(bf)
                 .then_with(|| acap.cmp(bcap))
                 .then_with(|| aexpr.cmp(bexpr)),
             (
diff --git a/filecheck/src/expr/num.rs b/filecheck/src/expr/num.rs
index d53c79d..64c3801 100644
--- a/filecheck/src/expr/num.rs
+++ b/filecheck/src/expr/num.rs
@@ -348,7 +348,7 @@ impl fmt::Display for Number {
     }
 }
 
-#[derive(Debug, Copy, Clone, PartialEq, Eq)]
+#[derive(Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord)]
 #[repr(u8)]
 pub enum NumberFormat {
     Unsigned {
@@ -364,7 +364,7 @@ pub enum NumberFormat {
     },
 }
 
-#[derive(Default, Debug, Copy, Clone, PartialEq, Eq)]
+#[derive(Default, Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord)]
 #[repr(u8)]
 pub enum CasingStyle {
     #[default]
diff --git a/filecheck/src/expr/value.rs b/filecheck/src/expr/value.rs
index 8cad793..72e671d 100644
--- a/filecheck/src/expr/value.rs
+++ b/filecheck/src/expr/value.rs
@@ -31,7 +31,7 @@ impl FromStr for Value<'_> {
     }
 }
 
-#[derive(Debug, Copy, Clone, PartialEq, Eq)]
+#[derive(Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord)]
 pub enum ValueType {
     String,
     Number(Option<NumberFormat>),
@@ -46,38 +46,3 @@ impl fmt::Display for ValueType {
         }
     }
 }
-
-impl PartialOrd for ValueType {
-    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
-        Some(self.cmp(other))
-    }
-}
-
-impl Ord for ValueType {
-    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
-        use core::cmp::Ordering;
-        match (self, other) {
-            (Self::String, Self::String) => Ordering::Equal,
-            (Self::String, _) => Ordering::Less,
-            (_, Self::String) => Ordering::Greater,
-            (Self::Number(a), Self::Number(b)) => {
-                let a = a.unwrap_or_default();
-                let b = b.unwrap_or_default();
-                if a == b {
-                    Ordering::Equal
-                } else {
-                    let ap = a.precision();
-                    let bp = b.precision();
-                    if ap == 0 && bp > 0 {
-                        Ordering::Greater
-                    } else if ap > 0 && bp == 0 {
-                        Ordering::Less
-                    } else {
-                        ap.cmp(&bp)
-                            .then_with(|| a.discriminant().cmp(&b.discriminant()))
-                    }
-                }
-            }
-        }
-    }
-}
-- 
2.43.0


From 74319e41f0d86d37ca3fd5ea7823b8cb8b2574c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:41 +0000
Subject: [PATCH 44/47] fix: strip only one space before a check pattern with
 --strict-whitespace

---
 filecheck/src/parse/lexer/mod.rs | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index ce9d8a4..9ecc3ef 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -424,11 +424,6 @@ impl<'input> Lexer<'input> {
                         let raw = &self.input.buffer()[last_delimiter_end..delim_range.start];
                         if !raw.iter().all(u8::is_ascii_whitespace) || !is_first {
                             let content = self.input.as_str(last_delimiter_end..delim_range.start);
-                            let content = if is_first {
-                                content.strip_prefix(' ').unwrap_or(content)
-                            } else {
-                                content
-                            };
                             self.buffer.push_back(Ok((
                                 last_delimiter_end,
                                 Token::Raw(content),
@@ -468,11 +463,6 @@ impl<'input> Lexer<'input> {
                         let raw = &self.input.buffer()[last_delimiter_end..delim_range.start];
                         if !raw.iter().all(u8::is_ascii_whitespace) || !is_first {
                             let content = self.input.as_str(last_delimiter_end..delim_range.start);
-                            let content = if is_first {
-                                content.strip_prefix(' ').unwrap_or(content)
-                            } else {
-                                content
-                            };
                             self.buffer.push_back(Ok((
                                 last_delimiter_end,
                                 Token::Raw(content),
@@ -552,11 +542,6 @@ impl<'input> Lexer<'input> {
         if last_delimiter_end < eol && in_match.is_none() && in_regex.is_none() {
             let line = self.input.as_str(last_delimiter_end..eol);
             if !line.trim().is_empty() {
-                let line = if is_first {
-                    line.strip_prefix(' ').unwrap_or(line)
-                } else {
-                    line
-                };
                 self.buffer
                     .push_back(Ok((last_delimiter_end, Token::Raw(line), eol)));
             }
-- 
2.43.0


From 6f43353f2f2cb2da8130719df46698c69ea33edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:55 +0000
Subject: [PATCH 45/47] fix: recognise check lines with white space after a
 single modifier

---
 filecheck/src/parse/lexer/patterns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/parse/lexer/patterns.rs b/filecheck/src/parse/lexer/patterns.rs
index 9d03c47..f528de4 100644
--- a/filecheck/src/parse/lexer/patterns.rs
+++ b/filecheck/src/parse/lexer/patterns.rs
@@ -17,7 +17,7 @@ pub struct Pattern {
 impl Pattern {
     fn new(prefixes: &str, config: Either<Check, (Check, &str)>) -> Self {
         const WORD_BOUNDARY: &str = r#"(?u:^|\s)"#;
-        const MODIFIERS: &str = r#"([{](?<modifiers>\s*LITERAL(\s*,\s*LITERAL\s*)*)[}])?"#;
+        const MODIFIERS: &str = r#"([{](?<modifiers>\s*LITERAL\s*(,\s*LITERAL\s*)*)[}])?"#;
 
         match config {
             Left(Check::Comment) => {
-- 
2.43.0


From dbc2e3969c978411aa3ee913d4777188d75f2fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:40 +0000
Subject: [PATCH 46/47] fix: refuse prefixes with non-ASCII letters and digits

---
 filecheck/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/lib.rs b/filecheck/src/lib.rs
index c5eb7a6..e97e5ea 100644
--- a/filecheck/src/lib.rs
+++ b/filecheck/src/lib.rs
@@ -408,7 +408,7 @@ fn prefix_value_parser() -> ValueParser {
                 "supplied prefix must start with an ASCII alphabetic character",
             ));
         }
-        if s.contains(|c: char| !c.is_alphanumeric() && c != '_' && c != '-') {
+        if s.contains(|c: char| !c.is_ascii_alphanumeric() && c != '_' && c != '-') {
             return Err(Error::raw(
                 ErrorKind::ValueValidation,
                 "supplied prefix may only contain ASCII alphanumerics, hyphens, or underscores",
-- 
2.43.0


From d4580aaef502601f6e281c67c6b7dc2bfb4aa2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:53 +0000
Subject: [PATCH 47/47] fix: do not panic when a failed search ended within a
 character

---
 core/src/diagnostics/source_file.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/diagnostics/source_file.rs b/core/src/diagnostics/source_file.rs
index d82bafa..c5868e1 100644
--- a/core/src/diagnostics/source_file.rs
+++ b/core/src/diagnostics/source_file.rs
@@ -683,9 +683,14 @@ impl SourceContent {
     pub fn location(&self, byte_index: ByteIndex) -> Option<FileLineCol> {
         let line_index = self.line_index(byte_index);
         let line_start_index = self.line_start(line_index)?;
+        let offset = byte_index.to_usize();
+        if offset > self.content.len() {
+            return None;
+        }
+        // An offset which falls within a character is located at that character
         let line_src = self
             .content
-            .get(line_start_index.to_usize()..byte_index.to_usize())?;
+            .get(line_start_index.to_usize()..self.content.floor_char_boundary(offset))?;
         let column_index = ColumnIndex::from(line_src.chars().count() as u32);
         Some(FileLineCol {
             uri: self.uri.clone(),
-- 
2.43.0

