From 60e7c0200336ce0dba94c00d4e78a95ec19aa9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:57 +0000
Subject: [PATCH 01/27] fix: keep inspecting the remaining sources when one
 cannot be opened

---
 cli/src/main.rs    | 1 -
 model/src/model.rs | 1 -
 2 files changed, 2 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index cfeba4d..eeb6eb4 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -340,7 +340,6 @@ fn process_live(output_mode: OutputMode, content: &Content, model: &Model) -> Re
                     }
                     Err(err) => {
                         println!("Could not read {}: {}", &source, err);
-                        break;
                     }
                 }
             }
diff --git a/model/src/model.rs b/model/src/model.rs
index 5dc13c3..7629281 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -507,7 +507,6 @@ impl Model {
                             }
                             Err(err) => {
                                 read_errors.push((source.clone(), format!("{}", err)));
-                                break;
                             }
                         }
                     }
-- 
2.43.0


From 526eacb08db73654e6af1f6301ba790a7bfc8591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:57 +0000
Subject: [PATCH 02/27] fix: recognise the gz file extension of local files

---
 model/src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/src/reader.rs b/model/src/reader.rs
index 07ec6df..35e98b0 100644
--- a/model/src/reader.rs
+++ b/model/src/reader.rs
@@ -52,7 +52,7 @@ use DecompressReader::*;
 pub fn from_path(path: &Path) -> Result<DecompressReader> {
     let fp = File::open(path)?;
     let extension = path.extension().unwrap_or_else(|| std::ffi::OsStr::new(""));
-    Ok(if extension == ".gz" {
+    Ok(if extension == "gz" {
         Gz(GzDecoder::new(fp))
     } else {
         Flat(fp)
-- 
2.43.0


From de4797d075c04b741f7454ffa8207acc1e29cdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:57 +0000
Subject: [PATCH 03/27] fix: use the source prefix as the cache base of a
 remote file

---
 model/src/urls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model/src/urls.rs b/model/src/urls.rs
index c8558fa..3c1b945 100644
--- a/model/src/urls.rs
+++ b/model/src/urls.rs
@@ -32,7 +32,8 @@ impl Source {
         if prefix == 0 {
             crate::reader::from_url(url, url)
         } else {
-            crate::reader::from_url(&Url::parse(&url.as_str()[..42])?, url)
+            let base = url.as_str().get(..prefix).unwrap_or(url.as_str());
+            crate::reader::from_url(&Url::parse(base)?, url)
         }
     }
 
-- 
2.43.0


From 4b2e79d4ffc04b3dace1e2b47e02e501b99000df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:57 +0000
Subject: [PATCH 04/27] fix: do not panic on sources shorter than their
 relative prefix

---
 model/src/model.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 7629281..9e83cf5 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -97,8 +97,13 @@ impl Source {
     }
     pub fn get_relative(&'_ self) -> &'_ str {
         match self {
-            Source::Local(base_len, path) => &path.to_str().unwrap_or("")[*base_len..],
-            Source::Remote(base_len, url) => &url.as_str()[*base_len..],
+            Source::Local(base_len, path) => {
+                let path = path.to_str().unwrap_or("");
+                path.get(*base_len..).unwrap_or(path)
+            }
+            Source::Remote(base_len, url) => {
+                url.as_str().get(*base_len..).unwrap_or(url.as_str())
+            }
         }
     }
 
-- 
2.43.0


From 86ff5cd92e602c43e564f4c43cbf26fdd9f897dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:57 +0000
Subject: [PATCH 05/27] fix: do not use the body of http error responses as
 content

---
 httpdir/src/httpdir.rs | 6 +++++-
 model/src/reader.rs    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index 5d4a447..d649261 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -242,7 +242,11 @@ fn path_dir(url: &Url) -> Option<Url> {
 /// List the files and directories of a single url.
 pub fn http_list(client: &Client, url: Url) -> Result<Vec<Url>> {
     // dbg!(&url);
-    match client.get(url).send() {
+    match client
+        .get(url)
+        .send()
+        .and_then(|resp| resp.error_for_status())
+    {
         Ok(resp) => {
             let url = resp.url().clone();
             match resp.text() {
diff --git a/model/src/reader.rs b/model/src/reader.rs
index 35e98b0..50c7177 100644
--- a/model/src/reader.rs
+++ b/model/src/reader.rs
@@ -29,7 +29,11 @@ mod remote {
     use super::*;
 
     pub fn get_url(url: &Url) -> Result<Response> {
-        CLIENT.get(url.clone()).send().context("Can't get url")
+        CLIENT
+            .get(url.clone())
+            .send()
+            .and_then(|resp| resp.error_for_status())
+            .context("Can't get url")
     }
 
     pub fn head(url: &Url) -> Result<bool> {
-- 
2.43.0


From 0db563ebc7ccae35c0a4221ac84f97943207dc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:57 +0000
Subject: [PATCH 06/27] fix: make the order of the report entries independent
 of the hash seed

---
 model/src/model.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 9e83cf5..79db2bf 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -473,7 +473,10 @@ impl Model {
         let mut read_errors = Vec::new();
         let mut total_line_count = 0;
         let mut total_anomaly_count = 0;
-        for (index_name, sources) in Content::group_sources(&[target.clone()])?.drain() {
+        for (index_name, sources) in Content::group_sources(&[target.clone()])?
+            .drain()
+            .sorted_by(|x, y| Ord::cmp(&x.0, &y.0))
+        {
             let mut skip_lines = HashSet::new();
             match self.get_index(&index_name) {
                 Some(index) => {
-- 
2.43.0


From f1430066bdfc3107664e106524ced7e7f32768bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:57 +0000
Subject: [PATCH 07/27] fix: report invalid urls as errors instead of panicking

---
 model/src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 79db2bf..ec84568 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -333,7 +333,7 @@ impl Content {
         match input {
             Input::Path(path_str) => Content::from_path(Path::new(&path_str)),
             Input::Url(url_str) => {
-                Content::from_url(Url::parse(&url_str).expect("Failed to parse url"))
+                Content::from_url(Url::parse(&url_str).context("Failed to parse url")?)
             }
         }
     }
-- 
2.43.0


From a11babcf277f0f76b3071aec812b11fef0d054ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:48 +0000
Subject: [PATCH 08/27] fix: report the errors of the last write when saving a
 model or a report

---
 model/src/model.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index ec84568..02ab1ad 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -242,14 +242,12 @@ pub struct Report {
 
 impl Report {
     pub fn save(&self, path: &Path) -> Result<()> {
-        bincode::serialize_into(
-            flate2::write::GzEncoder::new(
-                std::fs::File::create(path).context("Can't create report file")?,
-                flate2::Compression::fast(),
-            ),
-            self,
-        )
-        .context("Can't save report")
+        let mut encoder = flate2::write::GzEncoder::new(
+            std::fs::File::create(path).context("Can't create report file")?,
+            flate2::Compression::fast(),
+        );
+        bincode::serialize_into(&mut encoder, self).context("Can't save report")?;
+        encoder.finish().context("Can't save report").map(|_| ())
     }
 
     pub fn load(path: &Path) -> Result<Report> {
@@ -447,14 +445,12 @@ impl Model {
 
     pub fn save(&self, path: &Path) -> Result<()> {
         tracing::info!(path = path.to_str(), "Saving model");
-        bincode::serialize_into(
-            flate2::write::GzEncoder::new(
-                std::fs::File::create(path).context("Can't create file")?,
-                flate2::Compression::fast(),
-            ),
-            self,
-        )
-        .context("Can't save model")
+        let mut encoder = flate2::write::GzEncoder::new(
+            std::fs::File::create(path).context("Can't create file")?,
+            flate2::Compression::fast(),
+        );
+        bincode::serialize_into(&mut encoder, self).context("Can't save model")?;
+        encoder.finish().context("Can't save model").map(|_| ())
     }
 
     /// Get the matching index for a given Source.
-- 
2.43.0


From 5e8f18df811fbd2d5877a638f151c941e46b73ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:43 +0000
Subject: [PATCH 09/27] fix: only publish complete cache entries

---
 cache/src/cache.rs | 73 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 64 insertions(+), 9 deletions(-)

diff --git a/cache/src/cache.rs b/cache/src/cache.rs
index 29cacf2..c0418c3 100644
--- a/cache/src/cache.rs
+++ b/cache/src/cache.rs
@@ -82,10 +82,10 @@ impl Cache {
 
     /// Add a file reader to the cache.
     pub fn remote_add<R: Read>(&self, base: &Url, path: &Url, obj: R) -> Result<CacheReader<R>> {
-        let fp = self.create(&filename::http(base, path))?;
+        let (fp, pending) = self.create_pending(&filename::http(base, path))?;
         Ok(CacheReader {
             remote: obj,
-            local: GzEncoder::new(fp, flate2::Compression::fast()),
+            local: Some((GzEncoder::new(fp, flate2::Compression::fast()), pending)),
         })
     }
 
@@ -99,8 +99,9 @@ impl Cache {
 
     /// Add a httpdir to the cache.
     pub fn httpdir_add(&self, url: &Url, paths: &[Url]) -> Result<()> {
-        let fp = self.create(&filename::httpdir(url))?;
-        bincode::serialize_into(fp, paths).context("Failed to serialize httpdir save")
+        let (fp, pending) = self.create_pending(&filename::httpdir(url))?;
+        bincode::serialize_into(fp, paths).context("Failed to serialize httpdir save")?;
+        pending.commit().context("Failed to save httpdir")
     }
 
     /// Remove a remote file from the cache.
@@ -123,6 +124,22 @@ impl Cache {
         }
     }
 
+    // creates a new cache entry which is not visible until it is committed.
+    fn create_pending(&self, path: &str) -> Result<(File, PendingFile)> {
+        let dst = self.xdg.get_cache_file(path);
+        if dst.exists() {
+            return Err(anyhow::anyhow!("Cache file already exist: {:?}", dst));
+        }
+        let tmp_path = format!("{}.part{}", path, std::process::id());
+        let tmp = self.xdg.get_cache_file(&tmp_path);
+        if tmp.exists() {
+            // Left over from an interrupted process.
+            std::fs::remove_file(&tmp).context("Failed to delete stale cache")?;
+        }
+        let fp = self.create(&tmp_path)?;
+        Ok((fp, PendingFile { tmp, dst }))
+    }
+
     // creates a new cache entry.
     fn create(&self, path: &str) -> Result<File> {
         let buf = self.xdg.get_cache_file(path);
@@ -137,22 +154,60 @@ impl Cache {
     }
 }
 
+// A cache file being written. Unless it is committed, the file is removed.
+struct PendingFile {
+    tmp: std::path::PathBuf,
+    dst: std::path::PathBuf,
+}
+
+impl PendingFile {
+    fn commit(self) -> std::io::Result<()> {
+        std::fs::rename(&self.tmp, &self.dst)
+    }
+}
+
+impl Drop for PendingFile {
+    fn drop(&mut self) {
+        // After a commit, there is nothing left to remove.
+        let _ = std::fs::remove_file(&self.tmp);
+    }
+}
+
 /// A Reader object that saves remote data to a local compressed file.
+/// The cache entry is created when the end of the remote data is reached.
 pub struct CacheReader<R: Read> {
     remote: R,
-    local: GzEncoder<File>,
+    local: Option<(GzEncoder<File>, PendingFile)>,
 }
 
 impl<R: Read> Read for CacheReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        let res = self.read_and_save(buf);
+        if res.is_err() {
+            // The local data is incomplete, it must not become a cache entry.
+            self.local = None;
+        }
+        res
+    }
+}
+
+impl<R: Read> CacheReader<R> {
+    fn read_and_save(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         // Read remote data.
         let remote_read = self.remote.read(buf);
         match remote_read {
+            // The remote data is complete, the cache entry can be used.
+            Ok(0) if !buf.is_empty() => match self.local.take() {
+                Some((local, pending)) => local.finish().and_then(|_| pending.commit()).map(|()| 0),
+                None => Ok(0),
+            },
             // Write to the local file
-            Ok(remote_size) => self
-                .local
-                .write_all(&buf[..remote_size])
-                .map(|()| remote_size),
+            Ok(remote_size) => match self.local {
+                Some((ref mut local, _)) => {
+                    local.write_all(&buf[..remote_size]).map(|()| remote_size)
+                }
+                None => Ok(remote_size),
+            },
             Err(e) => Err(e),
         }
     }
-- 
2.43.0


From 6f798ff8b2ef71e0ccff6089686250776acd6e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 10/27] fix: do not lose the last messages of the crawler
 workers

---
 httpdir/src/httpdir.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index d649261..dd3e338 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -198,6 +198,9 @@ impl Iterator for CrawlerIter {
     type Item = Result<Url>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // The workers send their messages before they terminate, so the completion must be checked
+        // before looking for the last message.
+        let done = self.is_done();
         match self.rx.try_recv() {
             // A new url was found, we return it.
             Ok(Some(r)) => Some(r),
@@ -206,7 +209,7 @@ impl Iterator for CrawlerIter {
             Ok(None) => self.next(),
 
             // No messages are available and all the workers are done, we stop the iterator.
-            Err(_) if self.is_done() => None,
+            Err(_) if done => None,
 
             // There was a panic
             Err(_) if self.workers.panic_count() > 0 => {
-- 
2.43.0


From 183670f0de0d47482ebc8caacead1a4257ae73e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 11/27] fix: do not recurse once per crawled directory

---
 httpdir/src/httpdir.rs | 54 ++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index dd3e338..e42625f 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -198,33 +198,35 @@ impl Iterator for CrawlerIter {
     type Item = Result<Url>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // The workers send their messages before they terminate, so the completion must be checked
-        // before looking for the last message.
-        let done = self.is_done();
-        match self.rx.try_recv() {
-            // A new url was found, we return it.
-            Ok(Some(r)) => Some(r),
-
-            // A worker finished it's job, we keep on iterating.
-            Ok(None) => self.next(),
-
-            // No messages are available and all the workers are done, we stop the iterator.
-            Err(_) if done => None,
-
-            // There was a panic
-            Err(_) if self.workers.panic_count() > 0 => {
-                self.abort = true;
-                Some(Err(mk_error("Crawler panicked!")))
-            }
-
-            // The workers are still active, we can block recv to wait for the next message.
-            Err(_) => match self.rx.recv_timeout(Duration::from_secs(1)) {
-                // A new url was found, we can return it.
-                Ok(Some(r)) => Some(r),
+        loop {
+            // The workers send their messages before they terminate, so the completion must be
+            // checked before looking for the last message.
+            let done = self.is_done();
+            match self.rx.try_recv() {
+                // A new url was found, we return it.
+                Ok(Some(r)) => return Some(r),
+
+                // A worker finished it's job, we keep on iterating.
+                Ok(None) => {}
+
+                // No messages are available and all the workers are done, we stop the iterator.
+                Err(_) if done => return None,
+
+                // There was a panic
+                Err(_) if self.workers.panic_count() > 0 => {
+                    self.abort = true;
+                    return Some(Err(mk_error("Crawler panicked!")));
+                }
 
-                // A worker completed it's task, we keep on iterating.
-                _ => self.next(),
-            },
+                // The workers are still active, we can block recv to wait for the next message.
+                Err(_) => {
+                    // A new url was found, we can return it.
+                    if let Ok(Some(r)) = self.rx.recv_timeout(Duration::from_secs(1)) {
+                        return Some(r);
+                    }
+                    // A worker completed it's task, we keep on iterating.
+                }
+            }
         }
     }
 }
-- 
2.43.0


From 6456e957cea973938948e6d9419b2f54e7666203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:45 +0000
Subject: [PATCH 12/27] fix: do not panic on builds without log url, ref url or
 change

---
 model/src/zuul.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/model/src/zuul.rs b/model/src/zuul.rs
index 5db1d76..d9c9100 100644
--- a/model/src/zuul.rs
+++ b/model/src/zuul.rs
@@ -80,7 +80,7 @@ impl Build {
         // Older builds are less valuable
         score -= elapsed_days(now, target.end_time.date_naive());
         // Check the build has URLs
-        match target.log_url.is_some() && target.ref_url.is_some() {
+        match target.log_url.is_some() && target.ref_url.is_some() && target.change.is_some() {
             true => Some(score),
             false => None,
         }
@@ -107,7 +107,7 @@ impl Build {
         let samples = self.get_success_samples()?;
         let max_builds = 1;
         let now = Utc::now().date_naive();
-        Ok(samples
+        samples
             .into_iter()
             // Compute a score value
             .map(|build| (self.baseline_score(&build, &now), build))
@@ -122,7 +122,7 @@ impl Build {
             .take(max_builds)
             // Create the content data type
             .map(|(_score, build)| new_content(self.api.clone(), build))
-            .collect())
+            .collect()
     }
 
     pub fn sources_iter(&self) -> Box<dyn Iterator<Item = Result<Source>>> {
@@ -130,8 +130,8 @@ impl Build {
     }
 }
 
-fn new_content(api: Url, build: zuul_build::Build) -> Content {
-    Content::Zuul(Box::new(Build {
+fn new_content(api: Url, build: zuul_build::Build) -> Result<Content> {
+    Ok(Content::Zuul(Box::new(Build {
         api,
         uuid: build.uuid,
         job_name: build.job_name,
@@ -139,11 +139,11 @@ fn new_content(api: Url, build: zuul_build::Build) -> Content {
         branch: build.branch,
         result: build.result,
         pipeline: build.pipeline,
-        log_url: build.log_url.expect("Invalid build"),
-        ref_url: build.ref_url.expect("Invalid build"),
+        log_url: build.log_url.context("Build without log url")?,
+        ref_url: build.ref_url.context("Build without ref url")?,
         end_time: build.end_time,
-        change: build.change.expect("Invalid build"),
-    }))
+        change: build.change.context("Build without change")?,
+    })))
 }
 
 fn get_build(api: &Url, uid: &str) -> Result<zuul_build::Build> {
@@ -216,7 +216,9 @@ fn get_zuul_api_url(url: &'_ Url) -> Option<Result<(Url, &'_ str)>> {
 impl Content {
     pub fn from_zuul_url(url: &Url) -> Option<Result<Content>> {
         get_zuul_api_url(url).map(|res| {
-            res.and_then(|(api, uid)| get_build(&api, uid).map(|build| new_content(api, build)))
+            res.and_then(|(api, uid)| {
+                get_build(&api, uid).and_then(|build| new_content(api, build))
+            })
         })
     }
 }
-- 
2.43.0


From 0482bfd466472cce2787cb3c5afec0f1c7078c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:06 +0000
Subject: [PATCH 13/27] fix: do not underflow the position of the context lines
 in the report

---
 report/src/report.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/report/src/report.rs b/report/src/report.rs
index e9aa306..f29933d 100644
--- a/report/src/report.rs
+++ b/report/src/report.rs
@@ -347,7 +347,7 @@ fn render_lines(loglines: &mut Node, anomalies: &[logreduce_model::AnomalyContex
     let mut last_pos = None;
 
     for anomaly in anomalies {
-        let starting_pos = anomaly.anomaly.pos - 1 - anomaly.before.len();
+        let starting_pos = anomaly.anomaly.pos.saturating_sub(1 + anomaly.before.len());
         if let Some(last_pos) = last_pos {
             if last_pos != starting_pos {
                 loglines.hr().attr("class=\"ls\"");
-- 
2.43.0


From 049e8adf2604ab5b8e456de4138bbbe3f890e5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:06 +0000
Subject: [PATCH 14/27] fix: escape the log content in the html report

---
 report/src/report.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/report/src/report.rs b/report/src/report.rs
index f29933d..48921be 100644
--- a/report/src/report.rs
+++ b/report/src/report.rs
@@ -34,6 +34,15 @@ impl Html {
     }
 }
 
+/// Make a text safe to be used as html content or attribute value.
+fn escape(text: &str) -> String {
+    text.replace('&', "&amp;")
+        .replace('<', "&lt;")
+        .replace('>', "&gt;")
+        .replace('"', "&quot;")
+        .replace('\'', "&#39;")
+}
+
 fn table(parent: &mut Node, columns: Option<&[&str]>, rows: &[&[&str]]) -> Result<()> {
     let mut div = parent
         .div()
@@ -54,7 +63,7 @@ fn table(parent: &mut Node, columns: Option<&[&str]>, rows: &[&[&str]]) -> Resul
     for row in rows.iter() {
         let mut tr = tbody.tr();
         for cell in row.iter() {
-            tr.td().write_str(cell)?;
+            tr.td().write_str(&escape(cell))?;
         }
     }
     Ok(())
@@ -69,7 +78,7 @@ fn add_head(parent: &mut Node, title: &str) -> Result<()> {
             .attr("crossorigin=\"anonymous\"");
     }
     let mut head = parent.head();
-    head.title().write_str(title)?;
+    head.title().write_str(&escape(title))?;
     head.meta().attr("charset='utf-8'");
     for (href, integrity) in STYLES {
         add_link(&mut head, href, integrity);
@@ -258,7 +267,7 @@ fn render_content_report(
                     let mut desc = pf_body.div().attr("class=\"list-view-pf-description\"");
                     desc.div()
                         .attr("class=\"list-group-item-heading\"")
-                        .write_str(log_report.source.get_relative())?;
+                        .write_str(&escape(log_report.source.get_relative()))?;
                 }
 
                 {
@@ -273,9 +282,9 @@ fn render_content_report(
                         .a()
                         .attr(&format!(
                             "href=\"{}\"",
-                            model_anchor(&log_report.index_name)
+                            escape(&model_anchor(&log_report.index_name))
                         ))
-                        .write_str(&format!("{}", log_report.index_name))?;
+                        .write_str(&escape(log_report.index_name.as_str()))?;
                     additional_item.write_str(" model")?;
                 }
 
@@ -286,7 +295,7 @@ fn render_content_report(
                     additional_item.span().attr("class=\"fa fa-external-link\"");
                     additional_item
                         .a()
-                        .attr(&format!("href=\"{}\"", log_report.source.as_str()))
+                        .attr(&format!("href=\"{}\"", escape(log_report.source.as_str())))
                         .write_str("file")?;
                 }
 
@@ -319,8 +328,8 @@ fn render_content_report(
             for source in index_report.sources.iter().take(3) {
                 ul.li()
                     .a()
-                    .attr(&format!("href=\"{}\"", source.as_str()))
-                    .write_str(source.as_str())?
+                    .attr(&format!("href=\"{}\"", escape(source.as_str())))
+                    .write_str(&escape(source.as_str()))?
             }
         }
 
@@ -338,7 +347,7 @@ fn render_context(loglines: &mut Node, pos: usize, xs: &[String]) -> Result<()>
     for (idx, line) in xs.iter().enumerate() {
         loglines
             .pre()
-            .write_str(&format!("   {:4} | {}", pos + 1 + idx, line))?;
+            .write_str(&format!("   {:4} | {}", pos + 1 + idx, escape(line)))?;
     }
     Ok(())
 }
@@ -363,7 +372,9 @@ fn render_lines(loglines: &mut Node, anomalies: &[logreduce_model::AnomalyContex
             .attr(&format!("style=\"color: #{:2X}0000\"", color))
             .write_str(&format!(
                 "{:02} {:4} | {}",
-                dist, anomaly.anomaly.pos, anomaly.anomaly.line
+                dist,
+                anomaly.anomaly.pos,
+                escape(&anomaly.anomaly.line)
             ))?;
 
         render_context(loglines, anomaly.anomaly.pos, &anomaly.after)?;
-- 
2.43.0


From 84c3a4010dd72e99442f30e45d7c906873343113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:06 +0000
Subject: [PATCH 15/27] fix: do not resume after the log-classify task

---
 model/src/process.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/model/src/process.rs b/model/src/process.rs
index a36074e..ae066bc 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -95,6 +95,8 @@ pub struct ChunkProcessor<'a, R: Read> {
     skip_lines: &'a mut HashSet<String>,
     /// The current line coordinate.
     coord: usize,
+    /// Set when the remaining lines must be ignored.
+    stopped: bool,
     /// Total lines count
     pub line_count: usize,
     /// Total bytes count
@@ -135,14 +137,18 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
             anomalies: VecDeque::new(),
             skip_lines,
             coord: 0,
+            stopped: false,
             line_count: 0,
             byte_count: 0,
         }
     }
 
     fn read_anomalies(&mut self) -> Result<()> {
-        while let Some(line) = self.reader.next() {
-            let line = line?;
+        while !self.stopped {
+            let line = match self.reader.next() {
+                Some(line) => line?,
+                None => break,
+            };
             let raw_str = std::str::from_utf8(&line.0[..])
                 .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
             self.line_count += 1;
@@ -151,6 +157,7 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
 
             // Special check to break when we are processing ourself
             if raw_str.contains("TASK [log-classify") {
+                self.stopped = true;
                 break;
             }
 
-- 
2.43.0


From 8345f59c9409dff62e3dcac301c68eb26fa27751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:31 +0000
Subject: [PATCH 16/27] fix: keep the line return that follows a backslash

---
 iterator/src/iterator.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/iterator/src/iterator.rs b/iterator/src/iterator.rs
index cf9fe95..8747851 100644
--- a/iterator/src/iterator.rs
+++ b/iterator/src/iterator.rs
@@ -230,10 +230,10 @@ impl<R: Read> BytesLines<R> {
             let c = *c as char;
             let sep = if self.escaped {
                 self.escaped = false;
-                if c == 'n' {
-                    Some(Sep::SubLine)
-                } else {
-                    None
+                match c {
+                    'n' => Some(Sep::SubLine),
+                    '\n' => Some(Sep::NewLine),
+                    _ => None,
                 }
             } else if c == '\\' {
                 self.escaped = true;
-- 
2.43.0


From 092857de52b3ff093813831a613db3e2b26cbfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:31 +0000
Subject: [PATCH 17/27] fix: only use the data that was read and do not lose
 the lines after a long line

---
 iterator/src/iterator.rs | 47 ++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/iterator/src/iterator.rs b/iterator/src/iterator.rs
index 8747851..1874dc5 100644
--- a/iterator/src/iterator.rs
+++ b/iterator/src/iterator.rs
@@ -158,13 +158,9 @@ impl<R: Read> BytesLines<R> {
     fn read_slice(&mut self) -> Option<Result<LogLine>> {
         let pos = self.buf.len();
         // When pos is at 0, we are at Step A, otherwise this is Step G
-        self.buf.resize(pos + self.chunk_size, 0);
-        match self.reader.read(&mut self.buf[pos..]) {
+        match self.fill() {
             // We read some data.
-            Ok(n) if n > 0 => {
-                self.buf.truncate(pos + n);
-                self.get_slice()
-            }
+            Ok(n) if n > 0 => self.get_slice(),
 
             // Step H: We reached the end of the reader, but we have left-overs.
             Ok(_) if pos > 0 => {
@@ -180,13 +176,30 @@ impl<R: Read> BytesLines<R> {
         }
     }
 
+    // Append a new chunk to the buffer
+    fn fill(&mut self) -> Result<usize> {
+        let pos = self.buf.len();
+        self.buf.resize(pos + self.chunk_size, 0);
+        let res = self.reader.read(&mut self.buf[pos..]);
+        // Only keep the data that was actually read.
+        self.buf.truncate(pos + *res.as_ref().unwrap_or(&0));
+        res
+    }
+
+    // Discard the buffer, except for the begining of a sub line separator
+    fn discard(&mut self) {
+        let keep = usize::from(self.escaped);
+        self.buf.advance(self.buf.len() - keep);
+        self.escaped = false;
+        self.prev_pos = 0;
+    }
+
     // Find the next line in the buffer
     fn get_slice(&mut self) -> Option<Result<LogLine>> {
         match self.find_next_line() {
             // Step J: The current line is over the limit, and we don't know where it ends.
             None if self.buf.len() > self.max_line_length => {
-                self.prev_pos = 0;
-                self.buf.clear();
+                self.discard();
                 self.buf.reserve(self.chunk_size);
                 self.drop_until_next_line()
             }
@@ -269,17 +282,10 @@ impl<R: Read> BytesLines<R> {
 
     // Drop until we find the next line
     fn drop_until_next_line(&mut self) -> Option<Result<LogLine>> {
-        self.buf.resize(self.chunk_size, 0);
-        match self.reader.read(&mut self.buf) {
+        match self.fill() {
             // We read some data.
             Ok(n) if n > 0 => match self.find_next_line() {
-                // the long line terminated at the end of the buffer.
-                Some(_) if n == self.chunk_size => {
-                    self.buf.clear();
-                    self.read_slice()
-                }
-
-                // the next line is already in the buffer
+                // We found the end of the long line.
                 Some((pos, sep)) => {
                     self.buf.advance(pos + sep.len());
                     self.get_slice()
@@ -287,13 +293,16 @@ impl<R: Read> BytesLines<R> {
 
                 // No line terminator found, keep on draining.
                 None => {
-                    self.buf.clear();
+                    self.discard();
                     self.drop_until_next_line()
                 }
             },
 
             // We reached the end of the reader, this is the end.
-            Ok(_) => None,
+            Ok(_) => {
+                self.state = State::EoF;
+                None
+            }
 
             // There was a reading error, we return it.
             Err(e) => Some(Err(e)),
-- 
2.43.0


From 28c09ea308849ba185caf4631b788d8353576a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:03 +0000
Subject: [PATCH 18/27] fix: do not recurse once per blank or dropped line

---
 iterator/src/iterator.rs | 62 ++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 21 deletions(-)

diff --git a/iterator/src/iterator.rs b/iterator/src/iterator.rs
index 1874dc5..72c9e53 100644
--- a/iterator/src/iterator.rs
+++ b/iterator/src/iterator.rs
@@ -59,6 +59,18 @@ enum State {
     Scanning(Sep),
 }
 
+// The next step of the iterator.
+enum Step {
+    // The iterator result is available.
+    Done(Option<Result<LogLine>>),
+    // Read a new chunk.
+    Read,
+    // Look for a line in the buffer.
+    Scan,
+    // Drop the current line.
+    Drop,
+}
+
 /// The BytesLines struct holds a single buffer to store the read data and it yields immutable memory slice.
 ///
 // Here is the main sequence diagram:
@@ -118,10 +130,18 @@ impl<R: Read> Iterator for BytesLines<R> {
     type Item = Result<LogLine>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.state {
-            State::EoF => None,
-            State::Scanning(_) if self.buf.is_empty() => self.read_slice(),
-            State::Scanning(_) => self.get_slice(),
+        let mut step = match self.state {
+            State::EoF => Step::Done(None),
+            State::Scanning(_) if self.buf.is_empty() => Step::Read,
+            State::Scanning(_) => Step::Scan,
+        };
+        loop {
+            step = match step {
+                Step::Done(res) => return res,
+                Step::Read => self.read_slice(),
+                Step::Scan => self.get_slice(),
+                Step::Drop => self.drop_until_next_line(),
+            };
         }
     }
 }
@@ -154,25 +174,25 @@ impl<R: Read> BytesLines<R> {
         }
     }
 
-    // Read a new chunk and call get_slice
-    fn read_slice(&mut self) -> Option<Result<LogLine>> {
+    // Read a new chunk
+    fn read_slice(&mut self) -> Step {
         let pos = self.buf.len();
         // When pos is at 0, we are at Step A, otherwise this is Step G
         match self.fill() {
             // We read some data.
-            Ok(n) if n > 0 => self.get_slice(),
+            Ok(n) if n > 0 => Step::Scan,
 
             // Step H: We reached the end of the reader, but we have left-overs.
             Ok(_) if pos > 0 => {
                 self.update_line_counter(State::EoF);
-                Some(Ok((self.buf.split_to(pos).freeze(), self.line_count)))
+                Step::Done(Some(Ok((self.buf.split_to(pos).freeze(), self.line_count))))
             }
 
             // We reached the end of the reader, this is the end.
-            Ok(_) => None,
+            Ok(_) => Step::Done(None),
 
             // There was a reading error, we return it.
-            Err(e) => Some(Err(e)),
+            Err(e) => Step::Done(Some(Err(e))),
         }
     }
 
@@ -195,13 +215,13 @@ impl<R: Read> BytesLines<R> {
     }
 
     // Find the next line in the buffer
-    fn get_slice(&mut self) -> Option<Result<LogLine>> {
+    fn get_slice(&mut self) -> Step {
         match self.find_next_line() {
             // Step J: The current line is over the limit, and we don't know where it ends.
             None if self.buf.len() > self.max_line_length => {
                 self.discard();
                 self.buf.reserve(self.chunk_size);
-                self.drop_until_next_line()
+                Step::Drop
             }
 
             // Step I: The current line is over the limit, we need to discard it.
@@ -209,7 +229,7 @@ impl<R: Read> BytesLines<R> {
                 self.prev_pos = 0;
                 // The next line is already in the buffer, so we can just advance.
                 self.buf.advance(pos + sep.len());
-                self.get_slice()
+                Step::Scan
             }
 
             // Step E: We haven't found the end of the line, we need more data.
@@ -217,7 +237,7 @@ impl<R: Read> BytesLines<R> {
                 // Step F: reserve() will attempt to reclaim space in the buffer.
                 self.prev_pos = self.buf.len();
                 self.buf.reserve(self.chunk_size);
-                self.read_slice()
+                Step::Read
             }
 
             // Step B: We found the end of the line, we can return it now.
@@ -228,9 +248,9 @@ impl<R: Read> BytesLines<R> {
                 // Step D: advance the starting position
                 self.buf.advance(sep.len());
                 if res.is_empty() {
-                    self.get_slice()
+                    Step::Scan
                 } else {
-                    Some(Ok((res, self.line_count)))
+                    Step::Done(Some(Ok((res, self.line_count))))
                 }
             }
         }
@@ -281,31 +301,31 @@ impl<R: Read> BytesLines<R> {
     }
 
     // Drop until we find the next line
-    fn drop_until_next_line(&mut self) -> Option<Result<LogLine>> {
+    fn drop_until_next_line(&mut self) -> Step {
         match self.fill() {
             // We read some data.
             Ok(n) if n > 0 => match self.find_next_line() {
                 // We found the end of the long line.
                 Some((pos, sep)) => {
                     self.buf.advance(pos + sep.len());
-                    self.get_slice()
+                    Step::Scan
                 }
 
                 // No line terminator found, keep on draining.
                 None => {
                     self.discard();
-                    self.drop_until_next_line()
+                    Step::Drop
                 }
             },
 
             // We reached the end of the reader, this is the end.
             Ok(_) => {
                 self.state = State::EoF;
-                None
+                Step::Done(None)
             }
 
             // There was a reading error, we return it.
-            Err(e) => Some(Err(e)),
+            Err(e) => Step::Done(Some(Err(e))),
         }
     }
 }
-- 
2.43.0


From 0c06a52256c0eefe2051514f115c579d5f10300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:44 +0000
Subject: [PATCH 19/27] fix: check the type of the python capsules

---
 python/src/bindings.rs | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/python/src/bindings.rs b/python/src/bindings.rs
index 554fa8a..92ae128 100644
--- a/python/src/bindings.rs
+++ b/python/src/bindings.rs
@@ -6,10 +6,24 @@
 //! This library provides python bindings for the [logreduce](https://github.com/logreduce/logreduce) project.
 
 use logreduce_index::F;
+use pyo3::exceptions::PyTypeError;
 use pyo3::prelude::*;
 use pyo3::types::PyCapsule;
 use std::ffi::CString;
 
+// The names of the capsules, there must be exactly one type per name.
+const FEATURES: &str = "logreduce_rust.features";
+const FEATURES_MATRIX: &str = "logreduce_rust.features_matrix";
+
+/// Check that a capsule was created with the expected name
+fn check_capsule(capsule: &PyCapsule, name: &str) -> PyResult<()> {
+    if capsule.name().to_bytes() == name.as_bytes() {
+        Ok(())
+    } else {
+        Err(PyTypeError::new_err(format!("expected a {} capsule", name)))
+    }
+}
+
 /// Tokenize a line
 #[pyfunction]
 fn process(line: &str) -> String {
@@ -34,52 +48,59 @@ fn logreduce_rust(_py: Python, m: &PyModule) -> PyResult<()> {
     /// Return an opaque Capsule with the model
     #[pyfn(m)]
     fn index(py: Python<'_>, baselines: Vec<String>) -> Result<&PyCapsule, PyErr> {
-        let name = CString::new("model").unwrap();
+        let name = CString::new(FEATURES).unwrap();
         let model = logreduce_index::index(&mut baselines.into_iter());
         PyCapsule::new(py, model, &name)
     }
 
     #[pyfn(m)]
-    fn search(py: Python<'_>, pymodel: Py<PyCapsule>, target: String) -> F {
+    fn search(py: Python<'_>, pymodel: Py<PyCapsule>, target: String) -> PyResult<F> {
+        check_capsule(pymodel.as_ref(py), FEATURES)?;
         let model = unsafe {
             pymodel
                 .as_ref(py)
                 .reference::<Vec<logreduce_index::Features>>()
         };
-        logreduce_index::search(model, &target)
+        Ok(logreduce_index::search(model, &target))
     }
 
     /// Return an opaque Capsule with the model
     #[pyfn(m)]
     fn index_mat(py: Python<'_>, baselines: Vec<String>) -> Result<&PyCapsule, PyErr> {
-        let name = CString::new("model").unwrap();
+        let name = CString::new(FEATURES_MATRIX).unwrap();
         let model = logreduce_index::index_mat(&baselines);
         PyCapsule::new(py, model, &name)
     }
 
     #[pyfn(m)]
-    fn search_mat(py: Python<'_>, pymodel: Py<PyCapsule>, targets: Vec<String>) -> Vec<F> {
+    fn search_mat(
+        py: Python<'_>,
+        pymodel: Py<PyCapsule>,
+        targets: Vec<String>,
+    ) -> PyResult<Vec<F>> {
+        check_capsule(pymodel.as_ref(py), FEATURES_MATRIX)?;
         let model = unsafe {
             pymodel
                 .as_ref(py)
                 .reference::<logreduce_index::FeaturesMatrix>()
         };
-        logreduce_index::search_mat(model, &targets)
+        Ok(logreduce_index::search_mat(model, &targets))
     }
 
     #[pyfn(m)]
-    fn save_mat(py: Python<'_>, pymodel: Py<PyCapsule>) -> Vec<u8> {
+    fn save_mat(py: Python<'_>, pymodel: Py<PyCapsule>) -> PyResult<Vec<u8>> {
+        check_capsule(pymodel.as_ref(py), FEATURES_MATRIX)?;
         let model = unsafe {
             pymodel
                 .as_ref(py)
                 .reference::<logreduce_index::FeaturesMatrix>()
         };
-        logreduce_index::save_mat(model)
+        Ok(logreduce_index::save_mat(model))
     }
 
     #[pyfn(m)]
     fn load_mat(py: Python<'_>, buf: Vec<u8>) -> Result<&PyCapsule, PyErr> {
-        let name = CString::new("model").unwrap();
+        let name = CString::new(FEATURES_MATRIX).unwrap();
         let model = logreduce_index::load_mat(&buf);
         PyCapsule::new(py, model, &name)
     }
-- 
2.43.0


From 6e6d9080e9f320dfaa9b3dbb7a6e83c5cf2de918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:16 +0000
Subject: [PATCH 20/27] fix: tokenizer: do not use one stack frame per
 separator of a word
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The tokenizer called itself for the rest of a word after each separator, so
that a word made of enough parts (e.g. 'é|é|é|...') overflowed the stack and
aborted the process. The rest of the word is now processed by a loop; the
remaining recursive calls are for the part before a separator, which does
not contain it, so that their depth is bounded by the number of separators.
---
 tokenizer/src/tokenizer.rs | 140 +++++++++++++++++++++----------------
 1 file changed, 78 insertions(+), 62 deletions(-)

diff --git a/tokenizer/src/tokenizer.rs b/tokenizer/src/tokenizer.rs
index ad1995f..1788de7 100644
--- a/tokenizer/src/tokenizer.rs
+++ b/tokenizer/src/tokenizer.rs
@@ -430,73 +430,89 @@ fn test_push_error() {
 
 /// The tokenizer main (recursive) function
 fn do_process(mut word: &str, result: &mut String) -> bool {
-    word = trim_quote_and_punctuation(word);
-    let mut added = true;
-    // We try to process from the most specifics to the most general case
-    if let Some(token) = parse_literal(word) {
-        // e.g. `February` or `sha256:...`
-        result.push_str(token)
-    } else if is_error(word) {
-        // e.g. `Traceback`
-        push_error(word, result)
-    } else if word.len() <= 3 {
-        // This is currently confusing the hashing vectorizer,
-        // but it might be useful to keep small words for another feature vector
-        // result.push_str("SML")
-        added = false;
-    } else if let Some(strip) = trim_pid(word) {
-        // e.g. `"systemd[42]"`
-        do_process(strip, result);
-        result.push_str("%PID");
-    } else if contains_odd_char(word) {
-        result.push_str("%ODD")
-    } else if let Some((key, value)) = is_key_value(word) {
-        // e.g. TOKEN=42
-        do_process(key, result);
-        if is_key_for_id(key) {
-            result.push_str("%EQ %VALUE_ID")
-        } else {
-            result.push_str("%EQ ");
-            added = do_process(value, result)
-        }
-    } else if let Some((w1, w2)) = word.split_once('/') {
-        if do_process(w1, result) {
-            result.push_str("/ ");
-        }
-        added = do_process(w2, result);
-    } else if let Some((w1, w2)) = word.split_once('-') {
-        if has_many_dash(w2) {
-            // when word contains more than 4 dash, then consider it noise.
-            // e.g. heat uid looks like: undercloud-UndercloudServiceChain-dt26w6s63vd6-ServiceChain-dxxxgncfjqeg-0-yhtbooauehxj
-            result.push_str("%DASH")
-        } else {
+    // The rest of a word is processed by this loop, instead of recursively,
+    // so that the stack doesn't overflow when a word has too many parts.
+    let mut pids = 0;
+    let added = loop {
+        word = trim_quote_and_punctuation(word);
+        let mut added = true;
+        // We try to process from the most specifics to the most general case
+        if let Some(token) = parse_literal(word) {
+            // e.g. `February` or `sha256:...`
+            result.push_str(token)
+        } else if is_error(word) {
+            // e.g. `Traceback`
+            push_error(word, result)
+        } else if word.len() <= 3 {
+            // This is currently confusing the hashing vectorizer,
+            // but it might be useful to keep small words for another feature vector
+            // result.push_str("SML")
+            added = false;
+        } else if let Some(strip) = trim_pid(word) {
+            // e.g. `"systemd[42]"`
+            pids += 1;
+            word = strip;
+            continue;
+        } else if contains_odd_char(word) {
+            result.push_str("%ODD")
+        } else if let Some((key, value)) = is_key_value(word) {
+            // e.g. TOKEN=42
+            do_process(key, result);
+            if is_key_for_id(key) {
+                result.push_str("%EQ %VALUE_ID")
+            } else {
+                result.push_str("%EQ ");
+                word = value;
+                continue;
+            }
+        } else if let Some((w1, w2)) = word.split_once('/') {
             if do_process(w1, result) {
-                result.push_str("- ");
+                result.push_str("/ ");
             }
-            added = do_process(w2, result)
-        }
-    } else if let Some((w1, w2)) = word.split_once('|') {
-        if do_process(w1, result) {
-            result.push_str("| ");
-        }
-        added = do_process(w2, result)
-    } else if word.len() >= 32 {
-        result.push_str("%BIG")
-    } else if let Some((w1, w2)) = is_two_words(word) {
-        if do_process(w1, result) {
-            result.push(' ');
-        }
-        added = do_process(w2, result);
-    } else {
-        // here finally the word is added
-        let x = remove_numbers(word);
-        if x.len() > 3 {
-            result.push_str(&x)
+            word = w2;
+            continue;
+        } else if let Some((w1, w2)) = word.split_once('-') {
+            if has_many_dash(w2) {
+                // when word contains more than 4 dash, then consider it noise.
+                // e.g. heat uid looks like: undercloud-UndercloudServiceChain-dt26w6s63vd6-ServiceChain-dxxxgncfjqeg-0-yhtbooauehxj
+                result.push_str("%DASH")
+            } else {
+                if do_process(w1, result) {
+                    result.push_str("- ");
+                }
+                word = w2;
+                continue;
+            }
+        } else if let Some((w1, w2)) = word.split_once('|') {
+            if do_process(w1, result) {
+                result.push_str("| ");
+            }
+            word = w2;
+            continue;
+        } else if word.len() >= 32 {
+            result.push_str("%BIG")
+        } else if let Some((w1, w2)) = is_two_words(word) {
+            if do_process(w1, result) {
+                result.push(' ');
+            }
+            word = w2;
+            continue;
         } else {
-            added = false;
+            // here finally the word is added
+            let x = remove_numbers(word);
+            if x.len() > 3 {
+                result.push_str(&x)
+            } else {
+                added = false;
+            }
         }
+        break added;
+    };
+    // The PIDs come after the word they were attached to.
+    for _ in 0..pids {
+        result.push_str("%PID");
     }
-    added
+    added || pids > 0
 }
 
 /// The tokenizer entry point
-- 
2.43.0


From e008e786aa761e507f7861c183ca9093da12fe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:38 +0000
Subject: [PATCH 21/27] fix: a path which is not valid unicode panicked

---
 model/src/files.rs | 8 ++++----
 model/src/model.rs | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/model/src/files.rs b/model/src/files.rs
index ae4a1e6..634912a 100644
--- a/model/src/files.rs
+++ b/model/src/files.rs
@@ -6,7 +6,7 @@
 use anyhow::{Context, Result};
 use std::path::Path;
 
-use crate::{Baselines, Content, IndexName, Input, Source};
+use crate::{Baselines, Content, IndexName, Source};
 
 impl Content {
     #[tracing::instrument(level = "debug")]
@@ -25,9 +25,9 @@ impl Content {
     #[tracing::instrument(level = "debug")]
     pub fn discover_baselines_from_path(path: &Path) -> Result<Baselines> {
         // TODO: implement discovery by looking for common rotated file names.
-        let mut path_str = path.to_path_buf().into_os_string().into_string().unwrap();
-        path_str.push_str(".0");
-        let baseline = Content::from_input(Input::Path(path_str))?;
+        let mut path_str = path.to_path_buf().into_os_string();
+        path_str.push(".0");
+        let baseline = Content::from_path(Path::new(&path_str))?;
         Ok(vec![baseline])
     }
 }
diff --git a/model/src/model.rs b/model/src/model.rs
index 02ab1ad..22e82db 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -50,7 +50,7 @@ impl Input {
         }
     }
     pub fn from_pathbuf(s: PathBuf) -> Input {
-        Input::Path(s.into_os_string().into_string().unwrap())
+        Input::Path(s.to_string_lossy().into_owned())
     }
 }
 
-- 
2.43.0


From f397188c96d4ba07389121fd5c915e84b63c12a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:38 +0000
Subject: [PATCH 22/27] fix: an invalid matrix given from python panicked

---
 index/src/index.rs     | 4 ++--
 python/src/bindings.rs | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/index/src/index.rs b/index/src/index.rs
index dd90e99..49758f1 100644
--- a/index/src/index.rs
+++ b/index/src/index.rs
@@ -49,8 +49,8 @@ pub fn save_mat(mat: &FeaturesMatrix) -> Vec<u8> {
     serialize(mat).unwrap()
 }
 
-pub fn load_mat(buf: &[u8]) -> FeaturesMatrix {
-    deserialize(buf).unwrap()
+pub fn load_mat(buf: &[u8]) -> bincode::Result<FeaturesMatrix> {
+    deserialize(buf)
 }
 
 /// Another implementation for index using a matrix storage
diff --git a/python/src/bindings.rs b/python/src/bindings.rs
index 92ae128..625b87a 100644
--- a/python/src/bindings.rs
+++ b/python/src/bindings.rs
@@ -6,7 +6,7 @@
 //! This library provides python bindings for the [logreduce](https://github.com/logreduce/logreduce) project.
 
 use logreduce_index::F;
-use pyo3::exceptions::PyTypeError;
+use pyo3::exceptions::{PyTypeError, PyValueError};
 use pyo3::prelude::*;
 use pyo3::types::PyCapsule;
 use std::ffi::CString;
@@ -101,7 +101,8 @@ fn logreduce_rust(_py: Python, m: &PyModule) -> PyResult<()> {
     #[pyfn(m)]
     fn load_mat(py: Python<'_>, buf: Vec<u8>) -> Result<&PyCapsule, PyErr> {
         let name = CString::new(FEATURES_MATRIX).unwrap();
-        let model = logreduce_index::load_mat(&buf);
+        let model = logreduce_index::load_mat(&buf)
+            .map_err(|e| PyValueError::new_err(format!("invalid matrix: {}", e)))?;
         PyCapsule::new(py, model, &name)
     }
 
-- 
2.43.0


From e3c590441c80efe75e098ce05e2d522622bb6dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:38 +0000
Subject: [PATCH 23/27] fix: an unreadable entry of a dataset panicked

---
 cli/src/dataset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/dataset.rs b/cli/src/dataset.rs
index c5ea73b..e339efe 100644
--- a/cli/src/dataset.rs
+++ b/cli/src/dataset.rs
@@ -38,8 +38,8 @@ pub fn test_datasets(paths: &[String]) -> Result<()> {
 fn process(path: &Path, dataset: Dataset) -> Result<()> {
     let expected_count = dataset.anomalies.len();
     let paths = std::fs::read_dir(path)?
-        .map(|d| d.unwrap().path())
-        .collect::<Vec<std::path::PathBuf>>();
+        .map(|d| d.map(|d| d.path()))
+        .collect::<std::io::Result<Vec<std::path::PathBuf>>>()?;
     match (
         paths
             .iter()
-- 
2.43.0


From 9bde40a3e681e6283599e140ba1b693c631ecadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:01 +0000
Subject: [PATCH 24/27] fix: the last lines were missing from the context of a
 pending anomaly

When the lines that follow the last anomaly are all duplicates, there is no
target left to search at the end of the source: the anomaly was delivered
without them.
---
 model/src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/src/process.rs b/model/src/process.rs
index ae066bc..62f1d06 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -189,7 +189,7 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
         }
 
         // We reached the end of the file and the last chunk is not completed
-        if !self.targets.is_empty() {
+        if !self.targets.is_empty() || self.current_anomaly.is_some() {
             self.do_search_anomalies();
         }
         if let Some(anomaly) = &self.current_anomaly {
-- 
2.43.0


From e5a9e64e24dce3e91ce78d21a4327fc7b4bbff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:01 +0000
Subject: [PATCH 25/27] fix: lines were shown after an anomaly and again before
 the next one

The lines added to the pending anomaly at the end of a chunk were also kept as
left overs.
---
 model/src/process.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/src/process.rs b/model/src/process.rs
index 62f1d06..8fcd4fd 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -280,6 +280,7 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
                 for ((bytes, _), _) in &self.buffer[last_context_pos..] {
                     let raw_str = logreduce_iterator::clone_bytes_to_string(bytes).unwrap();
                     anomaly.after.push(raw_str);
+                    last_context_pos += 1;
                     if anomaly.after.len() >= CTX_DISTANCE {
                         // The current anomaly is completed. TODO: try using std::mem::replace
                         self.anomalies.push_back(anomaly.clone());
-- 
2.43.0


From e8258950082ef6a19c7828b748bb3511b43cf8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:20 +0000
Subject: [PATCH 26/27] fix: the api of a zuul build page was searched in the
 wrong place of the url

---
 model/src/zuul.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/model/src/zuul.rs b/model/src/zuul.rs
index d9c9100..bad1cba 100644
--- a/model/src/zuul.rs
+++ b/model/src/zuul.rs
@@ -170,23 +170,25 @@ fn is_uid(s: &str) -> bool {
         })
 }
 
-fn api_from_webui(url: &Url, tenant: &str) -> Result<Url> {
-    url.as_str()
-        .split_once("/t/")
+/// The url of the zuul service: the page url without the end of its path.
+fn service_url(url: &Url, page: &str) -> Result<String> {
+    url.path()
+        .strip_suffix(page)
         .ok_or_else(|| anyhow::anyhow!("Invalid zuul url"))
-        .and_then(|(base, _)| {
-            Url::parse(&format!("{}/api/tenant/{}/", base, tenant))
-                .context("Can't recreate zuul api url")
-        })
+        .map(|base| format!("{}{}", &url[..url::Position::BeforePath], base))
 }
 
-fn api_from_whitelabel_webui(url: &Url) -> Result<Url> {
-    url.as_str()
-        .rsplit_once("/build/")
-        .ok_or_else(|| anyhow::anyhow!("Invalid zuul url"))
-        .and_then(|(base, _)| {
-            Url::parse(&format!("{}/api/", base)).context("Can't recreate zuul api url")
-        })
+fn api_from_webui(url: &Url, tenant: &str, uid: &str) -> Result<Url> {
+    service_url(url, &format!("/t/{}/build/{}", tenant, uid)).and_then(|base| {
+        Url::parse(&format!("{}/api/tenant/{}/", base, tenant))
+            .context("Can't recreate zuul api url")
+    })
+}
+
+fn api_from_whitelabel_webui(url: &Url, uid: &str) -> Result<Url> {
+    service_url(url, &format!("/build/{}", uid)).and_then(|base| {
+        Url::parse(&format!("{}/api/", base)).context("Can't recreate zuul api url")
+    })
 }
 
 fn get_zuul_api_url(url: &'_ Url) -> Option<Result<(Url, &'_ str)>> {
@@ -201,12 +203,12 @@ fn get_zuul_api_url(url: &'_ Url) -> Option<Result<(Url, &'_ str)>> {
                     .next_back()
                     .and_then(|tenant| match iter.next_back() {
                         // This is a multi tenant url
-                        Some("t") => Some(api_from_webui(url, tenant).map(|api| (api, uid))),
+                        Some("t") => Some(api_from_webui(url, tenant, uid).map(|api| (api, uid))),
                         _ => None,
                     })
                     .or_else(|| {
                         // Otherwise assume this is a whitelabel url
-                        Some(api_from_whitelabel_webui(url).map(|api| (api, uid)))
+                        Some(api_from_whitelabel_webui(url, uid).map(|api| (api, uid)))
                     }),
             }),
         })
-- 
2.43.0


From bb0ec78508708df8aae653ca6ca1c852d6ab14b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:58 +0000
Subject: [PATCH 27/27] fix: the live output numbered the context lines one too
 low

---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index eeb6eb4..1dcde73 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -279,7 +279,7 @@ fn process_live(output_mode: OutputMode, content: &Content, model: &Model) -> Re
     let print_context = |pos: usize, xs: &[String]| {
         xs.iter()
             .enumerate()
-            .for_each(|(idx, line)| println!("   {} | {}", pos + idx, line))
+            .for_each(|(idx, line)| println!("   {} | {}", pos + 1 + idx, line))
     };
 
     let mut progress_sep_shown = false;
-- 
2.43.0

