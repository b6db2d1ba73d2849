From 2de51d9789e4b2b53922729d7a75687c5c7b5ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:47 +0000
Subject: [PATCH 01/38] fix: do not lose, corrupt or crash on lines around an
 over-long line

- the lines following an over-long line were dropped with the rest of a full
  chunk, or padded with NUL bytes after a short read
- a literal \n split by the discarded chunk underflowed the separator position
- the unread part of the buffer was returned as NUL bytes after a read error
- runs of empty lines overflowed the stack because of the recursion
---
 iterator/src/iterator.rs | 152 +++++++++++++++------------------------
 1 file changed, 58 insertions(+), 94 deletions(-)

diff --git a/iterator/src/iterator.rs b/iterator/src/iterator.rs
index cf9fe95..9a9713c 100644
--- a/iterator/src/iterator.rs
+++ b/iterator/src/iterator.rs
@@ -105,6 +105,8 @@ pub struct BytesLines<R: Read> {
     split_json: Option<JsonState>,
     prev_pos: usize,
     escaped: bool,
+    // The begining of the current line was discarded because it is over the length limit.
+    over_limit: bool,
 }
 
 struct JsonState {
@@ -118,10 +120,22 @@ impl<R: Read> Iterator for BytesLines<R> {
     type Item = Result<LogLine>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.state {
-            State::EoF => None,
-            State::Scanning(_) if self.buf.is_empty() => self.read_slice(),
-            State::Scanning(_) => self.get_slice(),
+        // The number of steps is not bounded, so this needs to be a loop.
+        loop {
+            if self.state == State::EoF {
+                return None;
+            }
+            if let Some(line) = self.get_slice() {
+                return Some(Ok(line));
+            }
+            match self.read_slice() {
+                // We read some data.
+                Ok(n) if n > 0 => {}
+                // We reached the end of the reader, this is the last line.
+                Ok(_) => return self.last_slice().map(Ok),
+                // There was a reading error, we return it.
+                Err(e) => return Some(Err(e)),
+            }
         }
     }
 }
@@ -150,77 +164,60 @@ impl<R: Read> BytesLines<R> {
             line_count: 0,
             prev_pos: 0,
             escaped: false,
+            over_limit: false,
             split_json,
         }
     }
 
-    // Read a new chunk and call get_slice
-    fn read_slice(&mut self) -> Option<Result<LogLine>> {
-        let pos = self.buf.len();
+    // Read a new chunk after the left-overs.
+    fn read_slice(&mut self) -> Result<usize> {
+        // A trailing escape char is not part of the line when it starts a sub line separator.
+        let escape_len = usize::from(self.escaped);
+        if self.buf.len() - escape_len > self.max_line_length {
+            // Step J: The current line is over the limit, and we don't know where it ends.
+            self.over_limit = true;
+            self.buf.advance(self.buf.len() - escape_len);
+        }
         // When pos is at 0, we are at Step A, otherwise this is Step G
+        let pos = self.buf.len();
+        self.prev_pos = pos;
+        // Step F: resize() will attempt to reclaim space in the buffer.
         self.buf.resize(pos + self.chunk_size, 0);
-        match self.reader.read(&mut self.buf[pos..]) {
-            // We read some data.
-            Ok(n) if n > 0 => {
-                self.buf.truncate(pos + n);
-                self.get_slice()
-            }
-
-            // Step H: We reached the end of the reader, but we have left-overs.
-            Ok(_) if pos > 0 => {
-                self.update_line_counter(State::EoF);
-                Some(Ok((self.buf.split_to(pos).freeze(), self.line_count)))
-            }
-
-            // We reached the end of the reader, this is the end.
-            Ok(_) => None,
+        let res = self.reader.read(&mut self.buf[pos..]);
+        // Only keep what was read.
+        self.buf.truncate(pos + *res.as_ref().unwrap_or(&0));
+        res
+    }
 
-            // There was a reading error, we return it.
-            Err(e) => Some(Err(e)),
+    // Step H: We reached the end of the reader, returns the left-overs.
+    fn last_slice(&mut self) -> Option<LogLine> {
+        self.update_line_counter(State::EoF);
+        let res = self.buf.split().freeze();
+        if self.over_limit || res.is_empty() || res.len() > self.max_line_length {
+            None
+        } else {
+            Some((res, self.line_count))
         }
     }
 
     // Find the next line in the buffer
-    fn get_slice(&mut self) -> Option<Result<LogLine>> {
-        match self.find_next_line() {
-            // Step J: The current line is over the limit, and we don't know where it ends.
-            None if self.buf.len() > self.max_line_length => {
-                self.prev_pos = 0;
-                self.buf.clear();
-                self.buf.reserve(self.chunk_size);
-                self.drop_until_next_line()
-            }
-
+    fn get_slice(&mut self) -> Option<LogLine> {
+        // Step B: We found the end of the line.
+        while let Some((pos, sep)) = self.find_next_line() {
+            self.prev_pos = 0;
+            // Step C: split_to() creates a new zero copy reference to the buffer.
+            let res = self.buf.split_to(pos).freeze();
+            // Step D: advance the starting position
+            self.buf.advance(sep.len());
             // Step I: The current line is over the limit, we need to discard it.
-            Some((pos, sep)) if pos > self.max_line_length => {
-                self.prev_pos = 0;
-                // The next line is already in the buffer, so we can just advance.
-                self.buf.advance(pos + sep.len());
-                self.get_slice()
-            }
-
-            // Step E: We haven't found the end of the line, we need more data.
-            None => {
-                // Step F: reserve() will attempt to reclaim space in the buffer.
-                self.prev_pos = self.buf.len();
-                self.buf.reserve(self.chunk_size);
-                self.read_slice()
-            }
-
-            // Step B: We found the end of the line, we can return it now.
-            Some((pos, sep)) => {
-                self.prev_pos = 0;
-                // Step C: split_to() creates a new zero copy reference to the buffer.
-                let res = self.buf.split_to(pos).freeze();
-                // Step D: advance the starting position
-                self.buf.advance(sep.len());
-                if res.is_empty() {
-                    self.get_slice()
-                } else {
-                    Some(Ok((res, self.line_count)))
-                }
+            let over_limit =
+                std::mem::take(&mut self.over_limit) || res.len() > self.max_line_length;
+            if !over_limit && !res.is_empty() {
+                return Some((res, self.line_count));
             }
         }
+        // Step E: We haven't found the end of the line, we need more data.
+        None
     }
 
     // Find the next line position and update the line count
@@ -266,39 +263,6 @@ impl<R: Read> BytesLines<R> {
         }
         self.state = state;
     }
-
-    // Drop until we find the next line
-    fn drop_until_next_line(&mut self) -> Option<Result<LogLine>> {
-        self.buf.resize(self.chunk_size, 0);
-        match self.reader.read(&mut self.buf) {
-            // We read some data.
-            Ok(n) if n > 0 => match self.find_next_line() {
-                // the long line terminated at the end of the buffer.
-                Some(_) if n == self.chunk_size => {
-                    self.buf.clear();
-                    self.read_slice()
-                }
-
-                // the next line is already in the buffer
-                Some((pos, sep)) => {
-                    self.buf.advance(pos + sep.len());
-                    self.get_slice()
-                }
-
-                // No line terminator found, keep on draining.
-                None => {
-                    self.buf.clear();
-                    self.drop_until_next_line()
-                }
-            },
-
-            // We reached the end of the reader, this is the end.
-            Ok(_) => None,
-
-            // There was a reading error, we return it.
-            Err(e) => Some(Err(e)),
-        }
-    }
 }
 
 // Check if the given char is a json k/v separator.
-- 
2.43.0


From 55dbf93a10dfb6e6f1ae8207b8a76f2c0e9e4a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:47 +0000
Subject: [PATCH 02/38] fix: count the line returns that follow a backslash

---
 iterator/src/iterator.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/iterator/src/iterator.rs b/iterator/src/iterator.rs
index 9a9713c..1855f15 100644
--- a/iterator/src/iterator.rs
+++ b/iterator/src/iterator.rs
@@ -227,10 +227,11 @@ impl<R: Read> BytesLines<R> {
             let c = *c as char;
             let sep = if self.escaped {
                 self.escaped = false;
-                if c == 'n' {
-                    Some(Sep::SubLine)
-                } else {
-                    None
+                match c {
+                    'n' => Some(Sep::SubLine),
+                    // A line return always ends the line, otherwise the line count is off.
+                    '\n' => Some(Sep::NewLine),
+                    _ => None,
                 }
             } else if c == '\\' {
                 self.escaped = true;
-- 
2.43.0


From 334158ac8b0e4c79f0361253ee2ddae9923ff4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:38 +0000
Subject: [PATCH 03/38] fix: do not resume the inspection after the
 log-classify banner

The banner only ended the current chunk: when anomalies precede it, the
iterator was called again and went on with the lines after the banner.
---
 model/src/process.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/model/src/process.rs b/model/src/process.rs
index a36074e..4659982 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -95,6 +95,8 @@ pub struct ChunkProcessor<'a, R: Read> {
     skip_lines: &'a mut HashSet<String>,
     /// The current line coordinate.
     coord: usize,
+    /// The end of the source was reached.
+    completed: bool,
     /// Total lines count
     pub line_count: usize,
     /// Total bytes count
@@ -135,12 +137,16 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
             anomalies: VecDeque::new(),
             skip_lines,
             coord: 0,
+            completed: false,
             line_count: 0,
             byte_count: 0,
         }
     }
 
     fn read_anomalies(&mut self) -> Result<()> {
+        if self.completed {
+            return Ok(());
+        }
         while let Some(line) = self.reader.next() {
             let line = line?;
             let raw_str = std::str::from_utf8(&line.0[..])
@@ -181,6 +187,8 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
             }
         }
 
+        self.completed = true;
+
         // We reached the end of the file and the last chunk is not completed
         if !self.targets.is_empty() {
             self.do_search_anomalies();
-- 
2.43.0


From 116a7a7f7ebbb58bc2955ae89f2ecfcf3d1bf2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:26 +0000
Subject: [PATCH 04/38] fix: report the anomalies that precede a read failure

The lines of the pending chunk were dropped when the reader failed or
when a line was not valid UTF-8, and with them up to 512 unique lines.
---
 model/src/process.rs | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/model/src/process.rs b/model/src/process.rs
index 4659982..7bde98d 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -97,6 +97,8 @@ pub struct ChunkProcessor<'a, R: Read> {
     coord: usize,
     /// The end of the source was reached.
     completed: bool,
+    /// The error that ended the source, to be returned after the anomalies that precede it.
+    read_error: Option<anyhow::Error>,
     /// Total lines count
     pub line_count: usize,
     /// Total bytes count
@@ -110,11 +112,14 @@ impl<'a, R: Read> Iterator for ChunkProcessor<'a, R> {
         self.anomalies
             .pop_front()
             .map(Ok)
-            .or_else(|| match self.read_anomalies() {
+            .or_else(|| {
+                self.read_anomalies();
                 // When read_anomalies doesn't push new anomalies, that means we reach the end.
-                Ok(()) if self.anomalies.is_empty() => None,
-                Ok(()) => self.next(),
-                Err(e) => Some(Err(e)),
+                if self.anomalies.is_empty() {
+                    self.read_error.take().map(Err)
+                } else {
+                    self.next()
+                }
             })
     }
 }
@@ -138,19 +143,31 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
             skip_lines,
             coord: 0,
             completed: false,
+            read_error: None,
             line_count: 0,
             byte_count: 0,
         }
     }
 
-    fn read_anomalies(&mut self) -> Result<()> {
+    fn read_anomalies(&mut self) {
         if self.completed {
-            return Ok(());
+            return;
         }
         while let Some(line) = self.reader.next() {
-            let line = line?;
-            let raw_str = std::str::from_utf8(&line.0[..])
-                .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
+            let line = match line {
+                Ok(line) => line,
+                Err(e) => {
+                    self.read_error = Some(e.into());
+                    break;
+                }
+            };
+            let raw_str = match std::str::from_utf8(&line.0[..]) {
+                Ok(raw_str) => raw_str,
+                Err(e) => {
+                    self.read_error = Some(e.into());
+                    break;
+                }
+            };
             self.line_count += 1;
             self.byte_count += line.0.len();
             self.coord += 1;
@@ -175,14 +192,14 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
                 if self.targets.len() == CHUNK_SIZE {
                     self.do_search_anomalies();
                     if !self.anomalies.is_empty() {
-                        return Ok(());
+                        return;
                     }
                 }
             } else if self.buffer.len() > CHUNK_SIZE * 10 {
                 // the source contains mostly duplicate line.
                 self.do_search_anomalies();
                 if !self.anomalies.is_empty() {
-                    return Ok(());
+                    return;
                 }
             }
         }
@@ -198,7 +215,6 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
             self.anomalies.push_back(anomaly.clone());
             self.current_anomaly = None;
         }
-        Ok(())
     }
 
     /// Helper function for the anomalies_from_reader implementation.
-- 
2.43.0


From dfc840d6eb9ae200bc7dc23b092663e64e1dffec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:26 +0000
Subject: [PATCH 05/38] fix: keep the anomaly context exact at chunk boundaries

The after context found at the end of a chunk was shown again as the
before context of the next anomaly, and the after context made of known
lines at the end of the file was lost.
---
 model/src/process.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/model/src/process.rs b/model/src/process.rs
index 7bde98d..68602f9 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -109,18 +109,15 @@ impl<'a, R: Read> Iterator for ChunkProcessor<'a, R> {
     type Item = Result<AnomalyContext>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.anomalies
-            .pop_front()
-            .map(Ok)
-            .or_else(|| {
-                self.read_anomalies();
-                // When read_anomalies doesn't push new anomalies, that means we reach the end.
-                if self.anomalies.is_empty() {
-                    self.read_error.take().map(Err)
-                } else {
-                    self.next()
-                }
-            })
+        self.anomalies.pop_front().map(Ok).or_else(|| {
+            self.read_anomalies();
+            // When read_anomalies doesn't push new anomalies, that means we reach the end.
+            if self.anomalies.is_empty() {
+                self.read_error.take().map(Err)
+            } else {
+                self.next()
+            }
+        })
     }
 }
 
@@ -207,7 +204,7 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
         self.completed = true;
 
         // We reached the end of the file and the last chunk is not completed
-        if !self.targets.is_empty() {
+        if !self.buffer.is_empty() {
             self.do_search_anomalies();
         }
         if let Some(anomaly) = &self.current_anomaly {
@@ -297,6 +294,8 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
                 for ((bytes, _), _) in &self.buffer[last_context_pos..] {
                     let raw_str = logreduce_iterator::clone_bytes_to_string(bytes).unwrap();
                     anomaly.after.push(raw_str);
+                    // The line must not be part of the next anomaly before context.
+                    last_context_pos += 1;
                     if anomaly.after.len() >= CTX_DISTANCE {
                         // The current anomaly is completed. TODO: try using std::mem::replace
                         self.anomalies.push_back(anomaly.clone());
-- 
2.43.0


From 8c4114cf138f921750aeb5960c51c7fb71068989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:28 +0000
Subject: [PATCH 06/38] fix: decompress the local files whose name ends in .gz

---
 model/src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/src/reader.rs b/model/src/reader.rs
index 07ec6df..35e98b0 100644
--- a/model/src/reader.rs
+++ b/model/src/reader.rs
@@ -52,7 +52,7 @@ use DecompressReader::*;
 pub fn from_path(path: &Path) -> Result<DecompressReader> {
     let fp = File::open(path)?;
     let extension = path.extension().unwrap_or_else(|| std::ffi::OsStr::new(""));
-    Ok(if extension == ".gz" {
+    Ok(if extension == "gz" {
         Gz(GzDecoder::new(fp))
     } else {
         Flat(fp)
-- 
2.43.0


From 0a33a13d9cdcb2007610f967000a9aab0dd4c186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:28 +0000
Subject: [PATCH 07/38] fix: read compressed json files as json

---
 model/src/model.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 5dc13c3..bf3cf55 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -93,7 +93,9 @@ impl Source {
         Source::Local(0, p)
     }
     pub fn is_json(&'_ self) -> bool {
-        self.get_relative().ends_with(".json")
+        self.get_relative()
+            .trim_end_matches(".gz")
+            .ends_with(".json")
     }
     pub fn get_relative(&'_ self) -> &'_ str {
         match self {
-- 
2.43.0


From ac19f5cc457b54d2e1af5c46fdbc5288eaf65ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:28 +0000
Subject: [PATCH 08/38] fix: use the actual base of a remote file for the cache

---
 model/src/urls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/src/urls.rs b/model/src/urls.rs
index c8558fa..b0c005f 100644
--- a/model/src/urls.rs
+++ b/model/src/urls.rs
@@ -32,7 +32,7 @@ impl Source {
         if prefix == 0 {
             crate::reader::from_url(url, url)
         } else {
-            crate::reader::from_url(&Url::parse(&url.as_str()[..42])?, url)
+            crate::reader::from_url(&Url::parse(&url.as_str()[..prefix])?, url)
         }
     }
 
-- 
2.43.0


From 3d72de171f60a96c95eae1090038fb17e33fe5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:28 +0000
Subject: [PATCH 09/38] fix: do not panic on the sources that are not below
 their base

---
 model/src/model.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index bf3cf55..c684e0e 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -88,6 +88,11 @@ impl std::fmt::Display for Source {
     }
 }
 
+/// Remove the base prefix, a location that is not below the base is kept in full.
+fn relative(location: &str, base_len: usize) -> &str {
+    location.get(base_len..).unwrap_or(location)
+}
+
 impl Source {
     pub fn from_pathbuf(p: PathBuf) -> Source {
         Source::Local(0, p)
@@ -99,8 +104,8 @@ impl Source {
     }
     pub fn get_relative(&'_ self) -> &'_ str {
         match self {
-            Source::Local(base_len, path) => &path.to_str().unwrap_or("")[*base_len..],
-            Source::Remote(base_len, url) => &url.as_str()[*base_len..],
+            Source::Local(base_len, path) => relative(path.to_str().unwrap_or(""), *base_len),
+            Source::Remote(base_len, url) => relative(url.as_str(), *base_len),
         }
     }
 
-- 
2.43.0


From 2cd01cf7dcca5c4af21e9d6169529b210dd4225b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:28 +0000
Subject: [PATCH 10/38] fix: keep on inspecting after a source that cannot be
 opened

---
 model/src/model.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index c684e0e..c255bf9 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -512,10 +512,7 @@ impl Model {
                                     });
                                 }
                             }
-                            Err(err) => {
-                                read_errors.push((source.clone(), format!("{}", err)));
-                                break;
-                            }
+                            Err(err) => read_errors.push((source.clone(), format!("{}", err))),
                         }
                     }
                 }
-- 
2.43.0


From 4babd4c049e3afd04462eada3ea0526591e8b8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:28 +0000
Subject: [PATCH 11/38] fix: keep on printing after a source that cannot be
 opened

---
 cli/src/main.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index cfeba4d..3191bb4 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -338,10 +338,7 @@ fn process_live(output_mode: OutputMode, content: &Content, model: &Model) -> Re
                         }
                         total_line_count += processor.line_count;
                     }
-                    Err(err) => {
-                        println!("Could not read {}: {}", &source, err);
-                        break;
-                    }
+                    Err(err) => println!("Could not read {}: {}", &source, err),
                 }
             }
             None => {
-- 
2.43.0


From c2b99a1ea33e34aafd41cd132a771f6a9cf7254b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:28 +0000
Subject: [PATCH 12/38] fix: print the line number of the context lines

---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 3191bb4..8fdb683 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -279,7 +279,7 @@ fn process_live(output_mode: OutputMode, content: &Content, model: &Model) -> Re
     let print_context = |pos: usize, xs: &[String]| {
         xs.iter()
             .enumerate()
-            .for_each(|(idx, line)| println!("   {} | {}", pos + idx, line))
+            .for_each(|(idx, line)| println!("   {} | {}", pos + 1 + idx, line))
     };
 
     let mut progress_sep_shown = false;
-- 
2.43.0


From 5d4aa0c79e0845ef179b5ee9717b08d00fd0017e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:28 +0000
Subject: [PATCH 13/38] fix: do not read an http error page as the content of a
 log

---
 model/src/reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/model/src/reader.rs b/model/src/reader.rs
index 35e98b0..50c7177 100644
--- a/model/src/reader.rs
+++ b/model/src/reader.rs
@@ -29,7 +29,11 @@ mod remote {
     use super::*;
 
     pub fn get_url(url: &Url) -> Result<Response> {
-        CLIENT.get(url.clone()).send().context("Can't get url")
+        CLIENT
+            .get(url.clone())
+            .send()
+            .and_then(|resp| resp.error_for_status())
+            .context("Can't get url")
     }
 
     pub fn head(url: &Url) -> Result<bool> {
-- 
2.43.0


From 2f82c1354973923b19f28a7b5385f0b32449d925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:28 +0000
Subject: [PATCH 14/38] fix: do not list an http error page as an empty
 directory

---
 httpdir/src/httpdir.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index 5d4a447..d649261 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -242,7 +242,11 @@ fn path_dir(url: &Url) -> Option<Url> {
 /// List the files and directories of a single url.
 pub fn http_list(client: &Client, url: Url) -> Result<Vec<Url>> {
     // dbg!(&url);
-    match client.get(url).send() {
+    match client
+        .get(url)
+        .send()
+        .and_then(|resp| resp.error_for_status())
+    {
         Ok(resp) => {
             let url = resp.url().clone();
             match resp.text() {
-- 
2.43.0


From 3b0c186dc18b7285246135854392e199ffc1caed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:28 +0000
Subject: [PATCH 15/38] fix: report the failure to write the end of a model or
 report file

---
 model/src/model.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index c255bf9..0f7df15 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -244,14 +244,14 @@ pub struct Report {
 
 impl Report {
     pub fn save(&self, path: &Path) -> Result<()> {
-        bincode::serialize_into(
-            flate2::write::GzEncoder::new(
-                std::fs::File::create(path).context("Can't create report file")?,
-                flate2::Compression::fast(),
-            ),
-            self,
-        )
-        .context("Can't save report")
+        let mut encoder = flate2::write::GzEncoder::new(
+            std::fs::File::create(path).context("Can't create report file")?,
+            flate2::Compression::fast(),
+        );
+        bincode::serialize_into(&mut encoder, self).context("Can't save report")?;
+        // The end of the file is written here, that must not be left to drop which ignores the errors.
+        encoder.finish().context("Can't save report")?;
+        Ok(())
     }
 
     pub fn load(path: &Path) -> Result<Report> {
@@ -449,14 +449,14 @@ impl Model {
 
     pub fn save(&self, path: &Path) -> Result<()> {
         tracing::info!(path = path.to_str(), "Saving model");
-        bincode::serialize_into(
-            flate2::write::GzEncoder::new(
-                std::fs::File::create(path).context("Can't create file")?,
-                flate2::Compression::fast(),
-            ),
-            self,
-        )
-        .context("Can't save model")
+        let mut encoder = flate2::write::GzEncoder::new(
+            std::fs::File::create(path).context("Can't create file")?,
+            flate2::Compression::fast(),
+        );
+        bincode::serialize_into(&mut encoder, self).context("Can't save model")?;
+        // The end of the file is written here, that must not be left to drop which ignores the errors.
+        encoder.finish().context("Can't save model")?;
+        Ok(())
     }
 
     /// Get the matching index for a given Source.
-- 
2.43.0


From c07851175ea21a7d0383cb6c2190ef6d086dc9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:28 +0000
Subject: [PATCH 16/38] fix: do not take the local paths named http* for urls

---
 model/src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 0f7df15..595d9dd 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -44,7 +44,7 @@ pub enum Input {
 
 impl Input {
     pub fn from_string(s: String) -> Input {
-        match s.starts_with("http") {
+        match s.starts_with("http://") || s.starts_with("https://") {
             true => Input::Url(s),
             false => Input::Path(s),
         }
-- 
2.43.0


From fc194d5d7b3bb942420308d3ad57dbdddd0fb57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:28 +0000
Subject: [PATCH 17/38] fix: do not panic on a malformed url

---
 model/src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 595d9dd..2248693 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -335,7 +335,7 @@ impl Content {
         match input {
             Input::Path(path_str) => Content::from_path(Path::new(&path_str)),
             Input::Url(url_str) => {
-                Content::from_url(Url::parse(&url_str).expect("Failed to parse url"))
+                Content::from_url(Url::parse(&url_str).context("Failed to parse url")?)
             }
         }
     }
-- 
2.43.0


From a58260a150680c2cce3f42582839cb685a3c231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:54 +0000
Subject: [PATCH 18/38] fix: decode the long durations exactly

---
 zuul/src/zuul-build.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zuul/src/zuul-build.rs b/zuul/src/zuul-build.rs
index 8b86a2e..43d14f8 100644
--- a/zuul/src/zuul-build.rs
+++ b/zuul/src/zuul-build.rs
@@ -119,7 +119,7 @@ mod rounded_float {
     where
         D: Deserializer<'de>,
     {
-        let v = f32::deserialize(deserializer)?;
+        let v = f64::deserialize(deserializer)?;
         Ok(v as u32)
     }
 }
-- 
2.43.0


From caf270e1505347820944ad9760410a491daf9923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:54 +0000
Subject: [PATCH 19/38] fix: find the zuul api next to the path that was
 recognised

---
 model/src/zuul.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model/src/zuul.rs b/model/src/zuul.rs
index 5db1d76..d9ad007 100644
--- a/model/src/zuul.rs
+++ b/model/src/zuul.rs
@@ -171,8 +171,8 @@ fn is_uid(s: &str) -> bool {
 }
 
 fn api_from_webui(url: &Url, tenant: &str) -> Result<Url> {
-    url.as_str()
-        .split_once("/t/")
+    url[..url::Position::AfterPath]
+        .rsplit_once(&format!("/t/{}/build/", tenant))
         .ok_or_else(|| anyhow::anyhow!("Invalid zuul url"))
         .and_then(|(base, _)| {
             Url::parse(&format!("{}/api/tenant/{}/", base, tenant))
@@ -181,7 +181,7 @@ fn api_from_webui(url: &Url, tenant: &str) -> Result<Url> {
 }
 
 fn api_from_whitelabel_webui(url: &Url) -> Result<Url> {
-    url.as_str()
+    url[..url::Position::AfterPath]
         .rsplit_once("/build/")
         .ok_or_else(|| anyhow::anyhow!("Invalid zuul url"))
         .and_then(|(base, _)| {
-- 
2.43.0


From a12c1e849b2b36611d6e4bbc98bff905de283f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:54 +0000
Subject: [PATCH 20/38] fix: do not panic on a zuul build without url or change

---
 model/src/zuul.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/model/src/zuul.rs b/model/src/zuul.rs
index d9ad007..f99758e 100644
--- a/model/src/zuul.rs
+++ b/model/src/zuul.rs
@@ -79,8 +79,8 @@ impl Build {
         }
         // Older builds are less valuable
         score -= elapsed_days(now, target.end_time.date_naive());
-        // Check the build has URLs
-        match target.log_url.is_some() && target.ref_url.is_some() {
+        // Check the build has URLs and a change
+        match target.log_url.is_some() && target.ref_url.is_some() && target.change.is_some() {
             true => Some(score),
             false => None,
         }
@@ -107,7 +107,7 @@ impl Build {
         let samples = self.get_success_samples()?;
         let max_builds = 1;
         let now = Utc::now().date_naive();
-        Ok(samples
+        samples
             .into_iter()
             // Compute a score value
             .map(|build| (self.baseline_score(&build, &now), build))
@@ -122,7 +122,7 @@ impl Build {
             .take(max_builds)
             // Create the content data type
             .map(|(_score, build)| new_content(self.api.clone(), build))
-            .collect())
+            .collect::<Result<Vec<_>>>()
     }
 
     pub fn sources_iter(&self) -> Box<dyn Iterator<Item = Result<Source>>> {
@@ -130,8 +130,8 @@ impl Build {
     }
 }
 
-fn new_content(api: Url, build: zuul_build::Build) -> Content {
-    Content::Zuul(Box::new(Build {
+fn new_content(api: Url, build: zuul_build::Build) -> Result<Content> {
+    Ok(Content::Zuul(Box::new(Build {
         api,
         uuid: build.uuid,
         job_name: build.job_name,
@@ -139,11 +139,11 @@ fn new_content(api: Url, build: zuul_build::Build) -> Content {
         branch: build.branch,
         result: build.result,
         pipeline: build.pipeline,
-        log_url: build.log_url.expect("Invalid build"),
-        ref_url: build.ref_url.expect("Invalid build"),
+        log_url: build.log_url.context("The build has no log url")?,
+        ref_url: build.ref_url.context("The build has no ref url")?,
         end_time: build.end_time,
-        change: build.change.expect("Invalid build"),
-    }))
+        change: build.change.context("The build has no change")?,
+    })))
 }
 
 fn get_build(api: &Url, uid: &str) -> Result<zuul_build::Build> {
@@ -216,7 +216,9 @@ fn get_zuul_api_url(url: &'_ Url) -> Option<Result<(Url, &'_ str)>> {
 impl Content {
     pub fn from_zuul_url(url: &Url) -> Option<Result<Content>> {
         get_zuul_api_url(url).map(|res| {
-            res.and_then(|(api, uid)| get_build(&api, uid).map(|build| new_content(api, build)))
+            res.and_then(|(api, uid)| {
+                get_build(&api, uid).and_then(|build| new_content(api, build))
+            })
         })
     }
 }
-- 
2.43.0


From 090026e5c42ada758a01430a21c1ff75a26a0883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:52 +0000
Subject: [PATCH 21/38] fix: do not keep the interrupted downloads in the cache

---
 cache/src/cache.rs | 71 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 57 insertions(+), 14 deletions(-)

diff --git a/cache/src/cache.rs b/cache/src/cache.rs
index 29cacf2..316ba06 100644
--- a/cache/src/cache.rs
+++ b/cache/src/cache.rs
@@ -8,6 +8,7 @@ use flate2::read::GzDecoder;
 use flate2::write::GzEncoder;
 use std::fs::File;
 use std::io::{Read, Write};
+use std::path::{Path, PathBuf};
 use url::Url;
 
 // Low level functions to create unique file names
@@ -35,6 +36,14 @@ mod filename {
         format!("{}/{}", new('1', base), new('4', url))
     }
 
+    /// A name next to path that is not used by another reader.
+    pub fn temporary(path: &Path) -> PathBuf {
+        use std::sync::atomic::{AtomicUsize, Ordering};
+        static COUNTER: AtomicUsize = AtomicUsize::new(0);
+        let nr = COUNTER.fetch_add(1, Ordering::Relaxed);
+        path.with_extension(format!("{}-{}.tmp", std::process::id(), nr))
+    }
+
     pub fn drop(path: Option<std::path::PathBuf>) -> Result<()> {
         path.map_or_else(
             || Ok(()),
@@ -82,10 +91,15 @@ impl Cache {
 
     /// Add a file reader to the cache.
     pub fn remote_add<R: Read>(&self, base: &Url, path: &Url, obj: R) -> Result<CacheReader<R>> {
-        let fp = self.create(&filename::http(base, path))?;
+        let path = self.new_path(&filename::http(base, path))?;
+        // The entry is created when the remote object is complete.
+        let tmp = filename::temporary(&path);
+        let fp = File::create(&tmp).context("Failed to create local cache file")?;
         Ok(CacheReader {
             remote: obj,
-            local: GzEncoder::new(fp, flate2::Compression::fast()),
+            local: Some(GzEncoder::new(fp, flate2::Compression::fast())),
+            tmp,
+            path,
         })
     }
 
@@ -123,8 +137,8 @@ impl Cache {
         }
     }
 
-    // creates a new cache entry.
-    fn create(&self, path: &str) -> Result<File> {
+    // prepares the path of a new cache entry.
+    fn new_path(&self, path: &str) -> Result<PathBuf> {
         let buf = self.xdg.get_cache_file(path);
         let path = buf.as_path();
         if path.exists() {
@@ -132,32 +146,61 @@ impl Cache {
         } else {
             let parent = path.parent().context("Failed to get cache parent")?;
             std::fs::create_dir_all(parent).context("Failed to create parent dir")?;
-            File::create(buf).context("Failed to create local cache file")
+            Ok(buf)
         }
     }
+
+    // creates a new cache entry.
+    fn create(&self, path: &str) -> Result<File> {
+        File::create(self.new_path(path)?).context("Failed to create local cache file")
+    }
 }
 
 /// A Reader object that saves remote data to a local compressed file.
 pub struct CacheReader<R: Read> {
     remote: R,
-    local: GzEncoder<File>,
+    // The local copy, until it is complete or abandoned.
+    local: Option<GzEncoder<File>>,
+    tmp: PathBuf,
+    path: PathBuf,
 }
 
 impl<R: Read> Read for CacheReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         // Read remote data.
-        let remote_read = self.remote.read(buf);
-        match remote_read {
-            // Write to the local file
-            Ok(remote_size) => self
-                .local
-                .write_all(&buf[..remote_size])
-                .map(|()| remote_size),
-            Err(e) => Err(e),
+        match self.remote.read(buf) {
+            Ok(remote_size) => {
+                // Write to the local file
+                if let Some(local) = self.local.as_mut() {
+                    local.write_all(&buf[..remote_size])?;
+                }
+                // The remote data is complete
+                if remote_size == 0 && !buf.is_empty() {
+                    if let Some(local) = self.local.take() {
+                        local.finish()?;
+                        std::fs::rename(&self.tmp, &self.path)?;
+                    }
+                }
+                Ok(remote_size)
+            }
+            Err(e) => {
+                if e.kind() != std::io::ErrorKind::Interrupted {
+                    // Do not keep incomplete data
+                    self.local = None;
+                }
+                Err(e)
+            }
         }
     }
 }
 
+impl<R: Read> Drop for CacheReader<R> {
+    fn drop(&mut self) {
+        // When the data is complete, the file has already been renamed.
+        let _ = std::fs::remove_file(&self.tmp);
+    }
+}
+
 #[test]
 fn test_httpdir() {
     let cache = Cache::new().unwrap();
-- 
2.43.0


From c966c4f0689c2ed8a0cac2f62eb0f85e8d48e19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:52 +0000
Subject: [PATCH 22/38] fix: forget the results of a failed crawl

---
 httpdir/src/httpdir.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index d649261..3510cb6 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -109,7 +109,9 @@ impl Crawler {
         if self.workers.panic_count() > 0 {
             Err(mk_error("Crawler panicked!"))
         } else {
-            self.rx.try_iter().flatten().collect()
+            // Take all the messages: after an error they must not be left for the next call.
+            let messages: Vec<Message> = self.rx.try_iter().collect();
+            messages.into_iter().flatten().collect()
         }
     }
 
-- 
2.43.0


From b7b6c751174292268b3a2b9b9f54691e2c5c985b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:52 +0000
Subject: [PATCH 23/38] fix: do not lose the last urls of a crawl or overflow
 the stack

---
 httpdir/src/httpdir.rs | 53 +++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 34 deletions(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index 3510cb6..643016a 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -30,7 +30,6 @@ use regex::Regex;
 use reqwest::blocking::Client;
 use std::io::Result;
 use std::sync::mpsc::{channel, Receiver, Sender};
-use std::time::Duration;
 use threadpool::ThreadPool;
 use url::Url;
 
@@ -186,44 +185,30 @@ struct CrawlerIter {
     rx: Receiver<Message>,
 }
 
-impl CrawlerIter {
-    // We are done when all the work is completed: no worker are active or queued.
-    fn is_done(&self) -> bool {
-        self.abort
-            || (self.workers.active_count() + self.workers.queued_count() == 0
-                // ensure that when there is a panic, we propagate the error.
-                && self.workers.panic_count() == 0)
-    }
-}
-
 impl Iterator for CrawlerIter {
     type Item = Result<Url>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.rx.try_recv() {
-            // A new url was found, we return it.
-            Ok(Some(r)) => Some(r),
-
-            // A worker finished it's job, we keep on iterating.
-            Ok(None) => self.next(),
-
-            // No messages are available and all the workers are done, we stop the iterator.
-            Err(_) if self.is_done() => None,
-
-            // There was a panic
-            Err(_) if self.workers.panic_count() > 0 => {
-                self.abort = true;
-                Some(Err(mk_error("Crawler panicked!")))
+        loop {
+            match self.rx.recv() {
+                // A new url was found, we return it.
+                Ok(Some(r)) => return Some(r),
+
+                // A worker finished it's job, we keep on iterating.
+                Ok(None) => continue,
+
+                // The jobs own the senders, so they are all completed.
+                Err(_) => {
+                    self.workers.join();
+                    return if self.workers.panic_count() > 0 && !self.abort {
+                        // There was a panic, we propagate the error once.
+                        self.abort = true;
+                        Some(Err(mk_error("Crawler panicked!")))
+                    } else {
+                        None
+                    };
+                }
             }
-
-            // The workers are still active, we can block recv to wait for the next message.
-            Err(_) => match self.rx.recv_timeout(Duration::from_secs(1)) {
-                // A new url was found, we can return it.
-                Ok(Some(r)) => Some(r),
-
-                // A worker completed it's task, we keep on iterating.
-                _ => self.next(),
-            },
         }
     }
 }
-- 
2.43.0


From cac762006b99d4785fab91e3e6926acc52fdd2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:52 +0000
Subject: [PATCH 24/38] fix: list the files with a short name or a name that
 starts with a symbol

---
 httpdir/src/httpdir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index 643016a..41542f6 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -248,7 +248,7 @@ pub fn http_list(client: &Client, url: Url) -> Result<Vec<Url>> {
 fn parse_index_of(base_url: Url, page: &str) -> Result<Vec<Url>> {
     // TODO check for title and support different types of indexes
     lazy_static! {
-        static ref RE: Regex = Regex::new(r#"<a href="([\\/a-zA-Z0-9][^"]+)">"#).unwrap();
+        static ref RE: Regex = Regex::new(r#"<a href="([\\/a-zA-Z0-9_.~%-][^"]*)">"#).unwrap();
     }
 
     RE.captures_iter(page)
-- 
2.43.0


From 82f065659dc3fbf98e1aa3d13960dc717a88071d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:52 +0000
Subject: [PATCH 25/38] fix: skip the etc directories that are linked by their
 index.html

---
 httpdir/src/httpdir.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index 41542f6..6233f18 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -150,12 +150,12 @@ impl Crawler {
                 // We decoded some urls.
                 Ok(urls) => {
                     for url in urls {
-                        if url.path().ends_with("/etc/") {
+                        if let Some(url) = path_dir(&url) {
                             // Special case to avoid system config directory
-                            continue;
-                        } else if let Some(url) = path_dir(&url) {
-                            // Recursively call the handler on sub directory.
-                            Crawler::process(&visitor, &client, &sub_pool, &tx, url)
+                            if !url.path().ends_with("/etc/") {
+                                // Recursively call the handler on sub directory.
+                                Crawler::process(&visitor, &client, &sub_pool, &tx, url)
+                            }
                         } else {
                             // Send file location to the mpsc channel.
                             tx.send(Some(Ok(url))).unwrap()
-- 
2.43.0


From 535037c9576074687cef59099c45f03852ef350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:12 +0000
Subject: [PATCH 26/38] fix: list once the files that are linked several times

---
 httpdir/src/httpdir.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index 6233f18..b53e4a8 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -28,8 +28,10 @@
 use lazy_static::lazy_static;
 use regex::Regex;
 use reqwest::blocking::Client;
+use std::collections::HashSet;
 use std::io::Result;
 use std::sync::mpsc::{channel, Receiver, Sender};
+use std::sync::{Arc, Mutex};
 use threadpool::ThreadPool;
 use url::Url;
 
@@ -41,19 +43,31 @@ pub fn list(url: Url) -> Result<Vec<Url>> {
 /// Helper struct to prevent infinit loop.
 struct Visitor {
     // todo: add unique host check
-    // todo: add url hashset to check for unique url
     min_len: usize,
+    // The urls that were already seen by this crawl.
+    seen: Arc<Mutex<HashSet<Url>>>,
 }
 
 impl Visitor {
     fn new() -> Visitor {
-        Visitor { min_len: 0 }
+        Visitor {
+            min_len: 0,
+            seen: Arc::default(),
+        }
+    }
+
+    // Return true the first time the url is given.
+    fn is_new(&self, url: &Url) -> bool {
+        self.seen.lock().unwrap().insert(url.clone())
     }
 
     fn visit(&self, url: &Url) -> Option<Visitor> {
         let min_len = url.path().len();
-        if min_len > self.min_len {
-            Some(Visitor { min_len })
+        if min_len > self.min_len && self.is_new(url) {
+            Some(Visitor {
+                min_len,
+                seen: self.seen.clone(),
+            })
         } else {
             None
         }
@@ -156,7 +170,7 @@ impl Crawler {
                                 // Recursively call the handler on sub directory.
                                 Crawler::process(&visitor, &client, &sub_pool, &tx, url)
                             }
-                        } else {
+                        } else if visitor.is_new(&url) {
                             // Send file location to the mpsc channel.
                             tx.send(Some(Ok(url))).unwrap()
                         }
-- 
2.43.0


From b31f3c12f0872e71269770a9cb11cef405241b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:38 +0000
Subject: [PATCH 27/38] fix: use the same index for the compressed rotated logs

---
 model/src/files.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/src/files.rs b/model/src/files.rs
index ae4a1e6..6b98e03 100644
--- a/model/src/files.rs
+++ b/model/src/files.rs
@@ -165,6 +165,7 @@ impl IndexName {
                 )
                 .trim_matches(|c| matches!(c, '/' | '.' | '_' | '-'))
                 .trim_end_matches(".gz")
+                .trim_end_matches(|c| matches!(c, '/' | '.' | '_' | '-'))
                 .to_string()
         };
         IndexName(model_name)
-- 
2.43.0


From 216ab34bc0da4d3a27c6594ed5a6e62bac68e831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:03 +0000
Subject: [PATCH 28/38] fix: escape the text of the html report

---
 report/src/report.rs | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/report/src/report.rs b/report/src/report.rs
index e9aa306..ae288e1 100644
--- a/report/src/report.rs
+++ b/report/src/report.rs
@@ -12,6 +12,22 @@ pub fn render(report: &logreduce_model::Report) -> Result<String> {
     Ok(Html::from(report)?.render())
 }
 
+/// Escape a text so that it can be used as the content of a node or in a quoted attribute.
+fn escape(text: &str) -> String {
+    let mut escaped = String::with_capacity(text.len());
+    for c in text.chars() {
+        match c {
+            '&' => escaped.push_str("&amp;"),
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            '"' => escaped.push_str("&quot;"),
+            '\'' => escaped.push_str("&#39;"),
+            c => escaped.push(c),
+        }
+    }
+    escaped
+}
+
 struct Html {
     buffer: Buffer,
 }
@@ -54,7 +70,7 @@ fn table(parent: &mut Node, columns: Option<&[&str]>, rows: &[&[&str]]) -> Resul
     for row in rows.iter() {
         let mut tr = tbody.tr();
         for cell in row.iter() {
-            tr.td().write_str(cell)?;
+            tr.td().write_str(&escape(cell))?;
         }
     }
     Ok(())
@@ -69,7 +85,7 @@ fn add_head(parent: &mut Node, title: &str) -> Result<()> {
             .attr("crossorigin=\"anonymous\"");
     }
     let mut head = parent.head();
-    head.title().write_str(title)?;
+    head.title().write_str(&escape(title))?;
     head.meta().attr("charset='utf-8'");
     for (href, integrity) in STYLES {
         add_link(&mut head, href, integrity);
@@ -258,7 +274,7 @@ fn render_content_report(
                     let mut desc = pf_body.div().attr("class=\"list-view-pf-description\"");
                     desc.div()
                         .attr("class=\"list-group-item-heading\"")
-                        .write_str(log_report.source.get_relative())?;
+                        .write_str(&escape(log_report.source.get_relative()))?;
                 }
 
                 {
@@ -273,9 +289,9 @@ fn render_content_report(
                         .a()
                         .attr(&format!(
                             "href=\"{}\"",
-                            model_anchor(&log_report.index_name)
+                            escape(&model_anchor(&log_report.index_name))
                         ))
-                        .write_str(&format!("{}", log_report.index_name))?;
+                        .write_str(&escape(log_report.index_name.as_str()))?;
                     additional_item.write_str(" model")?;
                 }
 
@@ -286,7 +302,7 @@ fn render_content_report(
                     additional_item.span().attr("class=\"fa fa-external-link\"");
                     additional_item
                         .a()
-                        .attr(&format!("href=\"{}\"", log_report.source.as_str()))
+                        .attr(&format!("href=\"{}\"", escape(log_report.source.as_str())))
                         .write_str("file")?;
                 }
 
@@ -319,8 +335,8 @@ fn render_content_report(
             for source in index_report.sources.iter().take(3) {
                 ul.li()
                     .a()
-                    .attr(&format!("href=\"{}\"", source.as_str()))
-                    .write_str(source.as_str())?
+                    .attr(&format!("href=\"{}\"", escape(source.as_str())))
+                    .write_str(&escape(source.as_str()))?
             }
         }
 
@@ -338,7 +354,7 @@ fn render_context(loglines: &mut Node, pos: usize, xs: &[String]) -> Result<()>
     for (idx, line) in xs.iter().enumerate() {
         loglines
             .pre()
-            .write_str(&format!("   {:4} | {}", pos + 1 + idx, line))?;
+            .write_str(&format!("   {:4} | {}", pos + 1 + idx, escape(line)))?;
     }
     Ok(())
 }
@@ -363,7 +379,9 @@ fn render_lines(loglines: &mut Node, anomalies: &[logreduce_model::AnomalyContex
             .attr(&format!("style=\"color: #{:2X}0000\"", color))
             .write_str(&format!(
                 "{:02} {:4} | {}",
-                dist, anomaly.anomaly.pos, anomaly.anomaly.line
+                dist,
+                anomaly.anomaly.pos,
+                escape(&anomaly.anomaly.line)
             ))?;
 
         render_context(loglines, anomaly.anomaly.pos, &anomaly.after)?;
-- 
2.43.0


From af096cde252ad5e7c080400e8267622737bbf877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:03 +0000
Subject: [PATCH 29/38] fix: do not underflow the context position in the html
 report

---
 report/src/report.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/report/src/report.rs b/report/src/report.rs
index ae288e1..0b78c9f 100644
--- a/report/src/report.rs
+++ b/report/src/report.rs
@@ -363,7 +363,7 @@ fn render_lines(loglines: &mut Node, anomalies: &[logreduce_model::AnomalyContex
     let mut last_pos = None;
 
     for anomaly in anomalies {
-        let starting_pos = anomaly.anomaly.pos - 1 - anomaly.before.len();
+        let starting_pos = anomaly.anomaly.pos.saturating_sub(1 + anomaly.before.len());
         if let Some(last_pos) = last_pos {
             if last_pos != starting_pos {
                 loglines.hr().attr("class=\"ls\"");
-- 
2.43.0


From c61052e3b056974cb1306cb3913e1f187d79fc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:20 +0000
Subject: [PATCH 30/38] fix: read all the members of a compressed file

---
 model/src/reader.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/model/src/reader.rs b/model/src/reader.rs
index 50c7177..877fd5b 100644
--- a/model/src/reader.rs
+++ b/model/src/reader.rs
@@ -10,7 +10,7 @@ use url::Url;
 
 use std::fs::File;
 
-use flate2::read::GzDecoder;
+use flate2::read::{GzDecoder, MultiGzDecoder};
 
 // TODO: use a struct to pass these references.
 lazy_static::lazy_static! {
@@ -46,10 +46,12 @@ mod remote {
 #[allow(clippy::large_enum_variant)]
 pub enum DecompressReader {
     Flat(File),
-    Gz(GzDecoder<File>),
+    // A file may be made of several compressed members
+    Gz(MultiGzDecoder<File>),
     // TODO: support BZIP2 compression
     Remote(Response),
     Cached(logreduce_cache::CacheReader<Response>),
+    CacheHit(GzDecoder<File>),
 }
 use DecompressReader::*;
 
@@ -57,7 +59,7 @@ pub fn from_path(path: &Path) -> Result<DecompressReader> {
     let fp = File::open(path)?;
     let extension = path.extension().unwrap_or_else(|| std::ffi::OsStr::new(""));
     Ok(if extension == "gz" {
-        Gz(GzDecoder::new(fp))
+        Gz(MultiGzDecoder::new(fp))
     } else {
         Flat(fp)
     })
@@ -85,7 +87,7 @@ pub fn from_url(base: &Url, url: &Url) -> Result<DecompressReader> {
         match CACHE.remote_get(base, url) {
             Some(cache) => {
                 tracing::debug!("Cache hit for {}", url);
-                cache.map(Gz)
+                cache.map(CacheHit)
             }
             None => {
                 tracing::debug!("Cache miss for {}", url);
@@ -115,6 +117,7 @@ impl Read for DecompressReader {
             Gz(r) => r.read(buf),
             Remote(r) => r.read(buf),
             Cached(r) => r.read(buf),
+            CacheHit(r) => r.read(buf),
         }
     }
 }
-- 
2.43.0


From ba322085f4ad3ffa059b204ecc10a5f80fb77f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:20 +0000
Subject: [PATCH 31/38] fix: verify the whole file when loading a model or a
 report

---
 model/src/model.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 2248693..916c6d0 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -242,6 +242,14 @@ pub struct Report {
     pub total_anomaly_count: usize,
 }
 
+/// Read a whole compressed file, so that it is verified before it is decoded.
+fn read_gz(file: std::fs::File) -> std::io::Result<Vec<u8>> {
+    use std::io::Read;
+    let mut data = Vec::new();
+    flate2::read::GzDecoder::new(file).read_to_end(&mut data)?;
+    Ok(data)
+}
+
 impl Report {
     pub fn save(&self, path: &Path) -> Result<()> {
         let mut encoder = flate2::write::GzEncoder::new(
@@ -255,10 +263,8 @@ impl Report {
     }
 
     pub fn load(path: &Path) -> Result<Report> {
-        bincode::deserialize_from(flate2::read::GzDecoder::new(
-            std::fs::File::open(path).context("Can't open report file")?,
-        ))
-        .context("Can't load report")
+        let data = read_gz(std::fs::File::open(path).context("Can't open report file")?);
+        bincode::deserialize(&data.context("Can't read report")?).context("Can't load report")
     }
 }
 
@@ -441,10 +447,8 @@ impl Model {
 
     pub fn load(path: &Path) -> Result<Model> {
         tracing::info!(path = path.to_str(), "Loading provided model");
-        bincode::deserialize_from(flate2::read::GzDecoder::new(
-            std::fs::File::open(path).context("Can't open file")?,
-        ))
-        .context("Can't load model")
+        let data = read_gz(std::fs::File::open(path).context("Can't open file")?);
+        bincode::deserialize(&data.context("Can't read model")?).context("Can't load model")
     }
 
     pub fn save(&self, path: &Path) -> Result<()> {
-- 
2.43.0


From 93eabaabbeb818a80497107f323ba7934d6f3437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:18 +0000
Subject: [PATCH 32/38] fix: list the files whose link starts with any symbol
 or has an ampersand

---
 httpdir/src/httpdir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index b53e4a8..9f2a015 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -262,7 +262,7 @@ pub fn http_list(client: &Client, url: Url) -> Result<Vec<Url>> {
 fn parse_index_of(base_url: Url, page: &str) -> Result<Vec<Url>> {
     // TODO check for title and support different types of indexes
     lazy_static! {
-        static ref RE: Regex = Regex::new(r#"<a href="([\\/a-zA-Z0-9_.~%-][^"]*)">"#).unwrap();
+        static ref RE: Regex = Regex::new(r#"<a href="([^"?\#][^"]*)">"#).unwrap();
     }
 
     RE.captures_iter(page)
@@ -270,7 +270,7 @@ fn parse_index_of(base_url: Url, page: &str) -> Result<Vec<Url>> {
         // .map(|link| dbg!(link))
         .map(|link| {
             base_url
-                .join(link)
+                .join(&link.replace("&amp;", "&"))
                 .map_err(|e| mk_error(&format!("Invalid link {}", e)))
         })
         .collect()
-- 
2.43.0


From 0fbc2762d35c812646c2714d20486e1484caef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:57 +0000
Subject: [PATCH 33/38] fix: a listing that could not be stored in full stays
 in the cache

The listing was written in place: when the disk is full or the process is stopped, the
partial file remains, every later lookup of the url fails and the listing can't be stored again.
---
 cache/src/cache.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/cache/src/cache.rs b/cache/src/cache.rs
index 316ba06..5e5a0d1 100644
--- a/cache/src/cache.rs
+++ b/cache/src/cache.rs
@@ -113,8 +113,21 @@ impl Cache {
 
     /// Add a httpdir to the cache.
     pub fn httpdir_add(&self, url: &Url, paths: &[Url]) -> Result<()> {
-        let fp = self.create(&filename::httpdir(url))?;
-        bincode::serialize_into(fp, paths).context("Failed to serialize httpdir save")
+        let path = self.new_path(&filename::httpdir(url))?;
+        // The entry is created when the listing is complete.
+        let tmp = filename::temporary(&path);
+        let result = File::create(&tmp)
+            .context("Failed to create local cache file")
+            .and_then(|fp| {
+                bincode::serialize_into(fp, paths).context("Failed to serialize httpdir save")
+            })
+            .and_then(|()| {
+                std::fs::rename(&tmp, &path).context("Failed to create the httpdir entry")
+            });
+        if result.is_err() {
+            let _ = std::fs::remove_file(&tmp);
+        }
+        result
     }
 
     /// Remove a remote file from the cache.
-- 
2.43.0


From aaa5ab4d64f31862705e7fc665a041f516b72678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:29 +0000
Subject: [PATCH 34/38] fix: trim the unicode prefix of quoted words that
 follow a bracket

---
 tokenizer/src/tokenizer.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/tokenizer/src/tokenizer.rs b/tokenizer/src/tokenizer.rs
index ad1995f..2269dca 100644
--- a/tokenizer/src/tokenizer.rs
+++ b/tokenizer/src/tokenizer.rs
@@ -48,14 +48,17 @@ fn words(line: &str) -> Split {
 }
 
 fn trim_quote_and_punctuation(word: &str) -> &str {
-    word.trim_start_matches("u\"")
+    fn is_punctuation(c: char) -> bool {
+        matches!(
+            c,
+            '\'' | '"' | ',' | ';' | '(' | ')' | '[' | ']' | '{' | '}' | '<' | '>' | '\\'
+        )
+    }
+    // the python unicode prefix may come after a bracket, e.g. `[u'word',`
+    word.trim_matches(is_punctuation)
+        .trim_start_matches("u\"")
         .trim_start_matches("u'")
-        .trim_matches(|c| {
-            matches!(
-                c,
-                '\'' | '"' | ',' | ';' | '(' | ')' | '[' | ']' | '{' | '}' | '<' | '>' | '\\'
-            )
-        })
+        .trim_matches(is_punctuation)
 }
 
 /// Apply global filter to skip specific lines.
-- 
2.43.0


From 71415173dcb5d22a9c9d2547364f0f591b9ff4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:59 +0000
Subject: [PATCH 35/38] fix: read each baseline source of a group as plain or
 JSON by its own name

---
 model/src/model.rs   | 9 +++------
 model/src/process.rs | 3 ++-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 916c6d0..38d2911 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -273,13 +273,10 @@ impl Index {
     pub fn train(sources: &[Source], mut index: ChunkIndex) -> Result<Index> {
         let created_at = SystemTime::now();
         let start_time = Instant::now();
-        let is_json = if let Some(source) = sources.first() {
-            source.is_json()
-        } else {
-            false
-        };
-        let mut trainer = process::ChunkTrainer::new(&mut index, is_json);
+        let mut trainer = process::ChunkTrainer::new(&mut index, false);
         for source in sources {
+            // a group may hold both, e.g. `data.json` and `data.json.1`
+            trainer.is_json = source.is_json();
             let reader = match source {
                 Source::Local(_, path_buf) => Source::file_open(path_buf.as_path())?,
                 Source::Remote(prefix, url) => Source::url_open(*prefix, url)?,
diff --git a/model/src/process.rs b/model/src/process.rs
index 68602f9..252ec4b 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -17,7 +17,8 @@ const CHUNK_SIZE: usize = 512;
 /// Helper struct to manage indexing multiples readers.
 pub struct ChunkTrainer<'a> {
     index: &'a mut ChunkIndex,
-    is_json: bool,
+    /// How to read the next reader
+    pub is_json: bool,
     skip_lines: HashSet<String>,
     baselines: Vec<String>,
     pub line_count: usize,
-- 
2.43.0


From 7c34790e936590cccd766b372fcf35d999ab8486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:02 +0000
Subject: [PATCH 36/38] fix: do not keep in the cache a zuul build that lacks
 its urls or change

---
 model/src/zuul.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/model/src/zuul.rs b/model/src/zuul.rs
index f99758e..e267d80 100644
--- a/model/src/zuul.rs
+++ b/model/src/zuul.rs
@@ -146,10 +146,14 @@ fn new_content(api: Url, build: zuul_build::Build) -> Result<Content> {
     })))
 }
 
-fn get_build(api: &Url, uid: &str) -> Result<zuul_build::Build> {
+fn get_build(api: &Url, uid: &str) -> Result<Content> {
     let url = api.join("build/")?.join(uid)?;
     let reader = crate::reader::from_url(api, &url)?;
-    match zuul_build::decode_build(reader).context("Can't decode zuul api") {
+    // The build may lack its urls until it is completed
+    match zuul_build::decode_build(reader)
+        .context("Can't decode zuul api")
+        .and_then(|build| new_content(api.clone(), build))
+    {
         Ok(x) => Ok(x),
         Err(e) => crate::reader::drop_url(api, &url).map_or_else(Err, |_| Err(e)),
     }
@@ -215,11 +219,7 @@ fn get_zuul_api_url(url: &'_ Url) -> Option<Result<(Url, &'_ str)>> {
 
 impl Content {
     pub fn from_zuul_url(url: &Url) -> Option<Result<Content>> {
-        get_zuul_api_url(url).map(|res| {
-            res.and_then(|(api, uid)| {
-                get_build(&api, uid).and_then(|build| new_content(api, build))
-            })
-        })
+        get_zuul_api_url(url).map(|res| res.and_then(|(api, uid)| get_build(&api, uid)))
     }
 }
 
-- 
2.43.0


From 18c18bfcca6d625602edb7a30fece997e2f5db88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:30 +0000
Subject: [PATCH 37/38] fix: do not keep in the cache a list of zuul builds
 without any suitable one

---
 model/src/zuul.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/model/src/zuul.rs b/model/src/zuul.rs
index e267d80..2a47ec9 100644
--- a/model/src/zuul.rs
+++ b/model/src/zuul.rs
@@ -41,9 +41,9 @@ fn elapsed_days(now: &NaiveDate, since: NaiveDate) -> i32 {
 }
 
 impl Build {
-    fn get_success_samples(&self) -> Result<Vec<zuul_build::Build>> {
+    fn get_success_url(&self) -> Result<Url> {
         let base = self.api.join("builds").context("Can't create builds url")?;
-        let url = Url::parse_with_params(
+        Url::parse_with_params(
             base.as_str(),
             [
                 ("job_name", self.job_name.as_str()),
@@ -52,9 +52,7 @@ impl Build {
                 ("result", "SUCCESS"),
             ],
         )
-        .context("Can't create query url")?;
-        tracing::info!(url = url.as_str(), "Discovering baselines for {}", self);
-        get_builds(&self.api, &url)
+        .context("Can't create query url")
     }
 
     fn baseline_score(&self, target: &zuul_build::Build, now: &NaiveDate) -> Option<i32> {
@@ -104,10 +102,12 @@ impl Build {
     }
 
     pub fn discover_baselines(&self) -> Result<Baselines> {
-        let samples = self.get_success_samples()?;
+        let url = self.get_success_url()?;
+        tracing::info!(url = url.as_str(), "Discovering baselines for {}", self);
+        let samples = get_builds(&self.api, &url)?;
         let max_builds = 1;
         let now = Utc::now().date_naive();
-        samples
+        let baselines = samples
             .into_iter()
             // Compute a score value
             .map(|build| (self.baseline_score(&build, &now), build))
@@ -122,7 +122,12 @@ impl Build {
             .take(max_builds)
             // Create the content data type
             .map(|(_score, build)| new_content(self.api.clone(), build))
-            .collect::<Result<Vec<_>>>()
+            .collect::<Result<Vec<_>>>()?;
+        if baselines.is_empty() {
+            // A later answer may have a suitable build
+            crate::reader::drop_url(&self.api, &url)?;
+        }
+        Ok(baselines)
     }
 
     pub fn sources_iter(&self) -> Box<dyn Iterator<Item = Result<Source>>> {
-- 
2.43.0


From 82f13f904484aac0550e895ef9483b0e8a4ce5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:25 +0000
Subject: [PATCH 38/38] fix: recognise the json format of a remote file whose
 url has a query

---
 model/src/model.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 38d2911..a2ba453 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -98,9 +98,12 @@ impl Source {
         Source::Local(0, p)
     }
     pub fn is_json(&'_ self) -> bool {
-        self.get_relative()
-            .trim_end_matches(".gz")
-            .ends_with(".json")
+        let name = match self {
+            Source::Local(_, _) => self.get_relative(),
+            // The name of a remote file does not include the query.
+            Source::Remote(_, url) => url.path(),
+        };
+        name.trim_end_matches(".gz").ends_with(".json")
     }
     pub fn get_relative(&'_ self) -> &'_ str {
         match self {
-- 
2.43.0

