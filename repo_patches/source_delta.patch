From c978c7c256e5c1e5327172b741b279c048c91f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 01/15] fix: keep words whose lower-casing can't be undone
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

process() is meant to be reversible, but e.g. "İ" and "I", or the Kelvin
sign and "K", had the same output.
---
 src/processing.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/processing.rs b/src/processing.rs
index 1212967..65cc8d1 100644
--- a/src/processing.rs
+++ b/src/processing.rs
@@ -39,6 +39,12 @@ fn get_char_type(ch: char) -> CharType {
     }
 }
 
+/// Whether lower-casing an upper-case string can be undone by upper-casing it.
+/// It can't be for a few characters, for example 'İ', 'ẞ' or the Kelvin sign.
+fn is_reversible(upper: &str) -> bool {
+    upper.to_lowercase().to_uppercase() == upper
+}
+
 fn add_word(out: &mut String, word: &str) {
     assert!(!word.is_empty());
 
@@ -47,11 +53,13 @@ fn add_word(out: &mut String, word: &str) {
     let rest = chars.as_str();
 
     if first.is_uppercase() {
-        if rest.chars().all(|ch| ch.is_lowercase()) {
+        if rest.chars().all(|ch| ch.is_lowercase())
+            && is_reversible(&word[..first.len_utf8()])
+        {
             out.push('\x14');
             out.push(first.to_lowercase().next().unwrap());
             out.push_str(rest);
-        } else if rest.chars().all(|ch| ch.is_uppercase()) {
+        } else if rest.chars().all(|ch| ch.is_uppercase()) && is_reversible(word) {
             out.push('\x15');
             out.push_str(word.to_lowercase().as_str());
         } else {
-- 
2.43.0


From 3bb276d9fc71709c4706c68b395d6e4a324d8794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 02/15] fix: report write errors at the end of process_file

The last buffer was written when the BufWriter was dropped, which ignores
errors, so a truncated output was reported as success.
---
 src/processing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/processing.rs b/src/processing.rs
index 65cc8d1..b8f012d 100644
--- a/src/processing.rs
+++ b/src/processing.rs
@@ -147,7 +147,7 @@ pub fn process_file<R: Read, W: Write>(input: &mut R, output: &mut W) -> io::Res
         writer.write(b"\n")?;
     }
 
-    Ok(())
+    writer.flush()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 12661033b450c1428df37c863a512b4d18121e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 03/15] fix: load the split_paragraphs field under the name it
 is saved with

---
 src/tokenset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenset.rs b/src/tokenset.rs
index b0d15ee..1ea1799 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -259,7 +259,7 @@ impl TokenSet {
             Some("byteshuff") => TokenType::BytesHuff,
             _ => panic!("Unknown token type"),
         };
-        let split_paragraphs = match value.get("split_paragraph") {
+        let split_paragraphs = match value.get("split_paragraphs") {
             None => false,
             Some(&Value::Bool(v)) => v,
             _ => panic!("Can't parse split_paragraphs field."),
-- 
2.43.0


From 0907d0897d6d8d78f1845b650949aa17a1419ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 04/15] fix: don't duplicate sequences when loading bits token
 sets

The saved sequences were added on top of the default ones, and tokenizing
with the loaded set panicked.
---
 src/tokenset.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tokenset.rs b/src/tokenset.rs
index 1ea1799..5f50e2e 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -300,6 +300,8 @@ impl TokenSet {
                     tokens.push(idx);
                 }
 
+                // Bits* token sets already have default sequences for all bytes.
+                token_set.sequences.retain(|s| s.string != string);
                 token_set.add_sequence(string, tokens);
             }
         }
-- 
2.43.0


From 0dda0456449d8c552ac5a944b2ea5124b02fc211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 05/15] fix: don't panic when a bits token set has room for
 more than 256 byte tokens

---
 src/optimize_bytes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optimize_bytes.rs b/src/optimize_bytes.rs
index 0220410..e52e211 100644
--- a/src/optimize_bytes.rs
+++ b/src/optimize_bytes.rs
@@ -14,7 +14,8 @@ pub struct SimpleBytesOptimizer {}
 
 impl BytesOptimizer for SimpleBytesOptimizer {
     fn optimize_bytes(stats: &TokenStats, n_byte_ext_tokens: usize) -> TokenSet {
-        let n_byte_tokens = n_byte_ext_tokens - stats.token_set.n_ext_tokens;
+        // There can't be more single-byte tokens than bytes.
+        let n_byte_tokens = min(n_byte_ext_tokens - stats.token_set.n_ext_tokens, 256);
 
         let mut byte_counts: [i64; 256] = [0; 256];
         let mut single_byte_tokens = Vec::new();
-- 
2.43.0


From bf545628c345ada8f952ac4b0bc20ee93f0e583c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 06/15] fix: don't add a token spanning paragraphs when there
 is no valid pair

---
 src/optimize.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/optimize.rs b/src/optimize.rs
index c3e747f..0189cec 100644
--- a/src/optimize.rs
+++ b/src/optimize.rs
@@ -61,7 +61,7 @@ fn add_token_bpe(stats: &TokenStats) -> Option<(TokenSet, i64)> {
         let itoken1 = pair_idx / stats.ntokens();
         let itoken2 = pair_idx % stats.ntokens();
 
-        new_token = match (
+        let candidate = match (
             &stats.token_set.tokens[itoken1],
             &stats.token_set.tokens[itoken2],
         ) {
@@ -71,7 +71,8 @@ fn add_token_bpe(stats: &TokenStats) -> Option<(TokenSet, i64)> {
             _ => unreachable!(),
         };
 
-        if is_valid_token(&new_token) {
+        if is_valid_token(&candidate) {
+            new_token = candidate;
             token_count = stats.pair_counts[pair_idx];
             break;
         }
-- 
2.43.0


From 6ac3be603be5d4185b3a0215f78cc4e93c78e037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 07/15] fix: finish with the full data when optimizing with
 --min-data-size

Unless the early stopping condition was met, the optimization panicked
without saving anything.
---
 src/main.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 084d31b..e48ccd4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -158,7 +158,6 @@ fn optimize_with_increasing_data(
     let full_size = std::fs::metadata(filename).unwrap().len() as usize;
     let mut tokenset = input_token_set;
     let mut size = min_data_size;
-    let mut full_stats = None;
 
     while size < full_size {
         let sampler = MemorySampler::sample_from_file(filename, size, 1 << 20);
@@ -184,8 +183,7 @@ fn optimize_with_increasing_data(
                 < 0.005
         {
             println!("The difference is less than 0.5%. Stopping.");
-            full_stats = Some(new_full_stats);
-            break;
+            return new_full_stats;
         }
 
         tokenset = Some(stats.token_set);
@@ -193,7 +191,8 @@ fn optimize_with_increasing_data(
         size *= 2;
     }
 
-    full_stats.unwrap()
+    // Not stopped early: finish with the full data.
+    optimizer.optimize(&full_sampler, tokenset)
 }
 
 fn optimize(
-- 
2.43.0


From 3ab7aed9c6c641c97dbbd641ce0a788d95028d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 08/15] fix: report the max char for files without chars above
 255

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index e48ccd4..b3e6adf 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -92,7 +92,7 @@ fn count_chars(filename: &str) {
         }
     }
 
-    let mut max_c = 0;
+    let mut max_c = counts_low.iter().rposition(|&c| c > 0).unwrap_or(0) as u32;
     for c in counts.keys() {
         if *c > max_c {
             max_c = *c;
-- 
2.43.0


From 327e67fad088878f2be6bf9a88983f1b3be19af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 09/15] fix: don't cut a character between two samples

When there was no paragraph end in a chunk, the chunk could end inside a
multi-byte character. Both parts became replacement characters when
sampling from memory, and sampling from a file panicked.
---
 src/input/file_sampler.rs   |  8 +++++++-
 src/input/memory_sampler.rs |  6 +++++-
 src/input/util.rs           | 18 ++++++++++++++++++
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/input/file_sampler.rs b/src/input/file_sampler.rs
index b9d681e..58513b7 100644
--- a/src/input/file_sampler.rs
+++ b/src/input/file_sampler.rs
@@ -6,7 +6,7 @@ use std::iter::Iterator;
 
 use crate::input::sample::{Sample, Sampler};
 
-use super::util::find_paragraph_end;
+use super::util::{find_paragraph_end, missing_char_bytes};
 
 pub struct FileSampler {
     filename: String,
@@ -109,6 +109,12 @@ impl<'a> Iterator for FileIterator<'a> {
                         .seek(SeekFrom::Current(end as i64 - read_bytes as i64))
                         .unwrap();
                 }
+                let missing = missing_char_bytes(&buffer);
+                if missing > 0 {
+                    let len = buffer.len();
+                    buffer.resize(len + missing, 0);
+                    self.file.read_exact(&mut buffer[len..]).unwrap();
+                }
                 Some(Sample::from_vec(buffer))
             }
         }
diff --git a/src/input/memory_sampler.rs b/src/input/memory_sampler.rs
index 673f7df..5172267 100644
--- a/src/input/memory_sampler.rs
+++ b/src/input/memory_sampler.rs
@@ -3,7 +3,7 @@ use std::fs::File;
 
 use crate::input::sample::{Sample, Sampler};
 
-use super::util::find_paragraph_end;
+use super::util::{find_paragraph_end, missing_char_bytes};
 
 pub struct MemorySampler {
     data: Vec<u8>,
@@ -93,6 +93,10 @@ impl<'a> Iterator for MemoryIterator<'a> {
             if self.position < self.sampler.data.len() && paragraph_end > start {
                 self.position = paragraph_end;
             }
+            self.position = std::cmp::min(
+                self.position + missing_char_bytes(&self.sampler.data[start..self.position]),
+                self.sampler.data.len(),
+            );
             Some(Sample::from_bytes(&self.sampler.data[start..self.position]))
         } else {
             None
diff --git a/src/input/util.rs b/src/input/util.rs
index 088dc6a..42dece5 100644
--- a/src/input/util.rs
+++ b/src/input/util.rs
@@ -17,6 +17,24 @@ pub fn extract_valid_utf8_slice<'a>(data: &'a [u8]) -> &'a [u8] {
     &data[start..end]
 }
 
+/// Returns the number of bytes missing from the last UTF-8 character in `data`
+/// if it is cut in the middle.
+pub fn missing_char_bytes(data: &[u8]) -> usize {
+    for (i, &b) in data.iter().rev().take(3).enumerate() {
+        if is_char_start(b) {
+            let char_len = match b {
+                0..=0xBF => 1,
+                0xC0..=0xDF => 2,
+                0xE0..=0xEF => 3,
+                0xF0..=0xFF => 4,
+            };
+            return char_len.max(i + 1) - (i + 1);
+        }
+    }
+
+    0
+}
+
 pub fn find_paragraph_end(data: &[u8], end: usize) -> usize {
     let mut pos = end;
     while pos >= 2 && (data[pos - 1] != 10 || data[pos - 2] != 10) {
-- 
2.43.0


From efdd9bb2d9af3a106dfc7b1cc4f57409b217c762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 10/15] fix: fill the chunk completely when sampling from a
 file

A short read in the middle of the file was treated as its last chunk and
was cut in the middle of a paragraph or of a character.
---
 src/input/file_sampler.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/input/file_sampler.rs b/src/input/file_sampler.rs
index 58513b7..543b35a 100644
--- a/src/input/file_sampler.rs
+++ b/src/input/file_sampler.rs
@@ -94,12 +94,17 @@ impl<'a> Iterator for FileIterator<'a> {
                 Some(Sample::from_vec(buffer))
             }
         } else {
-            let read_bytes = self.file.read(&mut buffer).unwrap();
+            // Reading until the chunk is full or the file ends, since a single
+            // read() may return less than that.
+            buffer.clear();
+            let read_bytes = (&mut self.file)
+                .take(self.sample_size as u64)
+                .read_to_end(&mut buffer)
+                .unwrap();
 
             if read_bytes == 0 {
                 None
             } else if read_bytes < self.sample_size {
-                buffer.truncate(read_bytes);
                 Some(Sample::from_vec(buffer))
             } else {
                 let end = find_paragraph_end(&buffer, read_bytes);
-- 
2.43.0


From 73b55c051d5cde7d45ffd09b662778055c109021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 11/15] fix: keep the split_paragraphs flag when optimizing the
 bytes of a byteshuff set

---
 src/optimize_bytes.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/optimize_bytes.rs b/src/optimize_bytes.rs
index e52e211..bd102aa 100644
--- a/src/optimize_bytes.rs
+++ b/src/optimize_bytes.rs
@@ -102,7 +102,13 @@ impl BytesOptimizer for HuffOptimizer {
         for n_ext_tokens in 2..=max_ext_tokens {
             let n_byte_tokens = n_byte_ext_tokens - n_ext_tokens;
     
-            let token_set = optimize_bytes_tokenset(&counts, n_byte_tokens, n_ext_tokens, token_stats.token_set.processing);
+            let token_set = optimize_bytes_tokenset(
+                &counts,
+                n_byte_tokens,
+                n_ext_tokens,
+                token_stats.token_set.processing,
+                token_stats.token_set.split_paragraphs,
+            );
     
             let mut total = 0;
 
@@ -279,8 +285,14 @@ fn optimize_bytes_tokenset(
     n_char_tokens: usize,
     n_ext_tokens: usize,
     processing: Processing,
+    split_paragraphs: bool,
 ) -> TokenSet {
-    let mut token_set = TokenSet::new(n_ext_tokens, processing, TokenType::BytesHuff, true);
+    let mut token_set = TokenSet::new(
+        n_ext_tokens,
+        processing,
+        TokenType::BytesHuff,
+        split_paragraphs,
+    );
 
     let top_splits = optimize_splits(counts, n_char_tokens);
 
-- 
2.43.0


From 9c913c90150e4e663579dfaa0833531db207ce68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:52 +0000
Subject: [PATCH 12/15] fix: don't loop forever with --min-data-size 0

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index b3e6adf..2b1ac0e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -157,7 +157,8 @@ fn optimize_with_increasing_data(
     let full_sampler = FileSampler::new(filename, 1 << 24, None);
     let full_size = std::fs::metadata(filename).unwrap().len() as usize;
     let mut tokenset = input_token_set;
-    let mut size = min_data_size;
+    // Doubling has to start from a positive size.
+    let mut size = min_data_size.max(1);
 
     while size < full_size {
         let sampler = MemorySampler::sample_from_file(filename, size, 1 << 20);
-- 
2.43.0


From b092f3783fa31394bd2e877ef954d7adf0be8c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:47 +0000
Subject: [PATCH 13/15] fix: don't destroy the file when pretty.py can't format
 it

---
 pretty.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pretty.py b/pretty.py
index 1933e56..3e93ce8 100644
--- a/pretty.py
+++ b/pretty.py
@@ -1,3 +1,4 @@
+import io
 import json
 import sys
 
@@ -54,5 +55,11 @@ def save_json(data, wfile):
 with open(sys.argv[1], "r", encoding="utf-8") as f: 
     d = json.load(f)
 
-with open(sys.argv[1], "w", encoding="utf-8", newline="\n") as f:
-    save_json(d, f)
+# Format and encode everything before the file is truncated: if that fails (for
+# instance because the nesting is too deep), the file must keep its contents.
+text = io.StringIO()
+save_json(d, text)
+data = text.getvalue().encode("utf-8")
+
+with open(sys.argv[1], "wb") as f:
+    f.write(data)
-- 
2.43.0


From ef8713ac0c4069a9c32bcb1b87c68a31f11bd0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:27 +0000
Subject: [PATCH 14/15] fix: keep fallback sequences of a single token when
 saving a set

---
 src/tokenset.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tokenset.rs b/src/tokenset.rs
index 5f50e2e..fccda30 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -404,7 +404,6 @@ impl TokenSet {
         let sequences = self
             .sequences
             .iter()
-            .filter(|s| s.tokens.len() > 1)
             .map(|s| s.to_json(self))
             .collect::<Vec<_>>();
         if !sequences.is_empty() {
-- 
2.43.0


From 8644fcc3e51e7ee089795090ee86ed804e6d08be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:40 +0000
Subject: [PATCH 15/15] fix: optimization never returns a set worse than the
 one it started from

Growing a frequency-based set by one byte token selects all fallback sequences
anew, which can need more tokens than before. When no pair was left to add,
such a set was accepted and could be the result, worse than the input set.
---
 src/optimize.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/optimize.rs b/src/optimize.rs
index 0189cec..24f66ad 100644
--- a/src/optimize.rs
+++ b/src/optimize.rs
@@ -306,6 +306,10 @@ fn optimize_tokenset_impl<'a, S: Sampler<'a>, BO: BytesOptimizer>(
         stats.bytes_per_token()
     );
 
+    // Adding a token can make things worse: the bytes may be selected anew.
+    let mut best_total = stats.total_tokens;
+    let mut best_token_set = token_set.clone();
+
     let mut removal_count = HashMap::new();
     let mut last_save = Instant::now();
 
@@ -318,6 +322,11 @@ fn optimize_tokenset_impl<'a, S: Sampler<'a>, BO: BytesOptimizer>(
             &mut removal_count,
         ) {
             token_set = new_token_set;
+            let total = tokenizer_cache.get_stats(&token_set).total_tokens;
+            if total <= best_total {
+                best_total = total;
+                best_token_set = token_set.clone();
+            }
             if Instant::now() - last_save > Duration::from_secs(60) {
                 save_tokens(&token_set, tokens_dir);
                 last_save = Instant::now();
@@ -327,6 +336,7 @@ fn optimize_tokenset_impl<'a, S: Sampler<'a>, BO: BytesOptimizer>(
         }
     }
 
+    token_set = best_token_set;
     token_set.sort();
     tokenizer_cache.get_stats(&token_set).clone()
 }
-- 
2.43.0

