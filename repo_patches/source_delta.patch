From 6e14f1a5a46f688ee79dce9cceff76c63c08f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:04 +0000
Subject: [PATCH 01/25] fix: encode VLQ values of 2^30 and beyond

The sign bit was shifted into the i32 sign, so any integer whose magnitude
is 2^30 or more was encoded as a single wrong digit (or panicked).
---
 src/base64_vlq.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/base64_vlq.rs b/src/base64_vlq.rs
index e49ec52..f0621c8 100644
--- a/src/base64_vlq.rs
+++ b/src/base64_vlq.rs
@@ -23,7 +23,9 @@ const VLQ_BASE_MASK: usize = VLQ_BASE - 1;
 // binary: 100000
 const VLQ_CONTINUATION_BIT: usize = VLQ_BASE;
 
-fn to_vlq_signed(value: i32) -> i32 {
+fn to_vlq_signed(value: i32) -> i64 {
+    // The sign bit needs one bit more than an i32 has.
+    let value = i64::from(value);
     if value < 0 {
         (-value << 1) + 1
     } else {
@@ -38,8 +40,8 @@ pub fn base64vlq_encode(value: i32) -> String {
     let mut vlq = to_vlq_signed(value);
 
     loop {
-        digit = ((vlq as usize) & VLQ_BASE_MASK) as i32;
-        vlq = ((vlq as usize) >> VLQ_BASE_SHIFT) as i32;
+        digit = (vlq & VLQ_BASE_MASK as i64) as i32;
+        vlq >>= VLQ_BASE_SHIFT;
 
         if vlq > 0 {
             // There are still more digits in this value, so we must make sure the
-- 
2.43.0


From 0d4e53207fed796dbed22d9ebdff10044fc51dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 02/25] fix: classify URLs shorter than two characters

An empty or one-character source, source root or map URL (such as the
common sourceRoot "") panicked when the map was opened.
---
 src/util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 81fa754..29f777d 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -78,10 +78,10 @@ enum UrlType {
 
 fn get_url_type(input: &str) -> UrlType {
     let mut iter = input.chars();
-    let first = iter.next().unwrap();
-    let second = iter.next().unwrap();
-    if first == '/' {
-        if second == '/' {
+    let first = iter.next();
+    let second = iter.next();
+    if first == Some('/') {
+        if second == Some('/') {
             return SchemeRelative;
         }
         return PathAbsolute;
-- 
2.43.0


From e8f24708aa5a6aed0e424095c5dd14ca6a977dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 03/25] fix: keep the delimiters of query and fragment in
 relative URLs

"a.js?x#y" was reported as "a.jsxy".
---
 src/util.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 29f777d..78951d0 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -157,10 +157,12 @@ fn compute_relative_url(root_url: &str, target_url: &str) -> String {
         .join("/");
 
     if let Some(query) = target_url.query() {
+        relative_path.push('?');
         relative_path.push_str(query);
     }
 
     if let Some(frag) = target_url.fragment() {
+        relative_path.push('#');
         relative_path.push_str(frag);
     }
     relative_path
-- 
2.43.0


From fa1d7b380d6404a7153aa5d3a90ddfa4da47e1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 04/25] fix: keep the directories when trimming the map file
 name

The path segments of the map URL were glued together ("/a/b/m.map" became
"/ab") and its query and fragment leaked into the directory, so sources were
resolved against the wrong place.
---
 src/util.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 78951d0..8ee7f7a 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -207,7 +207,9 @@ lazy_static! {
             path.pop();
         }
 
-        url.set_path(&path.join(""));
+        url.set_path(&path.join("/"));
+        url.set_query(None);
+        url.set_fragment(None);
     }));
 
     static ref NORMALIZE: UtilityFn = create_safe_handler(Box::new(|_url|{}));
-- 
2.43.0


From 5bf4a6cc8dbe2c13b2570d0c173cf26cc4f7f2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 05/25] fix: relativise the resolved URLs, not the raw text

relative() panicked for every pair of URLs of the same kind that are not
absolute, so setting a source content under a source root could panic.
---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 8ee7f7a..a8b98ec 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -240,7 +240,7 @@ fn replace_if_possible(root: &str, target: &str) -> Option<String> {
         return None;
     }
 
-    Some(compute_relative_url(root, target))
+    Some(compute_relative_url(root_url.as_str(), target_url.as_str()))
 }
 
 pub fn relative(root: String, target: String) -> String {
-- 
2.43.0


From 6413cc0a11bccfb2c76a82e6262fd98831af2fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 06/25] fix: treat an empty source root like an absent one

With sourceRoot "" the leading slash of absolute-path sources was dropped.
---
 src/util.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index a8b98ec..c1c2177 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -337,6 +337,10 @@ pub fn compute_source_url(
     // is present in order to make the sources entries behave as if they are relative to the
     // "sourceRoot", as they would have if the two strings were simply concated.
 
+    // An empty source root or map URL contributes nothing.
+    let source_root = source_root.filter(|it| !it.is_empty());
+    let source_map_url = source_map_url.filter(|it| !it.is_empty());
+
     let mut source_url = source_url;
     let after = source_url.replacen("/", "", 1);
 
-- 
2.43.0


From f259dc36981c9101ebfd9751d4c1141e8a45c5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 07/25] fix: remember the map URL of parsed maps

Consumers made by create_consumer resolved their sources against the map URL
but looked sources up without it, so map-relative names were not found.
---
 src/consumer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 7d52e1b..d86fddf 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -152,7 +152,7 @@ impl BasicConsumer {
         BasicConsumer {
             source_map: source_map.clone(),
             source_lookup_cache: Default::default(),
-            source_map_url: None,
+            source_map_url: source_map_url.map(|it| it.to_string()),
             absolute_sources: ArraySet::from_array(
                 source_map
                     .sources
-- 
2.43.0


From 1418a3b1c3287091aef204e2b7064f2f2ddf94b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 08/25] fix: find sources by their reported URL under a
 relative map URL

A source reported as "maps/a.js" was looked up as "maps/maps/a.js".
---
 src/consumer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/consumer.rs b/src/consumer.rs
index d86fddf..3e79ac0 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -220,6 +220,14 @@ impl BasicConsumer {
             return Some(index as i32);
         }
 
+        // Finally accept a source URL just as reported. With a relative map
+        // URL it is not found by resolving it once more.
+        if let Some(index) = self.absolute_sources.index_of(source.to_string()) {
+            self.source_lookup_cache
+                .insert(source.to_string(), index as i32);
+            return Some(index as i32);
+        }
+
         None
     }
 
-- 
2.43.0


From 3b011213c97355193f2710844133b06648a1ebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 09/25] fix: compare 0-based with 0-based line in
 original_position_for

Every lookup missed, except that with the least upper bound bias a mapping of
the following line was returned.
---
 src/consumer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 3e79ac0..719483e 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -326,7 +326,7 @@ impl BasicConsumer {
 
         match mapping {
             Some(mapping) => {
-                if mapping.generated_line as i32 == generated_line {
+                if mapping.generated_line as i32 == generated_line - 1 {
                     mapping.original.clone().map(|original| Mapping {
                         name: original
                             .name
-- 
2.43.0


From bbc788c225cd3b1a33e8d893fe3787fc835f9086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 10/25] fix: report the name and 1-based original line of
 generated_position_for

The name list was indexed by the source index (wrong name, or a panic) and
the original line came out 0-based, unlike in every other answer.
---
 src/consumer.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 719483e..c5bb862 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -433,7 +433,7 @@ impl BasicConsumer {
                             column: mapping.generated_column as i32,
                         },
                         original: mapping.original.as_ref().map(|it| Position {
-                            line: it.original_line as i32,
+                            line: (it.original_line + 1) as i32,
                             column: it.original_column as i32,
                         }),
                         source: mapping
@@ -441,9 +441,11 @@ impl BasicConsumer {
                             .as_ref()
                             .map(|it| self.absolute_sources.at(it.source as i32))
                             .flatten(),
-                        name: mapping.original.as_ref().map(|it| {
-                            self.source_map.names.as_ref().unwrap()[it.source as usize].clone()
-                        }),
+                        name: mapping
+                            .original
+                            .as_ref()
+                            .and_then(|it| it.name)
+                            .map(|it| self.source_map.names.as_ref().unwrap()[it as usize].clone()),
                         last_generated_column: last_column,
                     })
                 } else {
-- 
2.43.0


From f21d76e1a70a74d0c7e3a0d35375ad8c6a7daa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 11/25] fix: look up the requested line in
 all_generated_position_for

The 1-based line was used as 0-based, answering for the line after the
requested one, and asking without a column meant column 0 instead of all.
---
 src/consumer.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index c5bb862..a7f1db4 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -247,7 +247,6 @@ impl BasicConsumer {
         original_line: i32,
         original_column: Option<i32>,
     ) -> Vec<source_map_mappings::Mapping> {
-        let original_column = if let Some(r) = original_column { r } else { 0 };
         let source = self.find_source_index(source);
         if source.is_none() {
             return vec![];
@@ -263,7 +262,7 @@ impl BasicConsumer {
             panic!("Line numbers must be >= 1");
         }
 
-        if original_column < 0 {
+        if original_column.unwrap_or(0) < 0 {
             panic!("Column numbers must be >= 0");
         }
 
@@ -276,8 +275,8 @@ impl BasicConsumer {
         mappings
             .all_generated_locations_for(
                 source as u32,
-                original_line as u32,
-                Some(original_column as u32),
+                (original_line - 1) as u32,
+                original_column.map(|it| it as u32),
             )
             .cloned()
             .collect()
-- 
2.43.0


From 6983aa73794b6af102c6d86a11c1f0890dc996c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 12/25] fix: keep source contents aligned with their sources

Sources without content were dropped from the emitted sourcesContent, which
shifted every later content to the wrong source, and maps with null entries
could not be opened. Contents entries are optional now, and a list shorter
than the sources no longer panics.
---
 src/consumer.rs   | 7 +++++--
 src/generator.rs  | 7 ++-----
 src/source_map.rs | 2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index a7f1db4..ab56fe8 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -351,7 +351,10 @@ impl BasicConsumer {
 
     pub fn has_contents_of_all_sources(&self) -> bool {
         match self.source_map.sources_content {
-            Some(ref s) => s.len() >= self.source_map.sources.as_ref().unwrap().len(),
+            Some(ref s) => {
+                s.len() >= self.source_map.sources.as_ref().unwrap().len()
+                    && s.iter().all(|it| it.is_some())
+            }
             None => false,
         }
     }
@@ -368,7 +371,7 @@ impl BasicConsumer {
 
         let index = self.find_source_index(source);
         return match index {
-            Some(i) => Some(sources_content[i as usize].clone()),
+            Some(i) => sources_content.get(i as usize).cloned().flatten(),
             None => {
                 if panic_on_missing {
                     panic!(r#""{}" is not in the SourceMap."#, source);
diff --git a/src/generator.rs b/src/generator.rs
index fded665..2ccb07a 100644
--- a/src/generator.rs
+++ b/src/generator.rs
@@ -183,13 +183,10 @@ impl SourceMapGenerator {
 
     pub(crate) fn as_json(&mut self) -> SourceMapJson {
         let sources_vec = self.sources.to_vec();
-        let mut sources_content: Option<Vec<String>> = None;
+        let mut sources_content: Option<Vec<Option<String>>> = None;
         if !self.source_contents.is_empty() {
             sources_content = Some(
-                self.generate_sources_contents(sources_vec.clone(), self.source_root.clone())
-                    .into_iter()
-                    .flatten()
-                    .collect(),
+                self.generate_sources_contents(sources_vec.clone(), self.source_root.clone()),
             );
         }
         SourceMapJson {
diff --git a/src/source_map.rs b/src/source_map.rs
index aff20ab..f38d0e7 100644
--- a/src/source_map.rs
+++ b/src/source_map.rs
@@ -15,7 +15,7 @@ pub struct SourceMapJson {
     pub source_root: Option<String>,
     #[serde(rename = "sourcesContent")]
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub sources_content: Option<Vec<String>>,
+    pub sources_content: Option<Vec<Option<String>>>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub sections: Option<Vec<Section>>,
 }
-- 
2.43.0


From 7b3f27aa6d97a2f28f05abec9684b709a4509c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 13/25] fix: validate added mappings unless validation is
 skipped

Invalid mappings were accepted and made serialisation panic (source without
original) or run away (generated line below 1).
---
 src/generator.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/generator.rs b/src/generator.rs
index 2ccb07a..2e540a1 100644
--- a/src/generator.rs
+++ b/src/generator.rs
@@ -38,9 +38,10 @@ impl SourceMapGenerator {
     }
 
     pub fn add_mapping(&mut self, mapping: Mapping) {
-        // if (!this._skipValidation) {
-        // 	this._validateMapping(generated, original, source, name);
-        // }
+        if !self.skip_validation && Self::validate_mapping(&mapping).is_err() {
+            panic!("Invalid mapping: {:?}", mapping);
+        }
+
         let source: Option<String> = mapping.source.clone();
         let name: Option<String> = mapping.name.clone();
 
-- 
2.43.0


From d602350e010372b44fd91d10db06660c1a238be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 14/25] fix: sort mappings that share a generated position

Mappings at the same position counted as in order whatever their source,
original and name, so the list was left unsorted and a duplicate that was not
added right after its twin was emitted again.
---
 src/mapping_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mapping_list.rs b/src/mapping_list.rs
index ae62792..a01322e 100644
--- a/src/mapping_list.rs
+++ b/src/mapping_list.rs
@@ -8,7 +8,7 @@ fn generated_position_after(a: &Mapping, b: &Mapping) -> bool {
     let column_a = a.generated.column;
     let column_b = b.generated.column;
     line_b > line_a
-        || (line_b == line_a && column_b >= column_a)
+        || (line_b == line_a && column_b > column_a)
         || util::compare_by_generated_pos_inflated(a, b) <= 0
 }
 pub struct MappingList {
-- 
2.43.0


From 7e61cb72fabc1c3dbdfb13247c62c05ea319a06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 15/25] fix: check the order of indexed sections in section
 order

The check ran inside the parallel map, in whatever order the workers reached
the sections: valid maps were refused and unordered ones accepted depending on
the schedule.
---
 src/consumer.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index ab56fe8..895aee3 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -9,7 +9,6 @@ use std::cell::RefCell;
 use std::collections::HashMap;
 use std::panic;
 use std::rc::Rc;
-use std::sync::{Arc, Mutex};
 
 ///
 /// You should always use this function to create consumer
@@ -513,10 +512,27 @@ impl IndexedConsumer {
             panic!("Unsupported version: {}", version);
         }
 
-        let last_offset = Arc::new(Mutex::new(Position {
+        // Check the sections in order, before they are processed in parallel.
+        let mut last_offset = Position {
             line: -1,
             column: 0,
-        }));
+        };
+        for section in source_map.sections.as_ref().unwrap() {
+            if section.url.is_some() {
+                panic!("Section with url is not supported.");
+            }
+
+            let line = section.offset.line;
+            let colum = section.offset.column;
+
+            if line < last_offset.line
+                || (line == last_offset.line && colum < last_offset.column)
+            {
+                panic!("Section offsets must be ordered and non-overlapping.")
+            }
+
+            last_offset = section.offset.clone();
+        }
 
         IndexedConsumer {
             source_map: source_map.clone(),
@@ -546,25 +562,10 @@ impl IndexedConsumer {
                     .unwrap()
                     .par_iter()
                     .map({
-                        let last_offset = last_offset;
                         move |section| {
-                            if section.url.is_some() {
-                                panic!("Section with url is not supported.");
-                            }
-
                             let line = section.offset.line;
                             let colum = section.offset.column;
 
-                            let mut last_offset = last_offset.lock().unwrap();
-
-                            if line < last_offset.line
-                                || (line == last_offset.line && colum < last_offset.column)
-                            {
-                                panic!("Section offsets must be ordered and non-overlapping.")
-                            }
-
-                            *last_offset = section.offset.clone();
-
                             Section {
                                 generated_offset: Position {
                                     // The offset fields are 0-based, but we use 1-based indices when
-- 
2.43.0


From 75b7882e47d974b3435826193862106fd5a0f99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 16/25] fix: find the indexed section that starts at the
 queried position

The 0-based column was compared with a 1-based one, so the first column of a
section was attributed to the section before it, and the generated position
of the answer was left relative to the section.
---
 src/consumer.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 895aee3..621eed8 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -627,7 +627,8 @@ impl IndexedConsumer {
                 if a.line - b.generated_offset.line != 0 {
                     a.line - b.generated_offset.line
                 } else {
-                    a.column - b.generated_offset.column
+                    // The needle's column is 0-based, the section's 1-based.
+                    a.column - (b.generated_offset.column - 1)
                 }
             },
             |a, b| {
@@ -644,7 +645,9 @@ impl IndexedConsumer {
             .borrow_mut()
             .get_mut(section_index as usize)
             .map(|it| {
-                it.consumer.original_position_for(
+                let line_shift = it.generated_offset.line - 1;
+                let column_shift = it.generated_offset.column - 1;
+                let mut mapping = it.consumer.original_position_for(
                     Position {
                         line: needle.line - (it.generated_offset.line - 1),
                         column: needle.column
@@ -655,7 +658,16 @@ impl IndexedConsumer {
                             },
                     },
                     bias,
-                )
+                )?;
+                // Back from the section's coordinates to those of the whole map.
+                if mapping.generated.line == 1 {
+                    mapping.generated.column += column_shift;
+                    if let Some(column) = &mut mapping.last_generated_column {
+                        *column += column_shift;
+                    }
+                }
+                mapping.generated.line += line_shift;
+                Some(mapping)
             })
             .flatten()
     }
-- 
2.43.0


From 0968f6b83e2097a5354d0bb4458da1ac80d57b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 17/25] fix: report resolved source URLs for indexed maps

The raw text of the sources was returned, without source root and map URL.
---
 src/consumer.rs | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 621eed8..f107db5 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -590,24 +590,7 @@ impl IndexedConsumer {
         let mut sources: Vec<String> = vec![];
 
         for i in 0..(*self.sections).borrow().len() {
-            for j in 0..(*self.sections).borrow()[i]
-                .consumer
-                .source_map
-                .sources
-                .as_ref()
-                .unwrap()
-                .len()
-            {
-                sources.push(
-                    (*self.sections).borrow()[i]
-                        .consumer
-                        .source_map
-                        .sources
-                        .as_ref()
-                        .unwrap()[j]
-                        .clone(),
-                );
-            }
+            sources.extend((*self.sections).borrow()[i].consumer.get_sources());
         }
 
         sources
-- 
2.43.0


From d5bd0c9322c750e9f4d88a9f67ce4cfe3a470671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 18/25] fix: search all sections for a source content

A source of a later section panicked as missing at the first section.
---
 src/consumer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index f107db5..bd7a1a5 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -675,7 +675,7 @@ impl IndexedConsumer {
         for section in (*self.sections).borrow_mut().iter_mut() {
             if let Some(it) = section
                 .consumer
-                .source_content_for(source, panic_on_missing)
+                .source_content_for(source, Some(false))
             {
                 return Some(it);
             }
-- 
2.43.0


From 8800a572b648c529f6a51cd3aed90e3b30e4cf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:38 +0000
Subject: [PATCH 19/25] fix: answer reverse lookups of indexed maps in
 whole-map coordinates

The index of the source within its section was used as the index of the
section, positions were shifted by themselves instead of by the section offset
and the sections were borrowed again while borrowed, so every successful
lookup panicked. Spans of a section's last mapping end at the next section.
---
 src/consumer.rs | 126 ++++++++++++++++++++++++------------------------
 1 file changed, 63 insertions(+), 63 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index bd7a1a5..a0f2e33 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -495,6 +495,31 @@ pub struct IndexedConsumer {
     pub(crate) sections: Rc<RefCell<Vec<Section>>>,
 }
 
+/// Moves a mapping of the section at `offset` into the coordinates of the whole
+/// map. A mapping without a span end ends at `span_end` if that is on its line.
+fn shift_mapping(
+    mapping: &source_map_mappings::Mapping,
+    offset: &Position,
+    span_end: Option<&Position>,
+) -> source_map_mappings::Mapping {
+    let mut mapping = mapping.clone();
+    // The lines of these mappings are 0-based, the offsets 1-based.
+    if mapping.generated_line == 0 {
+        let column_shift = (offset.column - 1) as u32;
+        mapping.generated_column += column_shift;
+        if let Some(it) = &mut mapping.last_generated_column {
+            *it += column_shift;
+        }
+    }
+    mapping.generated_line += (offset.line - 1) as u32;
+    if let (None, Some(end)) = (mapping.last_generated_column, span_end) {
+        if mapping.generated_line == (end.line - 1) as u32 {
+            mapping.last_generated_column = Some((end.column - 1) as u32);
+        }
+    }
+    mapping
+}
+
 const SUPPORTED_SOURCE_MAP_VERSION: i32 = 3;
 
 impl IndexedConsumer {
@@ -624,6 +649,11 @@ impl IndexedConsumer {
             None,
         );
 
+        if section_index < 0 {
+            return None;
+        }
+        let span_end = self.span_end(section_index as usize);
+
         (&*self.sections)
             .borrow_mut()
             .get_mut(section_index as usize)
@@ -650,6 +680,11 @@ impl IndexedConsumer {
                     }
                 }
                 mapping.generated.line += line_shift;
+                if let (None, Some(end)) = (mapping.last_generated_column, span_end) {
+                    if mapping.generated.line == end.line {
+                        mapping.last_generated_column = Some(end.column - 1);
+                    }
+                }
                 Some(mapping)
             })
             .flatten()
@@ -689,11 +724,22 @@ impl IndexedConsumer {
         }
     }
 
-    fn find_source_index(&mut self, source: &str) -> Option<i32> {
+    /// Where the last mapping of a section ends, if its spans are computed.
+    fn span_end(&self, section: usize) -> Option<Position> {
+        let sections = (*self.sections).borrow();
+        if !sections[section].consumer.computed_column_spans {
+            return None;
+        }
+        sections
+            .get(section + 1)
+            .map(|next| next.generated_offset.clone())
+    }
+
+    fn find_section_index(&mut self, source: &str) -> Option<usize> {
         for i in 0..(*self.sections).borrow().len() {
             let consumer = &mut (*self.sections).borrow_mut()[i].consumer;
-            if let Some(index) = consumer.find_source_index(source) {
-                return Some(index);
+            if consumer.find_source_index(source).is_some() {
+                return Some(i);
             }
         }
 
@@ -712,9 +758,9 @@ impl IndexedConsumer {
         original_column: i32,
         bias: Option<Bias>,
     ) -> Option<Position> {
-        let index = self.find_source_index(source);
+        let index = self.find_section_index(source);
         if let Some(index) = index {
-            if let Some(section) = (*self.sections).borrow_mut().get_mut(index as usize) {
+            if let Some(section) = (*self.sections).borrow_mut().get_mut(index) {
                 let mut generated_position = section.consumer.generated_position_for(
                     source,
                     original_line,
@@ -722,35 +768,18 @@ impl IndexedConsumer {
                     bias,
                 );
                 if let Some(ref mut generated_position) = generated_position {
-                    let line_shift = generated_position.generated.line - 1;
-                    let column_shift = generated_position.generated.column - 1;
+                    let line_shift = section.generated_offset.line - 1;
+                    let column_shift = section.generated_offset.column - 1;
 
                     if generated_position.generated.line == 1 {
                         generated_position.generated.column += column_shift;
-                        if let Some(g) = &mut generated_position.last_generated_column {
-                            *g += column_shift;
-                        }
                     }
+                    generated_position.generated.line += line_shift;
 
-                    if let (Some(last_column), Some(next_section)) = (
-                        generated_position.last_generated_column,
-                        (*self.sections).borrow().get(index as usize + 1),
-                    ) {
-                        if last_column == -1
-                            && generated_position.generated.line
-                                == next_section.generated_offset.line
-                        {
-                            generated_position
-                                .last_generated_column
-                                .replace(next_section.generated_offset.column - 2);
-                        }
-                        generated_position.generated.line += line_shift;
-
-                        return Some(Position {
-                            line: generated_position.generated.line,
-                            column: generated_position.generated.column,
-                        });
-                    }
+                    return Some(Position {
+                        line: generated_position.generated.line,
+                        column: generated_position.generated.column,
+                    });
                 }
             }
         }
@@ -764,45 +793,16 @@ impl IndexedConsumer {
         original_line: i32,
         original_column: Option<i32>,
     ) -> Vec<source_map_mappings::Mapping> {
-        let index = self.find_source_index(source);
+        let index = self.find_section_index(source);
         if let Some(index) = index {
-            if let Some(section) = (*self.sections).borrow_mut().get_mut(index as usize) {
+            let span_end = self.span_end(index);
+            if let Some(section) = (*self.sections).borrow_mut().get_mut(index) {
+                let offset = section.generated_offset.clone();
                 section
                     .consumer
                     .all_generated_position_for(source, original_line, original_column)
                     .iter()
-                    .map(|mapping| {
-                        let mut mapping = mapping.clone();
-                        let line_shift = mapping.generated_line - 1;
-                        let column_shift = mapping.generated_column - 1;
-
-                        if mapping.generated_line == 1 {
-                            mapping.generated_column += column_shift;
-                            if let Some(g) = &mut mapping.last_generated_column {
-                                *g += column_shift;
-                            } else {
-                            }
-                        }
-
-                        if mapping.last_generated_column.is_some() {
-                            // TODO(CGQAQ): is it OK to be u8?
-                            // if last_column == -1
-                            let sections_ref = (*self.sections).borrow();
-                            let next_section = sections_ref.get(index as usize + 1);
-                            if let Some(next_section) = next_section {
-                                if mapping.generated_line
-                                    == next_section.generated_offset.line as u32
-                                {
-                                    mapping
-                                        .last_generated_column
-                                        .replace((next_section.generated_offset.column - 2) as u32);
-                                }
-                            }
-                            mapping.generated_line += line_shift;
-                        }
-
-                        mapping
-                    })
+                    .map(|mapping| shift_mapping(mapping, &offset, span_end.as_ref()))
                     .collect()
             } else {
                 vec![]
-- 
2.43.0


From ffe901775bef00cedafc55df10b26533d9c0031b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:38 +0000
Subject: [PATCH 20/25] fix: enumerate the mappings of indexed maps

The sections were borrowed again while borrowed, so enumerating any indexed
map panicked, and the column shift was applied to the second line of a section
instead of the first.
---
 src/consumer.rs | 60 +++++++++----------------------------------------
 1 file changed, 10 insertions(+), 50 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index a0f2e33..84a50e3 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -826,55 +826,15 @@ impl ConsumerTrait for IndexedConsumer {
     }
 
     fn each_mapping(&mut self, f: impl Fn(&source_map_mappings::Mapping), ord: IterOrd) {
-        (*self.sections)
-            .borrow_mut()
-            .iter_mut()
-            .enumerate()
-            .for_each({
-                let sections = &self.sections;
-                let f = &f;
-
-                move |(index, section)| {
-                    //     const nextSection =
-                    //     index + 1 < this._sections.length ? this._sections[index + 1] : null;
-                    // const { generatedOffset } = section;
-
-                    // const lineShift = generatedOffset.generatedLine - 1;
-                    // const columnShift = generatedOffset.generatedColumn - 1;
-
-                    let generated_offset = &mut section.generated_offset;
-                    let line_shift = generated_offset.line - 1;
-                    let column_shift = generated_offset.column - 1;
-                    section.consumer.each_mapping(
-                        {
-                            let sections_ref = (**sections).borrow();
-                            move |mapping| {
-                                let next_section = sections_ref.get(index + 1);
-
-                                let mut mapping = mapping.clone();
-                                if mapping.generated_line == 1 {
-                                    mapping.generated_column += column_shift as u32;
-                                    if let Some(it) = &mut mapping.last_generated_column {
-                                        *it += column_shift as u32;
-                                    }
-                                }
-
-                                if let Some(next_section) = next_section {
-                                    if mapping.generated_line
-                                        == next_section.generated_offset.line as u32
-                                    {
-                                        mapping.last_generated_column.replace(
-                                            next_section.generated_offset.column as u32 - 2,
-                                        );
-                                    }
-                                }
-                                mapping.generated_line += line_shift as u32;
-                                f(&mapping);
-                            }
-                        },
-                        ord.clone(),
-                    )
-                }
-            })
+        let len = (*self.sections).borrow().len();
+        for index in 0..len {
+            let span_end = self.span_end(index);
+            let section = &mut (*self.sections).borrow_mut()[index];
+            let offset = section.generated_offset.clone();
+            section.consumer.each_mapping(
+                |mapping| f(&shift_mapping(mapping, &offset, span_end.as_ref())),
+                ord.clone(),
+            )
+        }
     }
 }
-- 
2.43.0


From 88618502d2d2fe09b078c21b9ad37af959a14dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:38 +0000
Subject: [PATCH 21/25] fix: refuse basic maps of an unsupported version

Only indexed maps had their version checked; a basic map of any other version
was read as version 3.
---
 src/consumer.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 84a50e3..67ec1f8 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -122,6 +122,7 @@ pub struct BasicConsumer {
 impl BasicConsumer {
     pub fn new(source_map_raw: &str, source_map_url: Option<&str>) -> Self {
         let source_map = serde_json::from_str::<SourceMapJson>(source_map_raw).unwrap();
+        check_version(&source_map);
         BasicConsumer {
             source_map: source_map.clone(),
             source_lookup_cache: Default::default(),
@@ -148,6 +149,7 @@ impl BasicConsumer {
     }
 
     pub fn from_source_map_json(source_map: SourceMapJson, source_map_url: Option<&str>) -> Self {
+        check_version(&source_map);
         BasicConsumer {
             source_map: source_map.clone(),
             source_lookup_cache: Default::default(),
@@ -522,6 +524,12 @@ fn shift_mapping(
 
 const SUPPORTED_SOURCE_MAP_VERSION: i32 = 3;
 
+fn check_version(source_map: &SourceMapJson) {
+    if source_map.version != SUPPORTED_SOURCE_MAP_VERSION {
+        panic!("Unsupported version: {}", source_map.version);
+    }
+}
+
 impl IndexedConsumer {
     pub fn new(source_map_raw: &str, source_map_url: Option<&str>) -> Self {
         let source_map = serde_json::from_str::<SourceMapJson>(source_map_raw).unwrap();
@@ -529,13 +537,9 @@ impl IndexedConsumer {
     }
 
     pub fn from_source_map_json(source_map: SourceMapJson, source_map_url: Option<&str>) -> Self {
-        let version = source_map.version;
-
         // Once again, Sass deviates from the spec and supplies the version as a
         // string rather than a number, so we use loose equality checking here.
-        if version != SUPPORTED_SOURCE_MAP_VERSION {
-            panic!("Unsupported version: {}", version);
-        }
+        check_version(&source_map);
 
         // Check the sections in order, before they are processed in parallel.
         let mut last_offset = Position {
-- 
2.43.0


From 943fdabbc39e625a356596d6d24477045b1e3c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:38 +0000
Subject: [PATCH 22/25] fix: leave absent optional fields out of the document

A map without a file was emitted with "file":null.
---
 src/source_map.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/source_map.rs b/src/source_map.rs
index f38d0e7..c594373 100644
--- a/src/source_map.rs
+++ b/src/source_map.rs
@@ -9,6 +9,7 @@ pub struct SourceMapJson {
     pub names: Option<Vec<String>>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub mappings: Option<String>,
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub file: Option<String>,
     #[serde(rename = "sourceRoot")]
     #[serde(skip_serializing_if = "Option::is_none")]
@@ -26,6 +27,7 @@ pub struct Section {
     pub map: Box<SourceMapJson>,
 
     // ref: https://github.com/mozilla/source-map/issues/437
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub url: Option<String>,
 }
 
-- 
2.43.0


From 635416dd15f1e48c87423f76bc9487738b8df83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 23/25] fix: look up the last of the sections that share an
 offset

---
 src/consumer.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 67ec1f8..fae1765 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -656,11 +656,23 @@ impl IndexedConsumer {
         if section_index < 0 {
             return None;
         }
-        let span_end = self.span_end(section_index as usize);
+        // Of the sections that share an offset, only the last one extends beyond it.
+        let section_index = {
+            let sections = (*self.sections).borrow();
+            let found = &sections[section_index as usize].generated_offset;
+            sections
+                .iter()
+                .rposition(|it| {
+                    it.generated_offset.line == found.line
+                        && it.generated_offset.column == found.column
+                })
+                .unwrap_or(section_index as usize)
+        };
+        let span_end = self.span_end(section_index);
 
         (&*self.sections)
             .borrow_mut()
-            .get_mut(section_index as usize)
+            .get_mut(section_index)
             .map(|it| {
                 let line_shift = it.generated_offset.line - 1;
                 let column_shift = it.generated_offset.column - 1;
-- 
2.43.0


From 819ff69c3b64012fc3418658f4a345d677eff4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:06 +0000
Subject: [PATCH 24/25] fix: do not hold the sections while searching them for
 a source

---
 src/consumer.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index fae1765..36d329b 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -752,14 +752,10 @@ impl IndexedConsumer {
     }
 
     fn find_section_index(&mut self, source: &str) -> Option<usize> {
-        for i in 0..(*self.sections).borrow().len() {
-            let consumer = &mut (*self.sections).borrow_mut()[i].consumer;
-            if consumer.find_source_index(source).is_some() {
-                return Some(i);
-            }
-        }
-
-        None
+        (*self.sections)
+            .borrow_mut()
+            .iter_mut()
+            .position(|section| section.consumer.find_source_index(source).is_some())
     }
 
     ///
-- 
2.43.0


From 4645843611ca37dc5f3373ae371a11764d307ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:38 +0000
Subject: [PATCH 25/25] fix: keep the directory of a map URL whole when its
 path has empty segments

The directory of http://h/a//m.map is http://h/a//, not http://h/a/: what is
relative to the map was reported one empty segment short.
---
 src/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index c1c2177..78c2274 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -203,9 +203,9 @@ lazy_static! {
         let path = url.path().to_string();
         let mut path = path.split('/').collect::<Vec<_>>();
 
-        if !path.last().unwrap().is_empty() {
-            path.pop();
-        }
+        // The directory keeps its own slash, which may follow another one.
+        path.pop();
+        path.push("");
 
         url.set_path(&path.join("/"));
         url.set_query(None);
-- 
2.43.0

