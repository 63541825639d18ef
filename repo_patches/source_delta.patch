From b0d311afbba134f3a9bff679b36ca8527bd86572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:05 +0000
Subject: [PATCH 01/36] fix: Read MO message contexts and ids in the right
 order

A context is stored before the EOT separator and the message id after it.
---
 rust/src/moparser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index 7e83809..72253bf 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -52,7 +52,7 @@ fn maybe_extract_msgctxt_from_msgid(
     let msgid_tokens = msgid.split('\x04').collect::<Vec<&str>>();
 
     if msgid_tokens.len() == 2 {
-        (msgid_tokens[0].into(), Some(msgid_tokens[1].to_string()))
+        (msgid_tokens[1].into(), Some(msgid_tokens[0].to_string()))
     } else {
         (msgid.into(), None)
     }
-- 
2.43.0


From ab7016159de343e8f72034aa12bead9c17fc6cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:49 +0000
Subject: [PATCH 02/36] fix: Reject MO files whose strings are out of bounds

Strings pointing past the end of the data were silently read as NUL
bytes, and the announced length was allocated before checking it.
---
 rust/src/moparser.rs | 61 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 47 insertions(+), 14 deletions(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index 72253bf..de6b4a5 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -1,6 +1,6 @@
 use std::borrow::Cow;
 use std::fs::File;
-use std::io::{Cursor, SeekFrom};
+use std::io::{Cursor, Read, SeekFrom};
 use std::path::Path;
 
 use crate::entry::MOEntry;
@@ -117,8 +117,7 @@ impl MOFileParser<'_> {
             number_of_strings,
             msgids_index,
             msgstrs_index,
-        );
-        Ok(())
+        )
     }
 
     fn parse_4_bytes(&mut self) -> Result<u32, std::io::Error> {
@@ -259,30 +258,63 @@ impl MOFileParser<'_> {
         Ok((msgids_index, msgstrs_index))
     }
 
+    fn parse_msg(
+        &mut self,
+        length: u32,
+        offset: u32,
+        context: &str,
+        index: u32,
+    ) -> Result<Vec<u8>, IOError> {
+        let corrupted = || IOError::CorruptedMOData {
+            context: format!(
+                "parsing {} at index {}",
+                context, index
+            ),
+        };
+
+        self.fhandle
+            .seek(SeekFrom::Start(offset as u64))
+            .map_err(|_| corrupted())?;
+        // The length comes from the file, so don't allocate
+        // memory for it before knowing that the data is there
+        let mut buffer = vec![];
+        self.fhandle
+            .by_ref()
+            .take(length as u64)
+            .read_to_end(&mut buffer)
+            .map_err(|_| corrupted())?;
+        if buffer.len() != length as usize {
+            return Err(corrupted());
+        }
+        Ok(buffer)
+    }
+
     fn parse_msgs(
         &mut self,
         number_of_strings: u32,
         msgids_index: Vec<(u32, u32)>,
         msgstrs_index: Vec<(u32, u32)>,
-    ) {
+    ) -> Result<(), IOError> {
         for i in 0..number_of_strings {
             let (msgid_length, msgid_offset) =
                 msgids_index[i as usize];
             let (msgstr_length, msgstr_offset) =
                 msgstrs_index[i as usize];
 
-            self.fhandle
-                .seek(SeekFrom::Start(msgid_offset as u64))
-                .ok();
-            let mut msgid_buffer = vec![0; msgid_length as usize];
-            self.fhandle.read_exact(&mut msgid_buffer).ok();
+            let msgid_buffer = self.parse_msg(
+                msgid_length,
+                msgid_offset,
+                "msgid",
+                i,
+            )?;
             let msgid = String::from_utf8_lossy(&msgid_buffer);
 
-            self.fhandle
-                .seek(SeekFrom::Start(msgstr_offset as u64))
-                .ok();
-            let mut msgstr_buffer = vec![0; msgstr_length as usize];
-            self.fhandle.read_exact(&mut msgstr_buffer).ok();
+            let msgstr_buffer = self.parse_msg(
+                msgstr_length,
+                msgstr_offset,
+                "msgstr",
+                i,
+            )?;
             let msgstr = String::from_utf8_lossy(&msgstr_buffer);
 
             if i == 0 && msgid.is_empty() {
@@ -323,6 +355,7 @@ impl MOFileParser<'_> {
             );
             self.file.entries.push(entry);
         }
+        Ok(())
     }
 }
 
-- 
2.43.0


From 64e61e1dd247efebbe0c8802a516473ce85a2c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:08 +0000
Subject: [PATCH 03/36] fix: Return an error when there is no MO file to read

A path that does not exist or can't be opened made mofile() panic.
---
 rust/src/moparser.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index de6b4a5..1d0dd10 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -70,17 +70,20 @@ pub(crate) struct MOFileParser<'a> {
 
 impl MOFileParser<'_> {
     pub fn new<'a>(file_options: FileOptions) -> MOFileParser<'a> {
-        let mut file = MOFile::new(file_options);
+        let file = MOFile::new(file_options);
+        // If there is no file nor bytes to read, use an empty
+        // content to get an error when the parsing starts
         let fhandle: Box<dyn SeekRead> = match Path::new(
             &file.options.path_or_content,
         )
         .is_file()
         {
-            true => Box::new(
-                File::open(&file.options.path_or_content).unwrap(),
-            ),
+            true => match File::open(&file.options.path_or_content) {
+                Ok(fhandle) => Box::new(fhandle),
+                Err(_) => Box::new(Cursor::new(vec![])),
+            },
             false => Box::new(Cursor::new(
-                file.options.byte_content.as_mut().unwrap().clone(),
+                file.options.byte_content.clone().unwrap_or_default(),
             )),
         };
 
-- 
2.43.0


From 0cbad8e844d5b2647a3007bfeb365a8e44f3df82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:23 +0000
Subject: [PATCH 04/36] fix: Report lines found in an unexpected order as
 syntax errors

The parser panicked when a line is not allowed after the previous one.
---
 rust/src/poparser.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index abd1316..ae172cf 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -154,7 +154,19 @@ impl POFileParser {
     ) -> Result<(), SyntaxError> {
         let next_transition = (*symbol, self.current_state);
         let (action, next_state) =
-            *TRANSITIONS.get(&next_transition).unwrap();
+            match TRANSITIONS.get(&next_transition) {
+                Some(transition) => *transition,
+                None => {
+                    return Err(SyntaxError::Generic {
+                        maybe_filename: MaybeFilename::new(
+                            &self.file.options.path_or_content,
+                            self.content_is_path,
+                        ),
+                        line: self.current_line,
+                        index: 0,
+                    })
+                }
+            };
 
         (transition_fn_factory(action)?)(self)?;
         if action != St::MC {
-- 
2.43.0


From 9c7f025f2406c1a7f691d8f522ed6809639e9703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:56 +0000
Subject: [PATCH 05/36] fix: Reject strings not enclosed by double quotes

A missing opening double quote dropped the first character or panicked,
and an escaped double quote was accepted as the closing one.
---
 rust/src/poparser.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index ae172cf..7641161 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -738,6 +738,18 @@ fn find_unescaped_double_quote_index(line: &str) -> Option<usize> {
     None
 }
 
+fn is_terminated(text: &str) -> bool {
+    match text.strip_suffix('"') {
+        // A double quote preceded by an odd number of backslashes
+        // is escaped, so it does not close the string
+        Some(content) if !content.is_empty() => {
+            let unescaped = content.trim_end_matches('\\');
+            (content.len() - unescaped.len()) % 2 == 0
+        }
+        _ => false,
+    }
+}
+
 fn maybe_raise_unescaped_double_quote_found_error(
     text: &str,
     linenum: usize,
@@ -745,21 +757,32 @@ fn maybe_raise_unescaped_double_quote_found_error(
     path_or_content: &str,
     index_offset: usize,
 ) -> Result<(), SyntaxError> {
-    // Check if last character is not a double quote
+    // Check if the last character is not a closing double quote
     // to prevent slicing out of bounds
-    let text_chars = text.chars();
-    if text_chars.last().unwrap_or('\0') != '"' {
+    if !is_terminated(text) {
         return Err(SyntaxError::Custom {
             maybe_filename: MaybeFilename::new(
                 path_or_content,
                 path_or_content_is_path,
             ),
             line: linenum,
-            index: text.chars().count() - 1,
+            index: text.chars().count().saturating_sub(1),
             message: format!("unterminated string '{}'", text),
         });
     }
 
+    if !text.starts_with('"') {
+        return Err(SyntaxError::Custom {
+            maybe_filename: MaybeFilename::new(
+                path_or_content,
+                path_or_content_is_path,
+            ),
+            line: linenum,
+            index: index_offset - 1,
+            message: format!("unquoted string '{}'", text),
+        });
+    }
+
     let text_str = text.to_string();
     let unescaped_double_quote_i = find_unescaped_double_quote_index(
         &text_str[1..text_str.len() - 1],
-- 
2.43.0


From 63f4f6f34180257e5e0353d30846ee848541cd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:17 +0000
Subject: [PATCH 06/36] fix: Validate the strings of plural translations

Plural translations were not checked as the other fields. A missing double
quote panicked and an unescaped one was accepted.
---
 rust/src/poparser.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 7641161..ddc2464 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -360,6 +360,18 @@ impl POFileParser {
                 }
             };
 
+            let value = match line.split_once(']') {
+                Some((_, value)) => value.trim_start(),
+                None => "",
+            };
+            maybe_raise_unescaped_double_quote_found_error(
+                value,
+                self.current_line,
+                self.content_is_path,
+                &self.file.options.path_or_content,
+                line.chars().count() - value.chars().count() + 1,
+            )?;
+            self.current_token = value.to_string();
             self.process(&St::MX)?;
         } else if tokens[0] == "#," {
             if nb_tokens < 2 {
-- 
2.43.0


From dabcc214715f6d7f3de31a789b0770857033a6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:24 +0000
Subject: [PATCH 07/36] fix: Parse correctly the strings of previous fields

Continuation lines of previous fields kept the marker as part of the text,
more than one space after the marker cut the keyword, and the double quotes
were not validated.
---
 rust/src/poparser.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index ddc2464..1090e41 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -406,8 +406,17 @@ impl POFileParser {
             }
 
             // Remove the marker and any whitespace following it
+            let value = line[tokens[0].len()..].trim_start();
             if tokens[1].starts_with('"') {
                 // Continuation of previous metadata
+                maybe_raise_unescaped_double_quote_found_error(
+                    value,
+                    self.current_line,
+                    self.content_is_path,
+                    &self.file.options.path_or_content,
+                    line.chars().count() - value.chars().count() + 1,
+                )?;
+                self.current_token = value.to_string();
                 self.process(&St::MC)?;
                 return Ok(());
             }
@@ -440,10 +449,15 @@ impl POFileParser {
 
             // Remove the keyword and any whitespace
             // between it and the starting quote
-            self.current_token = line
-                [tokens[1].len() + tokens[0].len() + 1..]
-                .trim_start()
-                .to_string();
+            let value = value[tokens[1].len()..].trim_start();
+            maybe_raise_unescaped_double_quote_found_error(
+                value,
+                self.current_line,
+                self.content_is_path,
+                &self.file.options.path_or_content,
+                line.chars().count() - value.chars().count() + 1,
+            )?;
+            self.current_token = value.to_string();
             self.process(PREV_KEYWORDS.get(&tokens[1]).unwrap())?;
         } else {
             return Err(SyntaxError::Generic {
-- 
2.43.0


From b0b7840ee07934dccd642fe4c3eb7fbed0d57d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:47 +0000
Subject: [PATCH 08/36] fix: Limit the index of plural translations

All the forms until the index are allocated, so a huge index exhausted the
memory or overflowed.
---
 rust/src/poparser.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 1090e41..dcea58f 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -31,6 +31,10 @@ pub enum St {
     MC, // a msgid or msgstr continuation line
 }
 
+/// Maximum number of plural forms of an entry, as all the forms
+/// until the greatest index found are allocated
+const MAX_PLURAL_FORMS: usize = 1000;
+
 // Transitions are generated by the build.rs script
 include!(concat!(env!("OUT_DIR"), "/poparser-transitions.rs"));
 
@@ -338,6 +342,20 @@ impl POFileParser {
                 .unwrap();
 
             match index.parse::<usize>() {
+                Ok(index) if index >= MAX_PLURAL_FORMS => {
+                    return Err(SyntaxError::Custom {
+                        maybe_filename: MaybeFilename::new(
+                            &self.file.options.path_or_content,
+                            self.content_is_path,
+                        ),
+                        message: format!(
+                            "msgstr plural index {} is too large",
+                            index,
+                        ),
+                        line: self.current_line,
+                        index: 7,
+                    });
+                }
                 Ok(index) => {
                     self.msgstr_index = index;
                 }
-- 
2.43.0


From 2accf65711cbfd95bf4273581b8942e93815f140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:15 +0000
Subject: [PATCH 09/36] fix: Report errors reading the lines of PO files

The rest of the file was silently ignored after the first line that is not
valid UTF-8, and a file that can't be opened panicked.
---
 rust/src/poparser.rs | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index dcea58f..6765721 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
 use std::fs::File;
 use std::hash::Hash;
-use std::io::{BufRead, BufReader, Lines, Read};
+use std::io::{self, BufRead, BufReader, Lines, Read};
 use std::iter::Iterator;
 use std::path::Path;
 
@@ -80,14 +80,10 @@ impl LinesHandler<'_> {
 }
 
 impl Iterator for LinesHandler<'_> {
-    type Item = String;
+    type Item = io::Result<String>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.lines.next() {
-            Some(Ok(line)) => Some(line),
-            Some(Err(_)) => None,
-            None => None,
-        }
+        self.lines.next()
     }
 }
 
@@ -191,9 +187,15 @@ impl POFileParser {
     }
 
     fn parse_file(&mut self) -> Result<(), SyntaxError> {
-        let mut buf = BufReader::new(
-            File::open(&self.file.options.path_or_content).unwrap(),
-        );
+        let file = File::open(&self.file.options.path_or_content)
+            .map_err(|err| SyntaxError::BasicCustom {
+                maybe_filename: MaybeFilename::new(
+                    &self.file.options.path_or_content,
+                    self.content_is_path,
+                ),
+                message: err.to_string(),
+            })?;
+        let mut buf = BufReader::new(file);
         let mut handler = LinesHandler::new(&mut buf);
         self.parse_with_handler(&mut handler)?;
         Ok(())
@@ -211,10 +213,12 @@ impl POFileParser {
         &mut self,
         handler: &mut LinesHandler,
     ) -> Result<(), SyntaxError> {
-        let first_line = handler.next().unwrap_or("".to_string());
+        let first_line = handler.next().unwrap_or(Ok("".to_string()));
+        let first_line = self.maybe_raise_read_error(first_line)?;
         self.parse_line(maybe_lstrip_utf8_bom(&first_line))?;
 
         for line in handler.by_ref() {
+            let line = self.maybe_raise_read_error(line)?;
             self.parse_line(&line)?;
         }
 
@@ -263,6 +267,21 @@ impl POFileParser {
         Ok(())
     }
 
+    fn maybe_raise_read_error(
+        &self,
+        line: io::Result<String>,
+    ) -> Result<String, SyntaxError> {
+        line.map_err(|err| SyntaxError::Custom {
+            maybe_filename: MaybeFilename::new(
+                &self.file.options.path_or_content,
+                self.content_is_path,
+            ),
+            line: self.current_line + 1,
+            index: 0,
+            message: err.to_string(),
+        })
+    }
+
     fn tokens_from_line(&self, line: &str) -> Vec<String> {
         let mut tokens: Vec<String> = Vec::with_capacity(3);
         for token in line.split_ascii_whitespace() {
-- 
2.43.0


From 1bd48b16194469858fd0e6c9e3008dbf4a55bf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:21 +0000
Subject: [PATCH 10/36] fix: Parse the content of PO files passed as bytes

The bytes were ignored, giving always an empty file.
---
 rust/src/poparser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 6765721..2965635 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -202,8 +202,12 @@ impl POFileParser {
     }
 
     fn parse_content(&mut self) -> Result<(), SyntaxError> {
-        let content = self.file.options.path_or_content.clone();
-        let mut buf = BufReader::new(content.as_bytes());
+        let options = &self.file.options;
+        let content = match &options.byte_content {
+            Some(byte_content) => byte_content.clone(),
+            None => options.path_or_content.clone().into_bytes(),
+        };
+        let mut buf = BufReader::new(content.as_slice());
         let mut handler = LinesHandler::new(&mut buf);
         self.parse_with_handler(&mut handler)?;
         Ok(())
-- 
2.43.0


From 0497ea1113a9e4fee10a4be513f7fb8fee750269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:44 +0000
Subject: [PATCH 11/36] fix: Take as metadata only the entry without msgid and
 context

Any entry with an empty msgid was consumed as metadata, panicking if it has
plural forms, and was lost if it is the last one of the file. The metadata
is fuzzy only if it has the fuzzy flag.
---
 rust/src/poparser.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 2965635..e9f770f 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -226,26 +226,27 @@ impl POFileParser {
             self.parse_line(&line)?;
         }
 
-        if self.current_entry.msgid.is_empty() {
-            // Adding header entry
-            if let Some(msgstr) = &self.current_entry.msgstr {
-                if !msgstr.is_empty() {
-                    self.add_current_entry()?;
-                }
-            }
-        } else {
+        if !self.current_entry.msgid.is_empty() {
             self.add_current_entry()?;
+        } else {
+            // Adding header entry or an entry with only context
+            self.maybe_add_current_entry()?;
         }
 
-        let metadata_entry = self.file.find_by_msgid("");
+        // The entry with an empty msgid and without context
+        let metadata_entry = self
+            .file
+            .entries
+            .iter()
+            .find(|e| e.msgid.is_empty() && e.msgctxt.is_none())
+            .cloned();
         if let Some(metadata_entry) = metadata_entry {
             // Remove header from entries and store it in metadata hashmap
-            self.file.metadata_is_fuzzy =
-                !metadata_entry.flags.is_empty();
+            self.file.metadata_is_fuzzy = metadata_entry.fuzzy();
             self.file.remove(&metadata_entry);
 
             for metadata_line in
-                metadata_entry.msgstr.unwrap().split('\n')
+                metadata_entry.msgstr.unwrap_or_default().split('\n')
             {
                 let (key, value) =
                     match metadata_line.split_once(": ") {
-- 
2.43.0


From 4de4706b77514e0a9e192f3a0527288b86ece29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:02 +0000
Subject: [PATCH 12/36] fix: Keep the colon of occurrences without line number

An occurrence like 'foo:' was read as 'foo'.
---
 rust/src/poparser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index e9f770f..501f910 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -586,7 +586,7 @@ fn handle_oc(parser: &mut POFileParser) -> Result<(), SyntaxError> {
         if !occ.is_empty() {
             let (mut fil, mut line) =
                 occ.split_once(':').unwrap_or((occ, ""));
-            let mut line_isdigit = true;
+            let mut line_isdigit = !line.is_empty();
             for c in line.chars() {
                 if !c.is_ascii_digit() {
                     line_isdigit = false;
-- 
2.43.0


From 6f6b7ebb8b201ae8c55ee6c4692bae66d9e23774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:08 +0000
Subject: [PATCH 13/36] fix: Keep the trailing whitespace of translations

The whitespace at the end of msgstr was removed when rendering an entry.
---
 rust/src/entry/mod.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/rust/src/entry/mod.rs b/rust/src/entry/mod.rs
index 4ccbd11..8f7e712 100644
--- a/rust/src/entry/mod.rs
+++ b/rust/src/entry/mod.rs
@@ -73,14 +73,8 @@ fn default_mo_entry_msgstr_formatter(
     delflag: &str,
     wrapwidth: usize,
 ) -> String {
-    POStringField::new(
-        "msgstr",
-        delflag,
-        msgstr.trim_end(),
-        "",
-        wrapwidth,
-    )
-    .to_string()
+    POStringField::new("msgstr", delflag, msgstr, "", wrapwidth)
+        .to_string()
 }
 
 fn mo_entry_to_string_with_msgstr_formatter(
-- 
2.43.0


From dd4370951da68576652cc9026d75ea7b37a02c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:14 +0000
Subject: [PATCH 14/36] fix: Prefix all the lines of wrapped comments

Comments longer than the wrap width were rendered without the comment
marker, giving a file that can't be read. Wrap widths lower than 2
overflowed.
---
 rust/src/entry/poentry.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index a8caeb2..e292a10 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -96,12 +96,16 @@ impl POEntry {
     ) {
         for line in comment.lines() {
             if UnicodeWidthStr::width(line) + 2 > wrapwidth {
-                target.push_str(&wrap(line, wrapwidth - 2).join("\n"))
+                for piece in wrap(line, wrapwidth.saturating_sub(2)) {
+                    target.push_str(prefix);
+                    target.push_str(&piece);
+                    target.push('\n');
+                }
             } else {
                 target.push_str(prefix);
                 target.push_str(line);
+                target.push('\n');
             }
-            target.push('\n');
         }
     }
 
-- 
2.43.0


From 4584440d621be65be11661845809083e4681ca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:36 +0000
Subject: [PATCH 15/36] fix: Don't lose nor repeat occurrences when wrapping
 them

The occurrence that exceeds the wrap width was discarded and the previous
line was repeated.
---
 rust/src/entry/poentry.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index e292a10..f870fe5 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -155,11 +155,11 @@ impl POEntry {
                     let curr_line =
                         format!("#: {}", current_line_occs.join(" "));
                     files_repr.push(curr_line);
-                    current_width = occ_width + 2;
-                } else {
-                    current_line_occs.push(occ);
-                    current_width += occ_width + 1;
+                    current_line_occs.clear();
+                    current_width = 2;
                 }
+                current_line_occs.push(occ);
+                current_width += occ_width + 1;
             }
             if !current_line_occs.is_empty() {
                 let curr_line =
-- 
2.43.0


From ec65d8db403cad0875ef57646d9273490b61755c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:42 +0000
Subject: [PATCH 16/36] fix: Render the previous msgid_plural with its own
 keyword

It was rendered as a previous msgid followed by an empty line.
---
 rust/src/entry/poentry.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index f870fe5..296e823 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -213,7 +213,7 @@ impl POEntry {
         {
             ret.push_str(
                 &POStringField::new(
-                    "msgid",
+                    "msgid_plural",
                     &prefix,
                     previous_msgid_plural,
                     "",
@@ -221,7 +221,6 @@ impl POEntry {
                 )
                 .to_string(),
             );
-            ret.push('\n');
         }
 
         ret.push_str(&mo_entry_to_string(
-- 
2.43.0


From 8b6eab029dd40295721ef586f1ed0cbb4c4e1d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:27 +0000
Subject: [PATCH 17/36] fix: Use the wrap width of the options to render files

The files were always rendered with the default wrap width.
---
 rust/src/file/mofile.rs | 5 ++++-
 rust/src/file/pofile.rs | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/rust/src/file/mofile.rs b/rust/src/file/mofile.rs
index 4d8c240..aa63090 100644
--- a/rust/src/file/mofile.rs
+++ b/rust/src/file/mofile.rs
@@ -344,7 +344,10 @@ impl fmt::Display for MOFile {
 
         ret.push('\n');
         for entry in &self.entries {
-            ret.push_str(&entry.to_string());
+            ret.push_str(
+                &entry
+                    .to_string_with_wrapwidth(self.options.wrapwidth),
+            );
             ret.push('\n');
         }
         ret.remove(ret.len() - 1);
diff --git a/rust/src/file/pofile.rs b/rust/src/file/pofile.rs
index ec8d9d5..779e23b 100644
--- a/rust/src/file/pofile.rs
+++ b/rust/src/file/pofile.rs
@@ -399,11 +399,13 @@ impl fmt::Display for POFile {
         let mut entries_ret = String::new();
         let mut obsolete_entries_ret = String::new();
         for entry in &self.entries {
+            let entry_repr = entry
+                .to_string_with_wrapwidth(self.options.wrapwidth);
             if entry.obsolete {
-                obsolete_entries_ret.push_str(&entry.to_string());
+                obsolete_entries_ret.push_str(&entry_repr);
                 obsolete_entries_ret.push('\n');
             } else {
-                entries_ret.push_str(&entry.to_string());
+                entries_ret.push_str(&entry_repr);
                 entries_ret.push('\n');
             }
         }
-- 
2.43.0


From c0abb8625bc330c4e2254115f73debc2476d8188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:34 +0000
Subject: [PATCH 18/36] fix: Wrap correctly texts with non ASCII characters

Columns were used as byte offsets, so the width of the characters that don't
use one byte and one column was computed wrong.
---
 rust/src/twrapper.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/src/twrapper.rs b/rust/src/twrapper.rs
index de8913a..3490fd0 100644
--- a/rust/src/twrapper.rs
+++ b/rust/src/twrapper.rs
@@ -20,9 +20,11 @@ fn get_linebreaks(
     let mut accum_char_bindex = 0;
     let mut accum_char_width = 0; // bindex, width
     let mut last_break_width = 0;
+    let mut prev_lb = 0;
 
     for (lbi, (lb, _)) in linebreaks.iter().enumerate() {
-        let range = accum_char_width..*lb;
+        let range = prev_lb..*lb;
+        prev_lb = *lb;
         for bindex in range {
             accum_char_width +=
                 char_indices_widths.get(&bindex).unwrap_or(&0);
-- 
2.43.0


From 7a654ca78c7b6b58e0fedfae3205e7f096af934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:40 +0000
Subject: [PATCH 19/36] fix: Don't break lines inside escape sequences

The backslashes of an escaped backslash could be wrapped in different lines,
giving a file that can't be read.
---
 rust/src/twrapper.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rust/src/twrapper.rs b/rust/src/twrapper.rs
index 3490fd0..ba7251e 100644
--- a/rust/src/twrapper.rs
+++ b/rust/src/twrapper.rs
@@ -51,13 +51,23 @@ fn get_linebreaks(
     ret
 }
 
+fn ends_with_escape(text: &str) -> bool {
+    let unescaped = text.trim_end_matches('\\');
+    (text.len() - unescaped.len()) % 2 == 1
+}
+
 /// Wrap a text in lines using Unicode Line Breaking algorithm
 ///
 /// - `text` - Text to wrap in lines
 /// - `wrapwidth` - Maximum width of a line
 pub(crate) fn wrap(text: &str, wrapwidth: usize) -> Vec<String> {
+    // Don't break between a backslash and the character that escapes
     let linebreaks = get_linebreaks(
-        &unicode_linebreaks(text).collect(),
+        &unicode_linebreaks(text)
+            .filter(|(lb, _)| {
+                *lb == text.len() || !ends_with_escape(&text[..*lb])
+            })
+            .collect(),
         text,
         wrapwidth,
     );
-- 
2.43.0


From 1afd873c2f9287f78e9cafb3adbee58e95313e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:46 +0000
Subject: [PATCH 20/36] fix: Keep the bytes when creating options from a
 reference

---
 rust/src/file/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/file/mod.rs b/rust/src/file/mod.rs
index 53fce6e..5c8e7e1 100644
--- a/rust/src/file/mod.rs
+++ b/rust/src/file/mod.rs
@@ -111,7 +111,7 @@ impl From<&FileOptions> for FileOptions {
         Self {
             path_or_content: options.path_or_content.clone(),
             wrapwidth: options.wrapwidth,
-            ..Default::default()
+            byte_content: options.byte_content.clone(),
         }
     }
 }
-- 
2.43.0


From f42defc80305967f56c6882c42f55f452fb97dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:53 +0000
Subject: [PATCH 21/36] fix: Don't ignore the errors writing files

An incomplete file was left without notice if the write failed. Fail as when
the file can't be created.
---
 rust/src/file/mod.rs    | 2 +-
 rust/src/file/mofile.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/file/mod.rs b/rust/src/file/mod.rs
index 5c8e7e1..0496a4c 100644
--- a/rust/src/file/mod.rs
+++ b/rust/src/file/mod.rs
@@ -32,7 +32,7 @@ pub trait SaveAsPOFile {
         Self: fmt::Display,
     {
         let mut file = File::create(path).unwrap();
-        file.write_all(self.to_string().as_bytes()).ok();
+        file.write_all(self.to_string().as_bytes()).unwrap();
     }
 }
 
diff --git a/rust/src/file/mofile.rs b/rust/src/file/mofile.rs
index aa63090..3cc52b5 100644
--- a/rust/src/file/mofile.rs
+++ b/rust/src/file/mofile.rs
@@ -362,7 +362,7 @@ impl Save for MOFile {
     /// Save the MOFile to a file at the given path
     fn save(&self, path: &str) {
         let mut file = File::create(path).unwrap();
-        file.write_all(&self.as_bytes()).ok();
+        file.write_all(&self.as_bytes()).unwrap();
     }
 }
 
-- 
2.43.0


From d656fd19bfcaad7203fabdef8f2b00fb848148b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:59 +0000
Subject: [PATCH 22/36] fix: Make deterministic the order of metadata keys

Keys that are equal in natural order, like 'X-1' and 'X-01', were rendered
in the random order of the hash map.
---
 rust/src/file/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/src/file/mod.rs b/rust/src/file/mod.rs
index 0496a4c..2ffa2d5 100644
--- a/rust/src/file/mod.rs
+++ b/rust/src/file/mod.rs
@@ -193,7 +193,9 @@ fn metadata_hashmap_to_ordered(
     }
 
     let mut metadata_keys = metadata.keys().collect::<Vec<&String>>();
-    metadata_keys.sort_by(|&a, &b| compare_natural_order(a, b));
+    metadata_keys.sort_by(|&a, &b| {
+        compare_natural_order(a, b).then_with(|| a.cmp(b))
+    });
 
     for key in metadata_keys {
         if !METADATA_KEYS_ORDER.contains(&key.as_str()) {
-- 
2.43.0


From a25e48271f2addb4c034f35d5b738c0da95d0d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:36 +0000
Subject: [PATCH 23/36] fix: Find entries without context in MO files

An empty context matches with the entries without context, as when removing
entries and in PO files.
---
 rust/src/file/mofile.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/src/file/mofile.rs b/rust/src/file/mofile.rs
index 3cc52b5..ae0d90e 100644
--- a/rust/src/file/mofile.rs
+++ b/rust/src/file/mofile.rs
@@ -166,7 +166,9 @@ impl MOFile {
         msgctxt: &str,
     ) -> Option<&MOEntry> {
         self.entries.iter().find(|e| {
-            e.msgid == msgid && e.msgctxt == Some(msgctxt.to_string())
+            e.msgid == msgid
+                && e.msgctxt.as_ref().unwrap_or(&"".to_string())
+                    == msgctxt
         })
     }
 
-- 
2.43.0


From 2a577f5e3ac7b4a82e4660a65cf5a045e1fd33b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:42 +0000
Subject: [PATCH 24/36] fix: Don't lose an empty line of the header in each
 save

Only the last empty line at the end of the header was omitted, so each save
gave a different file.
---
 rust/src/file/pofile.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rust/src/file/pofile.rs b/rust/src/file/pofile.rs
index 779e23b..bed8184 100644
--- a/rust/src/file/pofile.rs
+++ b/rust/src/file/pofile.rs
@@ -369,6 +369,8 @@ impl fmt::Display for POFile {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut ret: String = match self.header {
             Some(ref header) => {
+                // Trailing empty lines are not rendered
+                let header = header.trim_end_matches('\n');
                 if header.is_empty() {
                     "#\n".to_string()
                 } else {
-- 
2.43.0


From ffa66807e21ab63563b22b5fb381de8f24d7f72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:58 +0000
Subject: [PATCH 25/36] fix: Match entries by msgid and msgctxt merging PO
 files

An entry without context matched with any entry with the same msgid, so it
was not added, and entries with a context removed from the reference file
were not marked as obsolete.
---
 rust/src/file/pofile.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/rust/src/file/pofile.rs b/rust/src/file/pofile.rs
index bed8184..5cc963a 100644
--- a/rust/src/file/pofile.rs
+++ b/rust/src/file/pofile.rs
@@ -452,13 +452,10 @@ impl Merge for POFile {
     /// with a PO file.
     fn merge(&mut self, other: POFile) {
         for other_entry in other.entries.as_slice() {
-            let entry: Option<POEntry> = match other_entry.msgctxt {
-                Some(ref msgctxt) => self.find_by_msgid_msgctxt(
-                    &other_entry.msgid,
-                    msgctxt,
-                ),
-                None => self.find_by_msgid(&other_entry.msgid),
-            };
+            let entry = self.find_by_msgid_msgctxt(
+                &other_entry.msgid,
+                other_entry.msgctxt.as_deref().unwrap_or(""),
+            );
 
             if let Some(e) = entry {
                 let mut entry = e;
@@ -472,7 +469,11 @@ impl Merge for POFile {
 
         let self_entries: &mut Vec<POEntry> = self.entries.as_mut();
         for entry in self_entries {
-            if other.find_by_msgid(&entry.msgid).is_none() {
+            let other_entry = other.find_by_msgid_msgctxt(
+                &entry.msgid,
+                entry.msgctxt.as_deref().unwrap_or(""),
+            );
+            if other_entry.is_none() {
                 entry.obsolete = true;
             }
         }
-- 
2.43.0


From 944db5cfb5495d63e4eb4fd297adbb08b874bb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:11 +0000
Subject: [PATCH 26/36] fix: Create an empty MOFile from Python without
 arguments

The default value of the path is not a file, so it could not be created.
---
 python/src/pymofile.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/src/pymofile.rs b/python/src/pymofile.rs
index 723438a..63e77fd 100644
--- a/python/src/pymofile.rs
+++ b/python/src/pymofile.rs
@@ -54,8 +54,11 @@ impl PyMOFile {
         path_or_content: &str,
         wrapwidth: usize,
     ) -> PyResult<Self> {
-        let result =
-            mofile(FileOptions::from((path_or_content, wrapwidth)));
+        let options = FileOptions::from((path_or_content, wrapwidth));
+        if path_or_content.is_empty() {
+            return Ok(PyMOFile(MOFile::new(options)));
+        }
+        let result = mofile(options);
         match result {
             Ok(mofile) => Ok(PyMOFile(mofile)),
             Err(e) => Err(PyErr::new::<exceptions::IOError, _>(
-- 
2.43.0


From 22b0e17b9793d676c5830acf0d938c657c6247b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:37 +0000
Subject: [PATCH 27/36] fix: Don't render trailing spaces in wrapped comments

The spaces are removed when the comments are read, so the files rendered
after and before reading them were different.
---
 rust/src/entry/poentry.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index 296e823..0344389 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -95,11 +95,16 @@ impl POEntry {
         target: &mut String,
     ) {
         for line in comment.lines() {
-            if UnicodeWidthStr::width(line) + 2 > wrapwidth {
+            if UnicodeWidthStr::width(line) + 2 > wrapwidth
+                && !line.trim().is_empty()
+            {
                 for piece in wrap(line, wrapwidth.saturating_sub(2)) {
-                    target.push_str(prefix);
-                    target.push_str(&piece);
-                    target.push('\n');
+                    let piece = piece.trim_end();
+                    if !piece.is_empty() {
+                        target.push_str(prefix);
+                        target.push_str(piece);
+                        target.push('\n');
+                    }
                 }
             } else {
                 target.push_str(prefix);
-- 
2.43.0


From b32d1452f84d2eb9d29feae4c4223cd97ac9e51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:55 +0000
Subject: [PATCH 28/36] fix: Keep the empty lines at the end of comments

The lines of a comment were taken with lines(), which ignores the last
one when it is empty, so each save dropped an empty line of the comment.
---
 rust/src/entry/poentry.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index 0344389..39c9503 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -94,7 +94,8 @@ impl POEntry {
         wrapwidth: usize,
         target: &mut String,
     ) {
-        for line in comment.lines() {
+        for line in comment.split('\n') {
+            let line = line.strip_suffix('\r').unwrap_or(line);
             if UnicodeWidthStr::width(line) + 2 > wrapwidth
                 && !line.trim().is_empty()
             {
-- 
2.43.0


From be22b53c737c99d6bb7c2c823f7aef1a2e5a0ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:06 +0000
Subject: [PATCH 29/36] fix: Keep the empty lines of extracted comments

The lines with only the #. marker were ignored, so the paragraphs of an
extracted comment were joined reading it.
---
 rust/src/poparser.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 501f910..1f4e31b 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -428,9 +428,6 @@ impl POFileParser {
             // translator comment
             self.process(&St::TC)?;
         } else if tokens[0] == "#." {
-            if nb_tokens < 2 {
-                return Ok(());
-            }
             // generated comment
             self.process(&St::GC)?;
         } else if tokens[0] == "#|" {
-- 
2.43.0


From e4e588acad0fa73bb1666c55e45fe925c236a340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:04 +0000
Subject: [PATCH 30/36] fix: Require all plural forms in translated MO entries

An entry with some plural form still empty was reported as translated by
MOEntry while the same message is untranslated for POEntry.
---
 rust/src/entry/moentry.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust/src/entry/moentry.rs b/rust/src/entry/moentry.rs
index 8740897..5d7fe39 100644
--- a/rust/src/entry/moentry.rs
+++ b/rust/src/entry/moentry.rs
@@ -174,13 +174,13 @@ impl Translated for MOEntry {
             return false;
         } else {
             for msgstr_plural in &self.msgstr_plural {
-                if !msgstr_plural.is_empty() {
-                    return true;
+                if msgstr_plural.is_empty() {
+                    return false;
                 }
             }
         }
 
-        false
+        true
     }
 }
 
-- 
2.43.0


From b0af82474d71b64f18016c3c499ed5fe8a150ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:09 +0000
Subject: [PATCH 31/36] fix: Show the magic numbers in the error of incorrect
 ones

The names of the fields were printed instead of their values.
---
 rust/src/errors.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/rust/src/errors.rs b/rust/src/errors.rs
index b89bda8..d7a9cf1 100644
--- a/rust/src/errors.rs
+++ b/rust/src/errors.rs
@@ -132,13 +132,7 @@ pub enum IOError {
     /// Usually this happens because the buffer offset reading the
     /// file is not correct or the file has been saved with an
     /// incorrect magic number.
-    #[snafu(display(
-        concat!(
-            "Invalid mo file, magic number is incorrect",
-            " ({{magic_number_le}} read as le, {{magic_number_be}}",
-            " read as be)",
-        )
-    ))]
+    #[snafu(display("Invalid mo file, magic number is incorrect ({magic_number_le} read as le, {magic_number_be} read as be)"))]
     IncorrectMagicNumber {
         magic_number_le: u32,
         magic_number_be: u32,
-- 
2.43.0


From f8be1445d5565e008d4c9fd2f34a9dedb89e4330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:03 +0000
Subject: [PATCH 32/36] fix: Include the whole text in escaping errors

The errors only carried what follows the escape sequence, which is always
empty for an escape at the end of the string.
---
 rust/src/escaping.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/src/escaping.rs b/rust/src/escaping.rs
index 0b98609..cff95e5 100644
--- a/rust/src/escaping.rs
+++ b/rust/src/escaping.rs
@@ -21,6 +21,7 @@ pub fn escape(text: &str) -> Cow<'_, str> {
 }
 
 struct EscapedStringInterpreter<'a> {
+    text: &'a str,
     characters: std::str::Chars<'a>,
 }
 
@@ -31,7 +32,7 @@ impl<'a> Iterator for EscapedStringInterpreter<'a> {
         self.characters.next().map(|c| match c {
             '\\' => match self.characters.next() {
                 None => Err(EscapingError::EscapeAtEndOfString {
-                    text: self.characters.as_str().to_string(),
+                    text: self.text.to_string(),
                 }),
                 Some('"') => Ok('"'),
                 Some('n') => Ok('\n'),
@@ -43,7 +44,7 @@ impl<'a> Iterator for EscapedStringInterpreter<'a> {
                 Some('\\') => Ok('\\'),
                 Some(c) => {
                     Err(EscapingError::InvalidEscapedCharacter {
-                        text: self.characters.as_str().to_string(),
+                        text: self.text.to_string(),
                         character: c,
                     })
                 }
@@ -57,6 +58,7 @@ impl<'a> Iterator for EscapedStringInterpreter<'a> {
 pub fn unescape(text: &str) -> Result<Cow<'_, str>, EscapingError> {
     if text.contains('\\') {
         (EscapedStringInterpreter {
+            text,
             characters: text.chars(),
         })
         .collect()
-- 
2.43.0


From d47f4991f146ecc539f3ea324c62047bea96b9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:12 +0000
Subject: [PATCH 33/36] fix: Wrap long runs of backslashes in linear time

---
 rust/src/twrapper.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rust/src/twrapper.rs b/rust/src/twrapper.rs
index ba7251e..1890ed6 100644
--- a/rust/src/twrapper.rs
+++ b/rust/src/twrapper.rs
@@ -51,21 +51,22 @@ fn get_linebreaks(
     ret
 }
 
-fn ends_with_escape(text: &str) -> bool {
-    let unescaped = text.trim_end_matches('\\');
-    (text.len() - unescaped.len()) % 2 == 1
-}
-
 /// Wrap a text in lines using Unicode Line Breaking algorithm
 ///
 /// - `text` - Text to wrap in lines
 /// - `wrapwidth` - Maximum width of a line
 pub(crate) fn wrap(text: &str, wrapwidth: usize) -> Vec<String> {
     // Don't break between a backslash and the character that escapes
+    let mut after_escape = false;
+    let mut prev_lb = 0;
     let linebreaks = get_linebreaks(
         &unicode_linebreaks(text)
             .filter(|(lb, _)| {
-                *lb == text.len() || !ends_with_escape(&text[..*lb])
+                for byte in &text.as_bytes()[prev_lb..*lb] {
+                    after_escape = !after_escape && *byte == b'\\';
+                }
+                prev_lb = *lb;
+                *lb == text.len() || !after_escape
             })
             .collect(),
         text,
-- 
2.43.0


From 2e731bca642b6b4576efb95899a2c4a2776ca742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:31 +0000
Subject: [PATCH 34/36] fix: keep extracted comment lines within the wrap width

The marker of extracted comments takes three columns, but two were reserved, so folded lines could be one column wider than requested.
---
 rust/src/entry/poentry.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index 39c9503..c88b150 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -96,10 +96,11 @@ impl POEntry {
     ) {
         for line in comment.split('\n') {
             let line = line.strip_suffix('\r').unwrap_or(line);
-            if UnicodeWidthStr::width(line) + 2 > wrapwidth
+            if UnicodeWidthStr::width(line) + prefix.len() > wrapwidth
                 && !line.trim().is_empty()
             {
-                for piece in wrap(line, wrapwidth.saturating_sub(2)) {
+                let width = wrapwidth.saturating_sub(prefix.len());
+                for piece in wrap(line, width) {
                     let piece = piece.trim_end();
                     if !piece.is_empty() {
                         target.push_str(prefix);
-- 
2.43.0


From 90dd0c0304800beb9c5b9101fe87823abfe5700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:19 +0000
Subject: [PATCH 35/36] fix: append continuation lines to the text in place

The text collected so far was copied at every continuation line, so the time to read a long message grew with the square of its lines.
---
 rust/src/poparser.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 1f4e31b..4bdb375 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -707,17 +707,13 @@ fn handle_mc(parser: &mut POFileParser) -> Result<(), SyntaxError> {
     } else if parser.current_state == St::MS {
         let msgstr = parser.current_entry.msgstr.as_mut().unwrap();
         msgstr.push_str(token);
-        parser.current_entry.msgstr = Some(msgstr.to_string());
     } else if parser.current_state == St::CT {
         let msgctxt = parser.current_entry.msgctxt.as_mut().unwrap();
         msgctxt.push_str(token);
-        parser.current_entry.msgctxt = Some(msgctxt.to_string());
     } else if parser.current_state == St::MP {
         let msgid_plural =
             parser.current_entry.msgid_plural.as_mut().unwrap();
         msgid_plural.push_str(token);
-        parser.current_entry.msgid_plural =
-            Some(msgid_plural.to_string());
     } else if parser.current_state == St::MX {
         parser.current_entry.msgstr_plural[parser.msgstr_index]
             .push_str(token);
@@ -728,20 +724,14 @@ fn handle_mc(parser: &mut POFileParser) -> Result<(), SyntaxError> {
             .as_mut()
             .unwrap();
         previous_msgid_plural.push_str(token);
-        parser.current_entry.previous_msgid_plural =
-            Some(previous_msgid_plural.to_string());
     } else if parser.current_state == St::PM {
         let previous_msgid =
             parser.current_entry.previous_msgid.as_mut().unwrap();
         previous_msgid.push_str(token);
-        parser.current_entry.previous_msgid =
-            Some(previous_msgid.to_string());
     } else if parser.current_state == St::PC {
         let previous_msgctxt =
             parser.current_entry.previous_msgctxt.as_mut().unwrap();
         previous_msgctxt.push_str(token);
-        parser.current_entry.previous_msgctxt =
-            Some(previous_msgctxt.to_string());
     } else {
         return Err(SyntaxError::Custom {
             maybe_filename: MaybeFilename::new(
-- 
2.43.0


From e064d05194a9865b1a08f7ee7b6d6ab14222bdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:26 +0000
Subject: [PATCH 36/36] fix: append comment and header lines in place

The header, translator comment and extracted comment collected so far were copied at every further line, so the time to read them grew with the square of their lines.
---
 rust/src/poparser.rs | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 4bdb375..f0e3bd1 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -513,11 +513,7 @@ impl POFileParser {
 }
 
 fn handle_he(parser: &mut POFileParser) -> Result<(), SyntaxError> {
-    let mut newheader = match parser.file.header {
-        Some(ref header) => header,
-        None => "",
-    }
-    .to_string();
+    let mut newheader = parser.file.header.take().unwrap_or_default();
     if !newheader.is_empty() {
         newheader.push('\n');
     }
@@ -530,16 +526,15 @@ fn handle_he(parser: &mut POFileParser) -> Result<(), SyntaxError> {
 
 fn handle_tc(parser: &mut POFileParser) -> Result<(), SyntaxError> {
     parser.maybe_add_current_entry()?;
-    let optional_tcomment = parser.current_entry.tcomment.as_mut();
+    let optional_tcomment = parser.current_entry.tcomment.take();
     let mut tcomment = match optional_tcomment {
         Some(tcomment) => {
-            let t = tcomment;
+            let mut t = tcomment;
             t.push('\n');
             t
         }
-        None => "",
-    }
-    .to_string();
+        None => String::new(),
+    };
 
     let mut toappend =
         parser.current_token.trim_start_matches('#').to_string();
@@ -548,8 +543,7 @@ fn handle_tc(parser: &mut POFileParser) -> Result<(), SyntaxError> {
     }
     tcomment.push_str(&toappend);
 
-    parser.current_entry.tcomment =
-        Some(tcomment.as_str().to_string());
+    parser.current_entry.tcomment = Some(tcomment);
 
     Ok(())
 }
@@ -557,16 +551,15 @@ fn handle_tc(parser: &mut POFileParser) -> Result<(), SyntaxError> {
 fn handle_gc(parser: &mut POFileParser) -> Result<(), SyntaxError> {
     parser.maybe_add_current_entry()?;
 
-    let optional_comment = parser.current_entry.comment.as_mut();
+    let optional_comment = parser.current_entry.comment.take();
     let mut comment = match optional_comment {
         Some(comment) => {
-            let t = comment;
+            let mut t = comment;
             t.push('\n');
             t
         }
-        None => "",
-    }
-    .to_string();
+        None => String::new(),
+    };
 
     if parser.current_token.len() > 3 {
         comment.push_str(&parser.current_token[3..]);
-- 
2.43.0

