From a45d1b6b0edbd98581d9493ab6bd380bf6dfb875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 01/42] fix: quote strings containing '>' when writing scalars

---
 crates/styx-format/src/scalar.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/styx-format/src/scalar.rs b/crates/styx-format/src/scalar.rs
index 0fb0a1a..e37b9da 100644
--- a/crates/styx-format/src/scalar.rs
+++ b/crates/styx-format/src/scalar.rs
@@ -10,7 +10,7 @@ use std::borrow::Cow;
 /// A bare scalar is valid when:
 /// 1. It's not empty
 /// 2. It doesn't start with characters that look like other syntax (`//`, `r#`, `<<`)
-/// 3. It doesn't contain special characters: `{}(),"=@` or whitespace
+/// 3. It doesn't contain special characters: `{}(),"=@>` or whitespace
 pub fn can_be_bare(s: &str) -> bool {
     if s.is_empty() {
         return false;
@@ -21,7 +21,9 @@ pub fn can_be_bare(s: &str) -> bool {
     }
     // Cannot contain special characters
     !s.chars()
-        .any(|c| matches!(c, '{' | '}' | '(' | ')' | ',' | '"' | '=' | '@') || c.is_whitespace())
+        .any(|c| {
+            matches!(c, '{' | '}' | '(' | ')' | ',' | '"' | '=' | '@' | '>') || c.is_whitespace()
+        })
 }
 
 /// Count escape sequences needed for a quoted string.
-- 
2.43.0


From a872d9a11e4b17c2cfec47c20ed4d82e0a332fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:11 +0000
Subject: [PATCH 02/42] fix: quote keys containing '.' so they are not read as
 dotted paths

---
 crates/styx-format/src/scalar.rs       | 14 ++++++++++----
 crates/styx-format/src/value_format.rs |  2 +-
 crates/styx-format/src/writer.rs       |  6 +++---
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/styx-format/src/scalar.rs b/crates/styx-format/src/scalar.rs
index e37b9da..ec4c100 100644
--- a/crates/styx-format/src/scalar.rs
+++ b/crates/styx-format/src/scalar.rs
@@ -20,10 +20,16 @@ pub fn can_be_bare(s: &str) -> bool {
         return false;
     }
     // Cannot contain special characters
-    !s.chars()
-        .any(|c| {
-            matches!(c, '{' | '}' | '(' | ')' | ',' | '"' | '=' | '@' | '>') || c.is_whitespace()
-        })
+    !s.chars().any(|c| {
+        matches!(c, '{' | '}' | '(' | ')' | ',' | '"' | '=' | '@' | '>') || c.is_whitespace()
+    })
+}
+
+/// Check if a string can be written as a bare key.
+///
+/// Like [`can_be_bare`], except that a bare key containing `.` would be read as a dotted path.
+pub fn can_be_bare_key(s: &str) -> bool {
+    can_be_bare(s) && !s.contains('.')
 }
 
 /// Count escape sequences needed for a quoted string.
diff --git a/crates/styx-format/src/value_format.rs b/crates/styx-format/src/value_format.rs
index f4240ae..e6fe71e 100644
--- a/crates/styx-format/src/value_format.rs
+++ b/crates/styx-format/src/value_format.rs
@@ -187,7 +187,7 @@ impl ValueFormatter {
             }
             Some(Payload::Scalar(s)) => {
                 // Always check if the text can be bare, regardless of original ScalarKind
-                if crate::scalar::can_be_bare(&s.text) {
+                if crate::scalar::can_be_bare_key(&s.text) {
                     result.push_str(&s.text);
                 } else {
                     result.push('"');
diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index 23cab09..ed3fd41 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -4,7 +4,7 @@
 //! independent of any serialization framework.
 
 use crate::options::{ForceStyle, FormatOptions};
-use crate::scalar::{can_be_bare, count_escapes, count_newlines, escape_quoted};
+use crate::scalar::{can_be_bare, can_be_bare_key, count_escapes, count_newlines, escape_quoted};
 
 /// Context for tracking serialization state.
 #[derive(Debug, Clone)]
@@ -356,7 +356,7 @@ impl StyxWriter {
         }
 
         // Write the key - keys are typically bare identifiers
-        if can_be_bare(key) {
+        if can_be_bare_key(key) {
             self.out.extend_from_slice(key.as_bytes());
         } else {
             self.write_quoted_string(key);
@@ -614,7 +614,7 @@ impl StyxWriter {
         }
 
         // Write the key
-        if can_be_bare(key) {
+        if can_be_bare_key(key) {
             self.out.extend_from_slice(key.as_bytes());
         } else {
             self.write_quoted_string(key);
-- 
2.43.0


From 4b02b4c8888b73530a6522e8b98459190d598ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:31 +0000
Subject: [PATCH 03/42] fix: quote the scalar payload of a tagged key

---
 crates/styx-format/src/value_format.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/styx-format/src/value_format.rs b/crates/styx-format/src/value_format.rs
index e6fe71e..4bcb31f 100644
--- a/crates/styx-format/src/value_format.rs
+++ b/crates/styx-format/src/value_format.rs
@@ -186,8 +186,9 @@ impl ValueFormatter {
                 // If tagged with no payload, tag is already written (e.g., @schema)
             }
             Some(Payload::Scalar(s)) => {
-                // Always check if the text can be bare, regardless of original ScalarKind
-                if crate::scalar::can_be_bare_key(&s.text) {
+                // Always check if the text can be bare, regardless of original ScalarKind.
+                // A bare payload directly after a tag would be read as part of the tag name.
+                if key.tag.is_none() && crate::scalar::can_be_bare_key(&s.text) {
                     result.push_str(&s.text);
                 } else {
                     result.push('"');
-- 
2.43.0


From e0f111e94ed7d23a505e4087c5ff68847daf3d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:06 +0000
Subject: [PATCH 04/42] fix: escape the name of a tagged map key when
 serializing

---
 crates/facet-styx/src/serializer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/facet-styx/src/serializer.rs b/crates/facet-styx/src/serializer.rs
index bd7c684..8d76051 100644
--- a/crates/facet-styx/src/serializer.rs
+++ b/crates/facet-styx/src/serializer.rs
@@ -8,7 +8,7 @@ use facet_format::{
     FieldKey, FieldLocationHint, FormatSerializer, ScalarValue, SerializeError, serialize_root,
 };
 use facet_reflect::{HasFields, Peek};
-use styx_format::{FormatOptions, StyxWriter};
+use styx_format::{FormatOptions, StyxWriter, escape_quoted};
 
 // Re-export FormatOptions as SerializeOptions for backwards compatibility
 pub use styx_format::FormatOptions as SerializeOptions;
@@ -260,6 +260,7 @@ impl FormatSerializer for StyxSerializer {
         ) {
             (Some(tag), Some(name)) => {
                 // @tag"name" - tagged with value
+                let name = escape_quoted(name);
                 let key_str = if tag.is_empty() {
                     format!("@\"{}\"", name)
                 } else {
-- 
2.43.0


From 6049c282d9f001c44b432b33a736c628f68562d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:00 +0000
Subject: [PATCH 05/42] fix: quote numbers and booleans written directly after
 a tag

---
 crates/styx-format/src/writer.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index ed3fd41..88f908a 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -449,41 +449,37 @@ impl StyxWriter {
     /// Write a boolean value.
     pub fn write_bool(&mut self, v: bool) {
         self.before_value();
-        if v {
-            self.out.extend_from_slice(b"true");
-        } else {
-            self.out.extend_from_slice(b"false");
-        }
+        self.write_plain(if v { "true" } else { "false" });
     }
 
     /// Write an i64 value.
     pub fn write_i64(&mut self, v: i64) {
         self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_plain(&v.to_string());
     }
 
     /// Write a u64 value.
     pub fn write_u64(&mut self, v: u64) {
         self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_plain(&v.to_string());
     }
 
     /// Write an i128 value.
     pub fn write_i128(&mut self, v: i128) {
         self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_plain(&v.to_string());
     }
 
     /// Write a u128 value.
     pub fn write_u128(&mut self, v: u128) {
         self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_plain(&v.to_string());
     }
 
     /// Write an f64 value.
     pub fn write_f64(&mut self, v: f64) {
         self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_plain(&v.to_string());
     }
 
     /// Write a string value with appropriate quoting.
@@ -900,6 +896,15 @@ impl StyxWriter {
         self.write_quoted_string(s);
     }
 
+    /// Write a number or boolean, quoted if it directly follows a tag.
+    fn write_plain(&mut self, text: &str) {
+        if std::mem::take(&mut self.force_quote_next_scalar) {
+            self.write_quoted_string(text);
+        } else {
+            self.out.extend_from_slice(text.as_bytes());
+        }
+    }
+
     /// Write a quoted string with proper escaping.
     fn write_quoted_string(&mut self, s: &str) {
         self.out.push(b'"');
-- 
2.43.0


From 0577dd4fd5a0239e6a18227fb2f9b2829d6ce0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:12 +0000
Subject: [PATCH 06/42] fix: decode \u escapes in syntax tree scalars

---
 crates/styx-cst/src/ast.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/crates/styx-cst/src/ast.rs b/crates/styx-cst/src/ast.rs
index d42af1a..35d8ed4 100644
--- a/crates/styx-cst/src/ast.rs
+++ b/crates/styx-cst/src/ast.rs
@@ -476,6 +476,30 @@ fn unescape_quoted(text: &str) -> String {
                 Some('t') => result.push('\t'),
                 Some('\\') => result.push('\\'),
                 Some('"') => result.push('"'),
+                Some('u') => {
+                    let mut hex = String::new();
+                    if chars.next_if_eq(&'{').is_some() {
+                        // \u{X...}
+                        for c in chars.by_ref() {
+                            if c == '}' {
+                                break;
+                            }
+                            hex.push(c);
+                        }
+                    } else {
+                        // \uXXXX
+                        while hex.len() < 4
+                            && let Some(c) = chars.next_if(|c| c.is_ascii_hexdigit())
+                        {
+                            hex.push(c);
+                        }
+                    }
+                    if let Ok(code) = u32::from_str_radix(&hex, 16)
+                        && let Some(ch) = char::from_u32(code)
+                    {
+                        result.push(ch);
+                    }
+                }
                 Some(c) => {
                     // Unknown escape, keep as-is
                     result.push('\\');
-- 
2.43.0


From 49f730ab4c67e0d4740656b13f85c5b6b6201c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:08 +0000
Subject: [PATCH 07/42] fix: report empty, short, surrogate and out-of-range
 unicode escapes

Also stop validating the already processed text of a quoted tag payload in key position.
---
 crates/styx-parse/src/lexer.rs      |  6 ++--
 crates/styx-parse/src/parser/mod.rs | 44 +++++++++++------------------
 2 files changed, 20 insertions(+), 30 deletions(-)

diff --git a/crates/styx-parse/src/lexer.rs b/crates/styx-parse/src/lexer.rs
index ecc01e0..48f7852 100644
--- a/crates/styx-parse/src/lexer.rs
+++ b/crates/styx-parse/src/lexer.rs
@@ -447,7 +447,8 @@ fn process_escapes(s: &str) -> Result<Cow<'_, str>, &'static str> {
                         }
                         let code =
                             u32::from_str_radix(&hex, 16).map_err(|_| "invalid unicode escape")?;
-                        let ch = char::from_u32(code).ok_or("invalid unicode code point")?;
+                        let ch =
+                            char::from_u32(code).ok_or("invalid code point in unicode escape")?;
                         result.push(ch);
                     }
                     Some(_) => {
@@ -461,7 +462,8 @@ fn process_escapes(s: &str) -> Result<Cow<'_, str>, &'static str> {
                         }
                         let code =
                             u32::from_str_radix(&hex, 16).map_err(|_| "invalid unicode escape")?;
-                        let ch = char::from_u32(code).ok_or("invalid unicode code point")?;
+                        let ch =
+                            char::from_u32(code).ok_or("invalid code point in unicode escape")?;
                         result.push(ch);
                     }
                     None => return Err("invalid unicode escape"),
diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 7fd353a..e820596 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1196,9 +1196,6 @@ impl<'src> Parser<'src> {
                     }
                     Some(inner) => match &inner.content {
                         AtomContent::Scalar { value, kind } => {
-                            if *kind == ScalarKind::Quoted {
-                                self.emit_escape_errors(value, inner.span);
-                            }
                             self.event_queue.push_back(Event {
                                 span: atom.span,
                                 kind: EventKind::Key {
@@ -1502,20 +1499,6 @@ impl<'src> Parser<'src> {
             }
         }
     }
-
-    /// Emit escape errors.
-    fn emit_escape_errors(&mut self, text: &str, span: Span) {
-        for (offset, seq) in validate_escapes(text) {
-            let error_start = span.start + offset as u32;
-            let error_span = Span::new(error_start, error_start + seq.len() as u32);
-            self.event_queue.push_back(Event {
-                span: error_span,
-                kind: EventKind::Error {
-                    kind: ParseErrorKind::InvalidEscape(seq),
-                },
-            });
-        }
-    }
 }
 
 // ============================================================================
@@ -1930,6 +1913,12 @@ fn unescape_quoted(text: &str) -> Cow<'_, str> {
     Cow::Owned(result)
 }
 
+/// Whether the digits of a `\u` escape denote a character.
+fn is_unicode_escape(hex: &str) -> bool {
+    hex.chars().all(|c| c.is_ascii_hexdigit())
+        && u32::from_str_radix(hex, 16).is_ok_and(|code| char::from_u32(code).is_some())
+}
+
 fn validate_escapes(text: &str) -> Vec<(usize, String)> {
     let mut errors = Vec::new();
     let mut chars = text.char_indices().peekable();
@@ -1942,35 +1931,34 @@ fn validate_escapes(text: &str) -> Vec<(usize, String)> {
                 Some((_, 'u')) => match chars.peek() {
                     Some((_, '{')) => {
                         chars.next();
-                        let mut valid = true;
+                        let mut hex = String::new();
                         let mut found_close = false;
                         for (_, c) in chars.by_ref() {
                             if c == '}' {
                                 found_close = true;
                                 break;
                             }
-                            if !c.is_ascii_hexdigit() {
-                                valid = false;
-                            }
+                            hex.push(c);
                         }
-                        if !found_close || !valid {
+                        if !found_close || !is_unicode_escape(&hex) {
                             let end = chars.peek().map(|(i, _)| *i).unwrap_or(text.len());
-                            let seq = &text[escape_start..end.min(escape_start + 12)];
-                            errors.push((escape_start, seq.to_string()));
+                            let seq = text[escape_start..end].chars().take(12).collect();
+                            errors.push((escape_start, seq));
                         }
                     }
                     Some((_, c)) if c.is_ascii_hexdigit() => {
-                        let mut count = 1;
-                        while count < 4 {
+                        let mut hex = String::from(*c);
+                        chars.next();
+                        while hex.len() < 4 {
                             match chars.peek() {
                                 Some((_, c)) if c.is_ascii_hexdigit() => {
+                                    hex.push(*c);
                                     chars.next();
-                                    count += 1;
                                 }
                                 _ => break,
                             }
                         }
-                        if count != 4 {
+                        if hex.len() != 4 || !is_unicode_escape(&hex) {
                             let end = chars.peek().map(|(i, _)| *i).unwrap_or(text.len());
                             let seq = &text[escape_start..end];
                             errors.push((escape_start, seq.to_string()));
-- 
2.43.0


From cbf24cf1e171a1e5ac7b17ec0246904ab9fdb1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:25 +0000
Subject: [PATCH 08/42] fix: do not open a second root object after implicit
 root content

---
 crates/styx-parse/src/parser/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index e820596..4ffe93d 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -280,7 +280,16 @@ impl<'src> Parser<'src> {
                     });
                     return self.event_queue.pop_front();
                 }
-                Lexeme::ObjectStart { span } => {
+                // A brace after other content is an (invalid) entry key, not the root object
+                Lexeme::ObjectStart { span }
+                    if !matches!(
+                        self.state,
+                        ParserState::DocumentRoot {
+                            emitted_object_start: true,
+                            ..
+                        }
+                    ) =>
+                {
                     // Explicit root object - after it closes, document is done
                     self.state = ParserState::InObject {
                         start_span: span,
-- 
2.43.0


From 2ecf74b8588a504cec12706d34f64b4d8d3c4b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:02 +0000
Subject: [PATCH 09/42] fix: report root keys that are repeated or reopened
 after another key

---
 crates/styx-parse/src/parser/mod.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 4ffe93d..dcad285 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1654,13 +1654,15 @@ struct PathSegment {
 ///
 /// Instead of tracking all paths ever seen (O(total paths)), we only track:
 /// - The current path as a stack of segments
-/// - At each segment, which sibling keys have been closed
+/// - At each segment, and at the root, which sibling keys have been closed
 ///
 /// This works because we can never go back to a previous sibling in the file order.
 #[derive(Default, Clone)]
 struct PathState {
     /// The current path, as a stack of segments. Length is O(max depth).
     segments: Vec<PathSegment>,
+    /// Root keys that have been closed by a different root key.
+    closed_roots: HashMap<String, Span>,
 }
 
 impl PathState {
@@ -1694,6 +1696,13 @@ impl PathState {
             });
         }
 
+        // The path names an enclosing key that already has nested entries
+        if common_len == path.len() && common_len < self.segments.len() {
+            return Err(PathError::Duplicate {
+                original: self.segments[common_len - 1].span,
+            });
+        }
+
         // Close segments beyond common prefix and check for reopening
         // We iterate from deepest to shallowest
         while self.segments.len() > common_len {
@@ -1704,6 +1713,9 @@ impl PathState {
                 parent
                     .closed_children
                     .insert(closed_segment.key, closed_segment.span);
+            } else {
+                self.closed_roots
+                    .insert(closed_segment.key, closed_segment.span);
             }
         }
 
@@ -1741,6 +1753,16 @@ impl PathState {
                     // Continue using existing segment
                     continue;
                 }
+                // Check if this key was already closed at the root
+                if let Some(&original) = self.closed_roots.get(key) {
+                    return Err(if is_last {
+                        PathError::Duplicate { original }
+                    } else {
+                        PathError::Reopened {
+                            closed_path: vec![key.clone()],
+                        }
+                    });
+                }
                 // New root segment
                 self.segments.push(PathSegment {
                     key: key.clone(),
-- 
2.43.0


From 0c6bc3997868bf59aa34cfed5642d7cf166506ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:49 +0000
Subject: [PATCH 10/42] fix: report duplicate keys in attribute objects

---
 crates/styx-parse/src/parser/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index dcad285..f0c167f 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1445,7 +1445,18 @@ impl<'src> Parser<'src> {
                     kind: EventKind::ObjectStart,
                 });
 
+                let mut seen_keys: HashMap<&str, Span> = HashMap::new();
                 for attr in attrs {
+                    if let Some(&original) = seen_keys.get(attr.key) {
+                        self.event_queue.push_back(Event {
+                            span: attr.key_span,
+                            kind: EventKind::Error {
+                                kind: ParseErrorKind::DuplicateKey { original },
+                            },
+                        });
+                    } else {
+                        seen_keys.insert(attr.key, attr.key_span);
+                    }
                     self.event_queue.push_back(Event {
                         span: attr.key_span,
                         kind: EventKind::EntryStart,
-- 
2.43.0


From 1177d77967cce42dfec5a8c922c9c9a2fe796670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:23 +0000
Subject: [PATCH 11/42] fix: report content after an expression

---
 crates/styx-parse/src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index f0c167f..935fbd9 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -150,7 +150,7 @@ impl<'src> Parser<'src> {
                 })
             }
             ParserState::BeforeExpression => self.advance_expression(),
-            ParserState::AfterExpression => None,
+            ParserState::AfterExpression => self.check_trailing_content(),
             ParserState::AfterDocument => self.check_trailing_content(),
             ParserState::DocumentRoot { .. } => self.advance_document_root(),
             ParserState::InObject { .. } => self.advance_in_object(),
-- 
2.43.0


From b8bb5748dd0d19a8d22884f5553e920772ea23c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:45 +0000
Subject: [PATCH 12/42] fix: report heredocs used as keys in nested objects

---
 crates/styx-parse/src/parser/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 935fbd9..c9df05a 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1374,6 +1374,18 @@ impl<'src> Parser<'src> {
                             },
                         });
                     }
+                    if let AtomContent::Scalar {
+                        kind: ScalarKind::Heredoc,
+                        ..
+                    } = &entry.key.content
+                    {
+                        self.event_queue.push_back(Event {
+                            span: self.heredoc_start_span(entry.key.span),
+                            kind: EventKind::Error {
+                                kind: ParseErrorKind::InvalidKey,
+                            },
+                        });
+                    }
                     self.event_queue.push_back(Event {
                         span: entry.key.span,
                         kind: EventKind::EntryStart,
-- 
2.43.0


From 84866f2face0203367006343abfceec6710fd45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:45 +0000
Subject: [PATCH 13/42] fix: keep different tagged, unit and quoted root keys
 apart

---
 crates/styx-parse/src/parser/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index c9df05a..7b6adc1 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1630,11 +1630,17 @@ impl KeyValue {
         }
     }
 
+    /// Text of the key; different keys have different texts.
     fn to_key_string(&self) -> String {
         match self {
+            KeyValue::Scalar(s) if s.starts_with(['@', '"']) => format!("{s:?}"),
             KeyValue::Scalar(s) => s.clone(),
             KeyValue::Unit => "@".to_string(),
-            KeyValue::Tagged { name, .. } => format!("@{}", name),
+            KeyValue::Tagged { name, payload } => match payload.as_deref() {
+                None => format!("@{name}"),
+                Some(KeyValue::Scalar(s)) => format!("@{name}{s:?}"),
+                Some(inner) => format!("@{name}{}", inner.to_key_string()),
+            },
         }
     }
 }
-- 
2.43.0


From d782ede752a72e749fad113ee5045f2aac2808ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:45 +0000
Subject: [PATCH 14/42] fix: track dotted paths in an explicit root object as
 at the implicit root

---
 crates/styx-parse/src/parser/mod.rs | 82 ++++-------------------------
 1 file changed, 10 insertions(+), 72 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 7b6adc1..14afb77 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -60,7 +60,6 @@ enum ParserState {
 
     /// At implicit document root.
     DocumentRoot {
-        seen_keys: HashMap<KeyValue, Span>,
         pending_doc_comment: Option<Span>,
         path_state: PathState,
         /// Whether we've emitted ObjectStart for the implicit root object.
@@ -70,7 +69,7 @@ enum ParserState {
     /// Inside explicit object { ... }.
     InObject {
         start_span: Span,
-        seen_keys: HashMap<KeyValue, Span>,
+        path_state: PathState,
         pending_doc_comment: Option<Span>,
         /// Parent state to restore when we pop.
         parent: Box<ParserState>,
@@ -139,7 +138,6 @@ impl<'src> Parser<'src> {
         match &self.state {
             ParserState::BeforeDocument => {
                 self.state = ParserState::DocumentRoot {
-                    seen_keys: HashMap::new(),
                     pending_doc_comment: None,
                     path_state: PathState::default(),
                     emitted_object_start: false,
@@ -293,7 +291,7 @@ impl<'src> Parser<'src> {
                     // Explicit root object - after it closes, document is done
                     self.state = ParserState::InObject {
                         start_span: span,
-                        seen_keys: HashMap::new(),
+                        path_state: PathState::default(),
                         pending_doc_comment: None,
                         parent: Box::new(ParserState::AfterDocument),
                     };
@@ -442,7 +440,7 @@ impl<'src> Parser<'src> {
                     }
                     let atoms = self.collect_entry_atoms(lexeme);
                     if !atoms.is_empty() {
-                        self.emit_entry_in_object(&atoms);
+                        self.emit_entry_at_root(&atoms);
                     }
                     return self.event_queue.pop_front();
                 }
@@ -492,7 +490,7 @@ impl<'src> Parser<'src> {
         } = &key_atom.content
             && value.contains('.')
         {
-            self.emit_dotted_path_entry(value.clone(), key_atom.span, atoms, true);
+            self.emit_dotted_path_entry(value.clone(), key_atom.span, atoms);
             return;
         }
 
@@ -500,7 +498,9 @@ impl<'src> Parser<'src> {
         // (path_state handles both simple and dotted paths uniformly)
         let key_value = KeyValue::from_atom(key_atom);
 
-        if let ParserState::DocumentRoot { path_state, .. } = &mut self.state {
+        if let ParserState::DocumentRoot { path_state, .. }
+        | ParserState::InObject { path_state, .. } = &mut self.state
+        {
             // Check path state - this handles duplicates for us
             let key_text = key_value.to_key_string();
             let path = vec![key_text];
@@ -523,60 +523,6 @@ impl<'src> Parser<'src> {
         self.emit_simple_entry(atoms);
     }
 
-    /// Emit entry inside an object (no path state).
-    fn emit_entry_in_object(&mut self, atoms: &[Atom<'src>]) {
-        if atoms.is_empty() {
-            return;
-        }
-
-        let key_atom = &atoms[0];
-
-        // Check for invalid key types
-        if let AtomContent::Scalar {
-            kind: ScalarKind::Heredoc,
-            ..
-        } = &key_atom.content
-        {
-            self.event_queue.push_back(Event {
-                span: key_atom.span,
-                kind: EventKind::Error {
-                    kind: ParseErrorKind::InvalidKey,
-                },
-            });
-        }
-
-        // Check for dotted path (still allowed in nested objects)
-        if let AtomContent::Scalar {
-            value,
-            kind: ScalarKind::Bare,
-        } = &key_atom.content
-            && value.contains('.')
-        {
-            self.emit_dotted_path_entry(value.clone(), key_atom.span, atoms, false);
-            return;
-        }
-
-        // Simple key - check for duplicates
-        let key_value = KeyValue::from_atom(key_atom);
-
-        if let ParserState::InObject { seen_keys, .. } = &mut self.state {
-            if let Some(&original_span) = seen_keys.get(&key_value) {
-                self.event_queue.push_back(Event {
-                    span: key_atom.span,
-                    kind: EventKind::Error {
-                        kind: ParseErrorKind::DuplicateKey {
-                            original: original_span,
-                        },
-                    },
-                });
-            } else {
-                seen_keys.insert(key_value, key_atom.span);
-            }
-        }
-
-        self.emit_simple_entry(atoms);
-    }
-
     /// Emit a simple (non-dotted) entry.
     fn emit_simple_entry(&mut self, atoms: &[Atom<'src>]) {
         let key_atom = &atoms[0];
@@ -1016,7 +962,6 @@ impl<'src> Parser<'src> {
         path_text: Cow<'src, str>,
         path_span: Span,
         atoms: &[Atom<'src>],
-        check_path_state: bool,
     ) {
         let segments: Vec<&str> = path_text.split('.').collect();
 
@@ -1038,17 +983,10 @@ impl<'src> Parser<'src> {
             return;
         }
 
-        // Check path state at root
-        if check_path_state
-            && let ParserState::DocumentRoot {
-                seen_keys,
-                path_state,
-                ..
-            } = &mut self.state
+        // Check path state
+        if let ParserState::DocumentRoot { path_state, .. }
+        | ParserState::InObject { path_state, .. } = &mut self.state
         {
-            let first_key_value = KeyValue::Scalar(segments[0].to_string());
-            seen_keys.entry(first_key_value).or_insert(path_span);
-
             let path: Vec<String> = segments.iter().map(|s| s.to_string()).collect();
             let value_kind = if atoms.len() >= 2 {
                 match &atoms[1].content {
-- 
2.43.0


From dfae3bbf1f5299c3bc1614abd46258f737d095bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:59 +0000
Subject: [PATCH 15/42] fix: allow an LSP extension only if its command equals
 an allow-list entry

---
 crates/styx-lsp/src/extensions.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/styx-lsp/src/extensions.rs b/crates/styx-lsp/src/extensions.rs
index 6d46ff3..8e92906 100644
--- a/crates/styx-lsp/src/extensions.rs
+++ b/crates/styx-lsp/src/extensions.rs
@@ -128,8 +128,9 @@ impl ExtensionManager {
     /// Check if an extension is allowed.
     pub async fn is_allowed(&self, command: &str) -> bool {
         let allowlist = self.allowlist.read().await;
-        // For now, allow if the first component of the command is in the allowlist
-        allowlist.iter().any(|allowed| command.starts_with(allowed))
+        // The program itself must be listed: a prefix match would let `dibs-evil` run
+        // because the user allowed `dibs`.
+        allowlist.iter().any(|allowed| allowed == command)
     }
 
     /// Add a command to the allowlist and persist to user config.
-- 
2.43.0


From 8fdf998370c0c7b012738866b71c3f06f4413381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:13 +0000
Subject: [PATCH 16/42] fix: do not hold the document lock while waiting for an
 LSP extension or the editor

---
 crates/styx-lsp/src/server.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index dee83b1..6451704 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -21,6 +21,7 @@ use crate::semantic_tokens::{compute_semantic_tokens, semantic_token_legend};
 use styx_lsp_ext as ext;
 
 /// Document state tracked by the server
+#[derive(Clone)]
 pub struct DocumentState {
     /// Document content
     pub content: String,
@@ -64,6 +65,14 @@ impl StyxLanguageServer {
         }
     }
 
+    /// A copy of an open document's state.
+    ///
+    /// Handlers that talk to extensions or to the editor work on a copy, so that the document
+    /// lock is not held while they wait.
+    async fn document_snapshot(&self, uri: &Url) -> Option<DocumentState> {
+        self.documents.read().await.get(uri).cloned()
+    }
+
     /// Check if the document's schema has an LSP extension and spawn it if allowed.
     ///
     /// Returns information about blocked extensions if not allowed.
@@ -660,8 +669,7 @@ impl LanguageServer for StyxLanguageServer {
         let uri = params.text_document_position_params.text_document.uri;
         let position = params.text_document_position_params.position;
 
-        let docs = self.documents.read().await;
-        let Some(doc) = docs.get(&uri) else {
+        let Some(doc) = self.document_snapshot(&uri).await else {
             return Ok(None);
         };
 
@@ -703,6 +711,7 @@ impl LanguageServer for StyxLanguageServer {
             && let Some(field_name) = find_field_key_at_offset(tree, offset)
         {
             // Search open documents for one that uses this schema
+            let docs = self.documents.read().await;
             for (doc_uri, doc_state) in docs.iter() {
                 if doc_uri == &uri {
                     continue; // Skip the schema file itself
@@ -755,6 +764,7 @@ impl LanguageServer for StyxLanguageServer {
                 match client.definition(ext_params).await {
                     Ok(locations) if !locations.is_empty() => {
                         tracing::debug!(count = locations.len(), "Extension returned definitions");
+                        let docs = self.documents.read().await;
                         let lsp_locations: Vec<Location> = locations
                             .into_iter()
                             .filter_map(|loc| {
@@ -809,8 +819,7 @@ impl LanguageServer for StyxLanguageServer {
         let uri = params.text_document_position_params.text_document.uri;
         let position = params.text_document_position_params.position;
 
-        let docs = self.documents.read().await;
-        let Some(doc) = docs.get(&uri) else {
+        let Some(doc) = self.document_snapshot(&uri).await else {
             return Ok(None);
         };
 
@@ -943,8 +952,7 @@ impl LanguageServer for StyxLanguageServer {
         let uri = params.text_document_position.text_document.uri;
         let position = params.text_document_position.position;
 
-        let docs = self.documents.read().await;
-        let Some(doc) = docs.get(&uri) else {
+        let Some(doc) = self.document_snapshot(&uri).await else {
             return Ok(None);
         };
 
@@ -1292,8 +1300,7 @@ impl LanguageServer for StyxLanguageServer {
         }
 
         // Try to get code actions from extension
-        let docs = self.documents.read().await;
-        if let Some(doc) = docs.get(&uri)
+        if let Some(doc) = self.document_snapshot(&uri).await
             && let Some(ref tree) = doc.tree
             && let Ok(schema_file) = load_document_schema(tree, &uri)
         {
@@ -1344,6 +1351,7 @@ impl LanguageServer for StyxLanguageServer {
                             count = ext_actions.len(),
                             "Got code actions from extension"
                         );
+                        let docs = self.documents.read().await;
                         for action in ext_actions {
                             let kind = action.kind.map(|k| match k {
                                 ext::CodeActionKind::QuickFix => CodeActionKind::QUICKFIX,
@@ -1411,7 +1419,6 @@ impl LanguageServer for StyxLanguageServer {
                 }
             }
         }
-        drop(docs);
 
         // Add schema-based refactoring actions
         let docs = self.documents.read().await;
@@ -1605,8 +1612,14 @@ impl LanguageServer for StyxLanguageServer {
 
                     // Re-publish diagnostics for all open documents to clear the warning
                     // and trigger extension spawning
-                    let docs = self.documents.read().await;
-                    for (uri, doc) in docs.iter() {
+                    let docs: Vec<(Url, DocumentState)> = self
+                        .documents
+                        .read()
+                        .await
+                        .iter()
+                        .map(|(uri, doc)| (uri.clone(), doc.clone()))
+                        .collect();
+                    for (uri, doc) in &docs {
                         let blocked_extension = if let Some(ref tree) = doc.tree {
                             self.check_for_extension(tree, uri).await
                         } else {
-- 
2.43.0


From 4bfd41e0147b46d5b39d9056972d3b59efa31bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:16 +0000
Subject: [PATCH 17/42] fix: convert editor positions in UTF-16 code units in
 the language server

---
 crates/styx-lsp/src/server.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 6451704..329bca5 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -1904,20 +1904,13 @@ impl LanguageServer for StyxLanguageServer {
         }
 
         // Replace the entire document
-        let lines: Vec<&str> = doc.content.lines().collect();
-        let last_line = lines.len().saturating_sub(1);
-        let last_char = lines.last().map(|l| l.len()).unwrap_or(0);
-
         Ok(Some(vec![TextEdit {
             range: Range {
                 start: Position {
                     line: 0,
                     character: 0,
                 },
-                end: Position {
-                    line: last_line as u32,
-                    character: last_char as u32,
-                },
+                end: offset_to_position(&doc.content, doc.content.len()),
             },
             new_text: formatted,
         }]))
@@ -2159,7 +2152,9 @@ fn find_schema_declaration_range(tree: &Value, content: &str) -> Option<Range> {
 }
 
 /// Convert byte offset to LSP Position
-fn offset_to_position(content: &str, offset: usize) -> Position {
+///
+/// Columns count UTF-16 code units, the protocol's default position encoding.
+pub(crate) fn offset_to_position(content: &str, offset: usize) -> Position {
     let mut line = 0u32;
     let mut col = 0u32;
 
@@ -2171,7 +2166,7 @@ fn offset_to_position(content: &str, offset: usize) -> Position {
             line += 1;
             col = 0;
         } else {
-            col += 1;
+            col += ch.len_utf16() as u32;
         }
     }
 
@@ -2179,12 +2174,12 @@ fn offset_to_position(content: &str, offset: usize) -> Position {
 }
 
 /// Convert LSP Position to byte offset
-fn position_to_offset(content: &str, position: Position) -> usize {
+pub(crate) fn position_to_offset(content: &str, position: Position) -> usize {
     let mut current_line = 0u32;
     let mut current_col = 0u32;
 
     for (i, ch) in content.char_indices() {
-        if current_line == position.line && current_col == position.character {
+        if current_line == position.line && current_col >= position.character {
             return i;
         }
         if ch == '\n' {
@@ -2195,7 +2190,7 @@ fn position_to_offset(content: &str, position: Position) -> usize {
             current_line += 1;
             current_col = 0;
         } else {
-            current_col += 1;
+            current_col += ch.len_utf16() as u32;
         }
     }
 
@@ -3252,7 +3247,7 @@ fn find_field_insert_position(content: &str) -> InsertPosition {
             return InsertPosition {
                 position: Position {
                     line: i as u32,
-                    character: line.len() as u32,
+                    character: line.encode_utf16().count() as u32,
                 },
                 indent,
             };
@@ -3263,7 +3258,7 @@ fn find_field_insert_position(content: &str) -> InsertPosition {
     InsertPosition {
         position: Position {
             line: lines.len().saturating_sub(1) as u32,
-            character: lines.last().map(|l| l.len()).unwrap_or(0) as u32,
+            character: lines.last().map(|l| l.encode_utf16().count()).unwrap_or(0) as u32,
         },
         indent: String::new(),
     }
-- 
2.43.0


From a30aa37702a4456fae5da3162d71dde736b03001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:16 +0000
Subject: [PATCH 18/42] fix: convert extension host positions in UTF-16 code
 units

---
 crates/styx-lsp/src/extensions.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/crates/styx-lsp/src/extensions.rs b/crates/styx-lsp/src/extensions.rs
index 8e92906..1d322ea 100644
--- a/crates/styx-lsp/src/extensions.rs
+++ b/crates/styx-lsp/src/extensions.rs
@@ -381,16 +381,15 @@ impl StyxLspHost for StyxLspHostImpl {
         let doc = docs.get(&uri)?;
 
         let offset = params.offset as usize;
-        if offset > doc.content.len() {
+        if !doc.content.is_char_boundary(offset) {
             return None;
         }
 
-        let content = &doc.content[..offset];
-        let line = content.chars().filter(|&c| c == '\n').count() as u32;
-        let last_newline = content.rfind('\n').map(|i| i + 1).unwrap_or(0);
-        let character = (offset - last_newline) as u32;
-
-        Some(styx_lsp_ext::Position { line, character })
+        let position = crate::server::offset_to_position(&doc.content, offset);
+        Some(styx_lsp_ext::Position {
+            line: position.line,
+            character: position.character,
+        })
     }
 
     async fn position_to_offset(&self, params: PositionToOffsetParams) -> Option<u32> {
@@ -403,13 +402,12 @@ impl StyxLspHost for StyxLspHostImpl {
 
         for ch in doc.content.chars() {
             if current_line == params.position.line {
-                for (char_offset, c) in doc.content[offset..].chars().enumerate() {
-                    if char_offset == params.position.character as usize {
-                        return Some(offset as u32);
-                    }
-                    if c == '\n' {
+                let mut column = 0;
+                for c in doc.content[offset..].chars() {
+                    if column >= params.position.character as usize || c == '\n' {
                         break;
                     }
+                    column += c.len_utf16();
                     offset += c.len_utf8();
                 }
                 return Some(offset as u32);
-- 
2.43.0


From 38a17a8784854497de68b3316fb6f7aa7f175965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:17 +0000
Subject: [PATCH 19/42] fix: find the word before a multi-byte space without
 panicking

---
 crates/styx-lsp/src/server.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 329bca5..db7cd3e 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -2999,8 +2999,9 @@ fn get_word_range_at_position(content: &str, position: Position) -> Option<(Stri
     // Find the start of the current word by scanning backwards
     let before = &content[..offset];
     let word_start = before
-        .rfind(|c: char| c.is_whitespace() || c == '{' || c == '}')
-        .map(|i| i + 1)
+        .char_indices()
+        .rfind(|(_, c)| c.is_whitespace() || *c == '{' || *c == '}')
+        .map(|(i, c)| i + c.len_utf8())
         .unwrap_or(0);
 
     let word = &before[word_start..];
-- 
2.43.0


From eb14cf41d4215db68b02db11937994a377a360da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:17 +0000
Subject: [PATCH 20/42] fix: report semantic token columns and lengths in
 UTF-16 code units

---
 crates/styx-lsp/src/semantic_tokens.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/styx-lsp/src/semantic_tokens.rs b/crates/styx-lsp/src/semantic_tokens.rs
index c062977..fd4c3c5 100644
--- a/crates/styx-lsp/src/semantic_tokens.rs
+++ b/crates/styx-lsp/src/semantic_tokens.rs
@@ -574,7 +574,7 @@ fn add_token_from_syntax(
     let start: usize = token.text_range().start().into();
     let end: usize = token.text_range().end().into();
     let (line, start_char) = offset_to_line_col(content, start);
-    let length = (end - start) as u32;
+    let length = content[start..end].encode_utf16().count() as u32;
 
     tokens.push(RawToken {
         line,
@@ -585,7 +585,7 @@ fn add_token_from_syntax(
     });
 }
 
-/// Convert byte offset to (line, column)
+/// Convert byte offset to (line, column), columns in UTF-16 code units
 fn offset_to_line_col(content: &str, offset: usize) -> (u32, u32) {
     let mut line = 0u32;
     let mut col = 0u32;
@@ -598,7 +598,7 @@ fn offset_to_line_col(content: &str, offset: usize) -> (u32, u32) {
             line += 1;
             col = 0;
         } else {
-            col += 1;
+            col += ch.len_utf16() as u32;
         }
     }
 
-- 
2.43.0


From bdca1d7c0dd50d8cb8c9b194851d662e16c009f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:17 +0000
Subject: [PATCH 21/42] fix: keep cached schema files inside the cache
 directory

---
 crates/styx-lsp/src/cache.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/styx-lsp/src/cache.rs b/crates/styx-lsp/src/cache.rs
index a4c9d7c..93622a0 100644
--- a/crates/styx-lsp/src/cache.rs
+++ b/crates/styx-lsp/src/cache.rs
@@ -18,16 +18,27 @@ pub fn cache_dir() -> Option<PathBuf> {
 
 /// Get the cache path for an embedded schema.
 ///
-/// Returns `embedded/<cli-name>/<content-hash>.styx`
+/// Returns `embedded/<cli-name>/<content-hash>.styx`. The CLI name comes from the
+/// document, so it is reduced to a single plain path component.
 pub fn embedded_cache_path(cli_name: &str, content: &str) -> Option<PathBuf> {
     let hash = content_hash(content);
     cache_dir().map(|d| {
         d.join("embedded")
-            .join(cli_name)
+            .join(sanitize_component(cli_name))
             .join(format!("{}.styx", hash))
     })
 }
 
+/// Replace everything that could have a meaning in a path (separators, dots, drive letters).
+fn sanitize_component(name: &str) -> String {
+    name.chars()
+        .map(|c| match c {
+            'a'..='z' | 'A'..='Z' | '0'..='9' | '-' | '_' => c,
+            _ => '_',
+        })
+        .collect()
+}
+
 /// Compute a content hash for cache invalidation.
 ///
 /// Returns first 16 hex chars of SHA-256.
-- 
2.43.0


From c3895964425d775aa72a606845a8b2a2c480f3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:11 +0000
Subject: [PATCH 22/42] fix: serde_styx::from_str rejects documents with syntax
 errors

The token-driven deserializer did not notice errors in values it skipped,
in the rest of the document, or invalid escapes.
---
 crates/serde_styx/src/de.rs  | 28 +++++++++++++++++++++++++++-
 crates/serde_styx/src/lib.rs |  1 +
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index 8527351..a5fa84f 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -1,10 +1,36 @@
 //! Serde deserializer for Styx.
 
 use serde::de::{self, Visitor};
-use styx_parse::{ScalarKind, Span, Token, TokenKind, Tokenizer};
+use styx_parse::{EventKind, Parser, ScalarKind, Span, Token, TokenKind, Tokenizer};
 
 use crate::error::{Error, Result};
 
+/// Fail on the first syntax error in `source`.
+///
+/// The deserializer reads tokens as the target type asks for them and would not
+/// notice errors in parts it skips.
+pub(crate) fn check_syntax(source: &str) -> Result<()> {
+    let mut tokens = Tokenizer::new(source);
+    let first = loop {
+        match tokens.next_token().kind {
+            TokenKind::Whitespace | TokenKind::LineComment | TokenKind::Newline => {}
+            kind => break kind,
+        }
+    };
+    // A lone sequence is a value, not a document.
+    let mut parser = if first == TokenKind::LParen {
+        Parser::new_expr(source)
+    } else {
+        Parser::new(source)
+    };
+    while let Some(event) = parser.next_event() {
+        if let EventKind::Error { kind } = event.kind {
+            return Err(Error::new(format!("{kind} at offset {}", event.span.start)));
+        }
+    }
+    Ok(())
+}
+
 /// Styx deserializer implementing serde::Deserializer.
 pub struct Deserializer<'de> {
     lexer: Tokenizer<'de>,
diff --git a/crates/serde_styx/src/lib.rs b/crates/serde_styx/src/lib.rs
index a73e871..9f2aa81 100644
--- a/crates/serde_styx/src/lib.rs
+++ b/crates/serde_styx/src/lib.rs
@@ -71,6 +71,7 @@ pub fn from_str<'de, T>(s: &'de str) -> Result<T>
 where
     T: serde::de::Deserialize<'de>,
 {
+    de::check_syntax(s)?;
     let mut deserializer = Deserializer::new(s);
     T::deserialize(&mut deserializer)
 }
-- 
2.43.0


From d4b05895831e7d1dbebb54ff4164a2beab66698e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:11 +0000
Subject: [PATCH 23/42] fix: keep the parse error when diagnostics are
 published again

Allowing an extension published the diagnostics of all documents without
the tree error, which removed it from the editor.
---
 crates/styx-lsp/src/server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index db7cd3e..f44cc20 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -1625,12 +1625,14 @@ impl LanguageServer for StyxLanguageServer {
                         } else {
                             None
                         };
+                        // Publishing replaces what was reported on load, parse error included
+                        let tree_error = styx_tree::parse(&doc.content).err();
                         self.publish_diagnostics(
                             uri.clone(),
                             &doc.content,
                             &doc.parse,
                             doc.tree.as_ref(),
-                            None, // tree_error already reported on initial load
+                            tree_error.as_ref(),
                             doc.version,
                             blocked_extension,
                         )
-- 
2.43.0


From 9659950e2d54e1f540a77b736fe3a20be47a38c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:11 +0000
Subject: [PATCH 24/42] fix: download published schemas without a shell

The crate name can come from a schema file and was pasted into a shell command.
---
 crates/styx-cli/src/main.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index bb47ebf..98e20af 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -1770,15 +1770,24 @@ fn fetch_crate_schema(crate_name: &str, version: &str) -> Result<String, CliErro
         std::env::temp_dir().join(format!("styx-diff-{}-{}", crate_name, std::process::id()));
     std::fs::create_dir_all(&temp_dir)?;
 
-    let status = std::process::Command::new("sh")
-        .arg("-c")
-        .arg(format!(
-            "curl -sfL '{}' | tar xzf - -C '{}'",
-            url,
-            temp_dir.display()
-        ))
-        .status()
-        .map_err(|e| CliError::Io(io::Error::new(e.kind(), format!("download failed: {e}"))))?;
+    // No shell: the crate name can come from a schema file
+    let archive = temp_dir.join("crate.tar.gz");
+    let download = std::process::Command::new("curl")
+        .arg("-sfL")
+        .arg("-o")
+        .arg(&archive)
+        .arg(&url)
+        .status();
+    let status = match download {
+        Ok(status) if status.success() => std::process::Command::new("tar")
+            .arg("xzf")
+            .arg(&archive)
+            .arg("-C")
+            .arg(&temp_dir)
+            .status(),
+        other => other,
+    }
+    .map_err(|e| CliError::Io(io::Error::new(e.kind(), format!("download failed: {e}"))))?;
 
     if !status.success() {
         let _ = std::fs::remove_dir_all(&temp_dir);
-- 
2.43.0


From 9a179c176efbca38101e802e3de9013f6b4775d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:11 +0000
Subject: [PATCH 25/42] fix: publish stops when the latest version cannot be
 determined

Any failure, such as curl missing or an unreadable answer, was taken to mean
that the crate has never been published.
---
 crates/styx-cli/src/main.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index 98e20af..d5e3512 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -1510,8 +1510,8 @@ fn run_publish(schema_file: &str, yes: bool) -> Result<(), CliError> {
         CliError::Usage("schema must have meta.crate field for publishing".into())
     })?;
 
-    let (version, _changes) = match fetch_latest_version(&name) {
-        Ok(latest_version) => {
+    let (version, _changes) = match fetch_latest_version(&name)? {
+        Some(latest_version) => {
             eprintln!("Found {name}@{latest_version} on staging.crates.io");
             eprintln!();
 
@@ -1556,7 +1556,7 @@ fn run_publish(schema_file: &str, yes: bool) -> Result<(), CliError> {
 
             (next_version, Some(changes))
         }
-        Err(_) => {
+        None => {
             eprintln!("No existing version found - this will be the first publish.");
             ("0.1.0".to_string(), None)
         }
@@ -1691,7 +1691,9 @@ fn run_diff(schema_file: &str, crate_name: &str, baseline: Option<&str>) -> Resu
 
     let version = match baseline {
         Some(v) => v.to_string(),
-        None => fetch_latest_version(crate_name)?,
+        None => fetch_latest_version(crate_name)?.ok_or_else(|| {
+            CliError::Usage(format!("crate {crate_name} not found on staging.crates.io"))
+        })?,
     };
 
     eprintln!("Comparing against {crate_name}@{version}...");
@@ -1741,7 +1743,8 @@ fn run_diff(schema_file: &str, crate_name: &str, baseline: Option<&str>) -> Resu
     Ok(())
 }
 
-fn fetch_latest_version(crate_name: &str) -> Result<String, CliError> {
+/// The latest published version, or None if the crate has never been published.
+fn fetch_latest_version(crate_name: &str) -> Result<Option<String>, CliError> {
     let url = format!("{STAGING_API}/{crate_name}");
 
     let output = std::process::Command::new("curl")
@@ -1749,10 +1752,15 @@ fn fetch_latest_version(crate_name: &str) -> Result<String, CliError> {
         .output()
         .map_err(|e| CliError::Io(io::Error::new(e.kind(), format!("curl failed: {e}"))))?;
 
+    // `curl -f` exits with 22 when the server answers with an error status
+    if output.status.code() == Some(22) {
+        return Ok(None);
+    }
     if !output.status.success() {
-        return Err(CliError::Usage(format!(
-            "crate {crate_name} not found on staging.crates.io"
-        )));
+        return Err(CliError::Io(io::Error::other(format!(
+            "could not query staging.crates.io for {crate_name}: curl {}",
+            output.status
+        ))));
     }
 
     let json: serde_json::Value = serde_json::from_slice(&output.stdout)
@@ -1760,7 +1768,7 @@ fn fetch_latest_version(crate_name: &str) -> Result<String, CliError> {
 
     json["crate"]["max_version"]
         .as_str()
-        .map(String::from)
+        .map(|version| Some(version.to_string()))
         .ok_or_else(|| CliError::Parse("could not find max_version in response".into()))
 }
 
-- 
2.43.0


From 4f532ff16dd9b23a850213285d84fdcf11b30855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:33 +0000
Subject: [PATCH 26/42] fix: keep recorded writer positions in step when commas
 become newlines

---
 crates/styx-format/src/writer.rs | 53 +++++++++++++++-----------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index 88f908a..607a262 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -716,11 +716,7 @@ impl StyxWriter {
                     // Calculate indent for this position
                     let indent = self.options.indent.repeat(self.indent_depth());
                     let newline_indent = format!("\n{}", indent);
-                    self.out.drain(comma_pos..comma_pos + 2);
-                    let bytes = newline_indent.as_bytes();
-                    for (i, &b) in bytes.iter().enumerate() {
-                        self.out.insert(comma_pos + i, b);
-                    }
+                    self.replace_written(comma_pos, 2, &newline_indent);
                 }
             }
         }
@@ -767,25 +763,30 @@ impl StyxWriter {
             // Insert newline + indent after the opening brace
             let indent = self.options.indent.repeat(indent_depth);
             let insert = format!("\n{}", indent);
-            for (i, b) in insert.bytes().enumerate() {
-                self.out.insert(pos + i, b);
-            }
+            self.replace_written(pos, 0, &insert);
+        }
+    }
 
-            // Update all positions in the stack that come after this insertion
-            for ctx in self.stack.iter_mut() {
-                if let Context::Struct {
-                    open_brace_pos: Some(p),
-                    comma_positions,
-                    ..
-                } = ctx
+    /// Replace `len` bytes of the output at `start` with `text`, keeping the positions
+    /// recorded in the stack in step with the output.
+    fn replace_written(&mut self, start: usize, len: usize, text: &str) {
+        self.out.splice(start..start + len, text.bytes());
+
+        for ctx in self.stack.iter_mut() {
+            if let Context::Struct {
+                open_brace_pos,
+                comma_positions,
+                ..
+            } = ctx
+            {
+                if let Some(p) = open_brace_pos
+                    && *p > start
                 {
-                    if *p > pos {
-                        *p += insert.len();
-                    }
-                    for cp in comma_positions.iter_mut() {
-                        if *cp >= pos {
-                            *cp += insert.len();
-                        }
+                    *p = *p - len + text.len();
+                }
+                for cp in comma_positions.iter_mut() {
+                    if *cp >= start + len {
+                        *cp = *cp - len + text.len();
                     }
                 }
             }
@@ -819,12 +820,8 @@ impl StyxWriter {
                 && self.out[comma_pos] == b','
                 && self.out[comma_pos + 1] == b' '
             {
-                // Remove ", " and insert newline+indent
-                self.out.drain(comma_pos..comma_pos + 2);
-                let bytes = newline_indent.as_bytes();
-                for (i, &b) in bytes.iter().enumerate() {
-                    self.out.insert(comma_pos + i, b);
-                }
+                // Replace ", " with newline+indent
+                self.replace_written(comma_pos, 2, &newline_indent);
             }
         }
     }
-- 
2.43.0


From 2f91c953001b5934ffc51f8841b8d9048b809504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:55 +0000
Subject: [PATCH 27/42] fix: integer bounds outside int64 are clamped, not
 truncated, in generated Go

---
 crates/styx-gen-go/src/types.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/styx-gen-go/src/types.rs b/crates/styx-gen-go/src/types.rs
index 8466740..80309d2 100644
--- a/crates/styx-gen-go/src/types.rs
+++ b/crates/styx-gen-go/src/types.rs
@@ -278,8 +278,8 @@ impl TypeMapper {
                 ..Default::default()
             }),
             Schema::Int(constraints_opt) => constraints_opt.as_ref().map(|c| FieldConstraints {
-                min_int: c.min.map(|v| v as i64),
-                max_int: c.max.map(|v| v as i64),
+                min_int: c.min.map(clamp_to_i64),
+                max_int: c.max.map(clamp_to_i64),
                 ..Default::default()
             }),
             Schema::Float(constraints_opt) => constraints_opt.as_ref().map(|c| FieldConstraints {
@@ -361,6 +361,11 @@ impl TypeMapper {
     }
 }
 
+/// Go integer fields are int64, so a bound outside that range becomes the nearest int64.
+fn clamp_to_i64(bound: i128) -> i64 {
+    bound.clamp(i64::MIN as i128, i64::MAX as i128) as i64
+}
+
 fn to_pascal_case(s: &str) -> String {
     s.split(['_', '-'])
         .filter(|s| !s.is_empty())
-- 
2.43.0


From 825f26eb5b89748d93ad5ba3a8a3d221053d09ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:55 +0000
Subject: [PATCH 28/42] fix: JSON conversion keeps u64 integers exact and
 non-finite words as text

---
 crates/styx-wasm/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/styx-wasm/src/lib.rs b/crates/styx-wasm/src/lib.rs
index 694135d..bf6197c 100644
--- a/crates/styx-wasm/src/lib.rs
+++ b/crates/styx-wasm/src/lib.rs
@@ -121,7 +121,11 @@ fn payload_to_json(payload: &Payload) -> serde_json::Value {
             // Try to parse as number or boolean
             if let Ok(n) = s.text.parse::<i64>() {
                 json!(n)
-            } else if let Ok(n) = s.text.parse::<f64>() {
+            } else if let Ok(n) = s.text.parse::<u64>() {
+                json!(n)
+            } else if let Ok(n) = s.text.parse::<f64>()
+                && n.is_finite()
+            {
                 json!(n)
             } else if s.text == "true" {
                 json!(true)
-- 
2.43.0


From 564746ae5e14d13c34f3ac51424c775c170c6af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:55 +0000
Subject: [PATCH 29/42] fix: an odd number of hex digits is an error when
 reading bytes

---
 crates/serde_styx/src/de.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index a5fa84f..1f7d54b 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -355,7 +355,10 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
 
         let mut bytes = Vec::with_capacity(text.len() / 2);
         let mut chars = text.chars();
-        while let (Some(a), Some(b)) = (chars.next(), chars.next()) {
+        while let Some(a) = chars.next() {
+            let b = chars
+                .next()
+                .ok_or_else(|| self.error("odd number of hex digits in bytes"))?;
             let byte = u8::from_str_radix(&format!("{}{}", a, b), 16)
                 .map_err(|_| self.error("invalid hex in bytes"))?;
             bytes.push(byte);
-- 
2.43.0


From da71e52121c779627c291512b197d6bdd83b24e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:56 +0000
Subject: [PATCH 30/42] fix: f32 is read directly, not rounded twice through
 f64

---
 crates/serde_styx/src/de.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index 1f7d54b..25dfba3 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -297,7 +297,12 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_f32<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        self.deserialize_f64(visitor)
+        let token = self.next_token();
+        let n: f32 = token
+            .text
+            .parse()
+            .map_err(|_| self.error(format!("expected float, got {:?}", token.text)))?;
+        visitor.visit_f32(n)
     }
 
     fn deserialize_f64<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-- 
2.43.0


From e24ed65f18c9f909a71c80ec970f48449c1d3885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:45 +0000
Subject: [PATCH 31/42] fix: f32 fields are read directly, not rounded twice
 through f64

---
 crates/facet-styx/src/parser.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/facet-styx/src/parser.rs b/crates/facet-styx/src/parser.rs
index 9837d33..e4773f4 100644
--- a/crates/facet-styx/src/parser.rs
+++ b/crates/facet-styx/src/parser.rs
@@ -230,7 +230,16 @@ impl<'de> StyxParser<'de> {
                     ScalarValue::Str(value)
                 }
             }
-            Some(ScalarTypeHint::F32 | ScalarTypeHint::F64) => {
+            Some(ScalarTypeHint::F32) => {
+                // Read the nearest f32 (widening it is exact); going through the nearest f64
+                // would round twice.
+                if let Ok(n) = value.parse::<f32>() {
+                    ScalarValue::F64(n as f64)
+                } else {
+                    ScalarValue::Str(value)
+                }
+            }
+            Some(ScalarTypeHint::F64) => {
                 if let Ok(n) = value.parse::<f64>() {
                     ScalarValue::F64(n)
                 } else {
-- 
2.43.0


From 26f89e613b930ee6b4ce3405a87dd5261a4a1c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:57 +0000
Subject: [PATCH 32/42] fix: NaN and infinities are not valid @float values

---
 crates/facet-styx/src/schema_validate.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index fca8df7..c8ea381 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -319,9 +319,10 @@ impl<'a> Validator<'a> {
             }
         };
 
+        // `NaN` and infinities are not valid float values.
         let parsed = match text.parse::<f64>() {
-            Ok(n) => n,
-            Err(_) => {
+            Ok(n) if n.is_finite() => n,
+            _ => {
                 result.error(
                     ValidationError::new(
                         path,
-- 
2.43.0


From 30d1dfb8d594661bce30ebe2a5eb3f85765ae71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:03 +0000
Subject: [PATCH 33/42] fix: deprecating an optional field does not make it
 required

---
 crates/facet-styx/src/schema_validate.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index c8ea381..7ac39b7 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -526,8 +526,7 @@ impl<'a> Validator<'a> {
             };
 
             if !seen_fields.contains(&Some(name)) {
-                // Optional and Default fields are not required
-                if !matches!(field_schema, Schema::Optional(_) | Schema::Default(_)) {
+                if is_required(field_schema) {
                     let field_path = if path.is_empty() {
                         name.to_string()
                     } else {
@@ -1083,6 +1082,17 @@ impl<'a> Validator<'a> {
     }
 }
 
+/// Whether a field with this schema must be present.
+fn is_required(schema: &Schema) -> bool {
+    match schema {
+        // Optional and Default fields are not required
+        Schema::Optional(_) | Schema::Default(_) => false,
+        // Deprecating a field does not make it required
+        Schema::Deprecated(deprecated) => is_required(&deprecated.0.1.value),
+        _ => true,
+    }
+}
+
 /// Get a human-readable name for a value type.
 fn value_type_name(value: &Value) -> &'static str {
     if value.is_unit() {
-- 
2.43.0


From 9cae437b6b1c133da62e05bbbaebc86848fc1e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:03 +0000
Subject: [PATCH 34/42] fix: the warnings of the union variant that matches are
 kept

---
 crates/facet-styx/src/schema_validate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 7ac39b7..f296b9e 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -724,7 +724,8 @@ impl<'a> Validator<'a> {
         for variant in &schema.0 {
             let variant_result = self.validate_value(value, &variant.value, path);
             if variant_result.is_valid() {
-                return ValidationResult::ok();
+                // Keeps the warnings of the variant
+                return variant_result;
             }
             tried.push(schema_type_name(&variant.value));
         }
-- 
2.43.0


From afb8b3ba744e5ea36a2c1e637e67549585ffb7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:03 +0000
Subject: [PATCH 35/42] fix: an untagged enum value is tried against every
 variant that could hold it

---
 crates/facet-styx/src/schema_validate.rs | 49 ++++++++++++++----------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index f296b9e..48815fd 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -771,10 +771,18 @@ impl<'a> Validator<'a> {
         let tag = match &value.tag {
             Some(t) => t.name.as_str(),
             None => {
-                // No tag - try to find a fallback variant that accepts this value type
-                if let Some(fallback_schema) = self.find_enum_fallback(value, schema) {
-                    // Validate against the fallback variant's schema
-                    return self.validate_value(value, fallback_schema, path);
+                // No tag - try the fallback variants that accept this value type; variants are
+                // unordered, so any of them may be the one meant
+                let mut rejected = None;
+                for fallback_schema in self.enum_fallbacks(value, schema) {
+                    let fallback_result = self.validate_value(value, fallback_schema, path);
+                    if fallback_result.is_valid() {
+                        return fallback_result;
+                    }
+                    rejected.get_or_insert(fallback_result);
+                }
+                if let Some(rejected) = rejected {
+                    return rejected;
                 }
                 result.error(
                     ValidationError::new(
@@ -856,30 +864,31 @@ impl<'a> Validator<'a> {
         result
     }
 
-    /// Find a fallback variant in an enum that can accept an untagged value.
+    /// The variants of an enum that can accept an untagged value.
     ///
     /// For example, if the enum has `eq @string` variant and the value is a bare string,
-    /// this returns the `@string` schema so the value can be validated against it.
-    fn find_enum_fallback<'s>(&self, value: &Value, schema: &'s EnumSchema) -> Option<&'s Schema> {
+    /// this includes the `@string` schema so the value can be validated against it.
+    fn enum_fallbacks<'s>(&self, value: &Value, schema: &'s EnumSchema) -> Vec<&'s Schema> {
         // Only scalars can fall back
-        let text = value.scalar_text()?;
+        let Some(text) = value.scalar_text() else {
+            return Vec::new();
+        };
 
-        // Look for a variant whose schema matches this value
-        for variant_schema in schema.0.values() {
-            match variant_schema {
+        schema
+            .0
+            .values()
+            .filter(|variant_schema| match variant_schema {
                 // @string accepts any scalar
-                Schema::String(_) => return Some(variant_schema),
+                Schema::String(_) => true,
                 // @int accepts scalars that parse as integers
-                Schema::Int(_) if text.parse::<i64>().is_ok() => return Some(variant_schema),
+                Schema::Int(_) => text.parse::<i128>().is_ok(),
                 // @float accepts scalars that parse as floats
-                Schema::Float(_) if text.parse::<f64>().is_ok() => return Some(variant_schema),
+                Schema::Float(_) => text.parse::<f64>().is_ok(),
                 // @bool accepts "true" or "false"
-                Schema::Bool if text == "true" || text == "false" => return Some(variant_schema),
-                _ => continue,
-            }
-        }
-
-        None
+                Schema::Bool => text == "true" || text == "false",
+                _ => false,
+            })
+            .collect()
     }
 
     fn validate_one_of(&self, value: &Value, schema: &OneOfSchema, path: &str) -> ValidationResult {
-- 
2.43.0


From 8f735381356f9bc894cdb6f78fcc2e7decea17c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:03 +0000
Subject: [PATCH 36/42] fix: quoted values of @one-of are compared by their
 content

---
 crates/facet-styx/src/schema_validate.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 48815fd..9063438 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -929,11 +929,14 @@ impl<'a> Validator<'a> {
         };
 
         // Check if the value is in the allowed list
-        let allowed_strings: Vec<&str> = allowed_values.iter().map(|v| v.as_str()).collect();
-        if !allowed_strings.contains(&value_text) {
+        // (allowed values are kept as source text, so quotes and escapes are resolved first)
+        let allowed_strings: Vec<String> = allowed_values
+            .iter()
+            .map(|v| crate::from_str_expr(v.as_str()).unwrap_or_else(|_| v.0.clone()))
+            .collect();
+        if !allowed_strings.iter().any(|allowed| allowed == value_text) {
             // Try to find a similar value for suggestions
-            let allowed_owned: Vec<String> = allowed_values.iter().map(|v| v.0.clone()).collect();
-            let suggestion = suggest_similar(value_text, &allowed_owned).map(String::from);
+            let suggestion = suggest_similar(value_text, &allowed_strings).map(String::from);
 
             result.error(
                 ValidationError::new(
-- 
2.43.0


From 8847fe9acfe9fce01c50565a274ee7cddbb24b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:52 +0000
Subject: [PATCH 37/42] fix: serde_styx attaches the payload of a newtype
 variant to its tag

A space between them made the payload a value of its own, so the output did not parse
---
 crates/serde_styx/src/ser.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/crates/serde_styx/src/ser.rs b/crates/serde_styx/src/ser.rs
index 1e4af34..049f6a5 100644
--- a/crates/serde_styx/src/ser.rs
+++ b/crates/serde_styx/src/ser.rs
@@ -179,7 +179,6 @@ impl<'a> ser::Serializer for &'a mut Serializer {
     ) -> Result<()> {
         self.at_root = false;
         self.writer.write_variant_tag(variant);
-        self.writer.write_byte(b' ');
         value.serialize(&mut *self)
     }
 
@@ -699,7 +698,6 @@ impl<'a> ser::Serializer for &'a mut CompactSerializer {
         value: &T,
     ) -> Result<()> {
         self.writer.write_variant_tag(variant);
-        self.writer.write_byte(b' ');
         value.serialize(&mut *self)
     }
 
-- 
2.43.0


From 6cc376ecc61ec82c03627eaa7007e2e0a3d9c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:52 +0000
Subject: [PATCH 38/42] fix: serde_styx separates a unit variant from the value
 that follows it

The writer was left expecting a payload, so unit variants in a sequence were glued together
---
 crates/serde_styx/src/ser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/serde_styx/src/ser.rs b/crates/serde_styx/src/ser.rs
index 049f6a5..1432a3e 100644
--- a/crates/serde_styx/src/ser.rs
+++ b/crates/serde_styx/src/ser.rs
@@ -159,6 +159,7 @@ impl<'a> ser::Serializer for &'a mut Serializer {
     ) -> Result<()> {
         self.at_root = false;
         self.writer.write_variant_tag(variant);
+        self.writer.clear_skip_before_value();
         Ok(())
     }
 
@@ -679,6 +680,7 @@ impl<'a> ser::Serializer for &'a mut CompactSerializer {
         variant: &'static str,
     ) -> Result<()> {
         self.writer.write_variant_tag(variant);
+        self.writer.clear_skip_before_value();
         Ok(())
     }
 
-- 
2.43.0


From 2be1a77ee3b4363794b016cbb2ff690bb665943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:49 +0000
Subject: [PATCH 39/42] fix: styx-embed: do not overflow on section offsets
 taken from the file

A 64-bit ELF or Mach-O section whose recorded offset and size add up to
more than usize::MAX made the reader panic instead of skipping it.
---
 crates/styx-embed/src/lib.rs | 48 ++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/crates/styx-embed/src/lib.rs b/crates/styx-embed/src/lib.rs
index 70969f8..d67c9d2 100644
--- a/crates/styx-embed/src/lib.rs
+++ b/crates/styx-embed/src/lib.rs
@@ -347,17 +347,22 @@ fn find_schema_section<'a>(object: &goblin::Object, data: &'a [u8]) -> Option<&'
     }
 }
 
+/// The `size` bytes of `data` at `start`, if `data` has them.
+///
+/// Both numbers come from the file, so their sum may not even fit in a `usize`.
+fn slice_at(data: &[u8], start: usize, size: usize) -> Option<&[u8]> {
+    data.get(start..start.checked_add(size)?)
+}
+
 /// Find the .styx_schemas section in an ELF binary.
 fn find_elf_section<'a>(elf: &goblin::elf::Elf, data: &'a [u8]) -> Option<&'a [u8]> {
     for section in &elf.section_headers {
         if let Some(name) = elf.shdr_strtab.get_at(section.sh_name)
             && name == section_names::ELF
+            && let Some(found) =
+                slice_at(data, section.sh_offset as usize, section.sh_size as usize)
         {
-            let start = section.sh_offset as usize;
-            let size = section.sh_size as usize;
-            if start + size <= data.len() {
-                return Some(&data[start..start + size]);
-            }
+            return Some(found);
         }
     }
     None
@@ -372,16 +377,12 @@ fn find_macho_section<'a>(mach: &goblin::mach::Mach, data: &'a [u8]) -> Option<&
         Mach::Fat(fat) => {
             // For fat binaries, try each architecture
             for arch in fat.iter_arches().flatten() {
-                let start = arch.offset as usize;
-                let size = arch.size as usize;
-                if start + size <= data.len() {
-                    let arch_data = &data[start..start + size];
-                    if let Ok(goblin::Object::Mach(Mach::Binary(macho))) =
+                if let Some(arch_data) = slice_at(data, arch.offset as usize, arch.size as usize)
+                    && let Ok(goblin::Object::Mach(Mach::Binary(macho))) =
                         goblin::Object::parse(arch_data)
-                        && let Some(section) = find_macho_section_in_binary(&macho, arch_data)
-                    {
-                        return Some(section);
-                    }
+                    && let Some(section) = find_macho_section_in_binary(&macho, arch_data)
+                {
+                    return Some(section);
                 }
             }
             None
@@ -401,12 +402,10 @@ fn find_macho_section_in_binary<'a>(
             for (section, _section_data) in segment.sections().ok()? {
                 if let Ok(sect_name) = section.name()
                     && sect_name == section_names::MACHO_SECTION
+                    && let Some(found) =
+                        slice_at(data, section.offset as usize, section.size as usize)
                 {
-                    let start = section.offset as usize;
-                    let size = section.size as usize;
-                    if start + size <= data.len() {
-                        return Some(&data[start..start + size]);
-                    }
+                    return Some(found);
                 }
             }
         }
@@ -419,12 +418,13 @@ fn find_pe_section<'a>(pe: &goblin::pe::PE, data: &'a [u8]) -> Option<&'a [u8]>
     for section in &pe.sections {
         if let Ok(name) = section.name()
             && name == section_names::PE
+            && let Some(found) = slice_at(
+                data,
+                section.pointer_to_raw_data as usize,
+                section.size_of_raw_data as usize,
+            )
         {
-            let start = section.pointer_to_raw_data as usize;
-            let size = section.size_of_raw_data as usize;
-            if start + size <= data.len() {
-                return Some(&data[start..start + size]);
-            }
+            return Some(found);
         }
     }
     None
-- 
2.43.0


From f88aa7dda23ada6ae2c3242e46fb9ff388598094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:50 +0000
Subject: [PATCH 40/42] fix: keep entries made of attributes only when
 formatting

---
 crates/styx-format/src/cst_format.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/styx-format/src/cst_format.rs b/crates/styx-format/src/cst_format.rs
index 541307a..0692542 100644
--- a/crates/styx-format/src/cst_format.rs
+++ b/crates/styx-format/src/cst_format.rs
@@ -263,6 +263,13 @@ impl CstFormatter {
         if let Some(value) = entry.value() {
             self.format_node(value.syntax());
         }
+
+        // An entry made of attributes only has neither a key nor a value
+        for child in node.children() {
+            if child.kind() == SyntaxKind::ATTRIBUTES {
+                self.format_attributes(&child);
+            }
+        }
     }
 
     fn format_object(&mut self, node: &SyntaxNode) {
-- 
2.43.0


From c4586f9ca3acc3fce3f3558ce57740b3040c99dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:09 +0000
Subject: [PATCH 41/42] fix: replace files in one step when formatting in
 place, caching a schema or saving the configuration

---
 crates/styx-cli/src/main.rs    |  2 +-
 crates/styx-lsp/src/cache.rs   |  6 ++--
 crates/styx-lsp/src/config.rs  |  2 +-
 crates/styx-lsp/src/lib.rs     |  2 ++
 crates/styx-lsp/src/replace.rs | 50 ++++++++++++++++++++++++++++++++++
 5 files changed, 57 insertions(+), 5 deletions(-)
 create mode 100644 crates/styx-lsp/src/replace.rs

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index d5e3512..59f5bde 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -395,7 +395,7 @@ fn run_file_mode(args: &[String]) -> Result<(), CliError> {
         let output = format_source(&source, format_opts);
 
         if opts.in_place {
-            std::fs::write(&opts.input, &output)?;
+            styx_lsp::replace_file(Path::new(&opts.input), &output)?;
         } else if let Some(ref out_path) = opts.output {
             write_output(out_path, &output)?;
         } else {
diff --git a/crates/styx-lsp/src/cache.rs b/crates/styx-lsp/src/cache.rs
index 93622a0..186038e 100644
--- a/crates/styx-lsp/src/cache.rs
+++ b/crates/styx-lsp/src/cache.rs
@@ -5,9 +5,10 @@
 
 use sha2::{Digest, Sha256};
 use std::fs;
-use std::io::Write;
 use std::path::PathBuf;
 
+use crate::replace_file;
+
 /// Get the schema cache directory.
 ///
 /// - Linux/macOS: `$XDG_CACHE_HOME/styx/schemas/` (default: `~/.cache/styx/schemas/`)
@@ -66,8 +67,7 @@ pub fn cache_embedded_schema(cli_name: &str, content: &str) -> Option<PathBuf> {
     }
 
     // Write content
-    let mut file = fs::File::create(&path).ok()?;
-    file.write_all(content.as_bytes()).ok()?;
+    replace_file(&path, content).ok()?;
 
     Some(path)
 }
diff --git a/crates/styx-lsp/src/config.rs b/crates/styx-lsp/src/config.rs
index 8473db8..7d69ee2 100644
--- a/crates/styx-lsp/src/config.rs
+++ b/crates/styx-lsp/src/config.rs
@@ -94,7 +94,7 @@ pub fn save_config(config: &StyxUserConfig) -> Result<(), SaveConfigError> {
         })?
     );
 
-    std::fs::write(&path, &content).map_err(|e| SaveConfigError::Io {
+    crate::replace_file(&path, &content).map_err(|e| SaveConfigError::Io {
         path: path.clone(),
         error: e,
     })?;
diff --git a/crates/styx-lsp/src/lib.rs b/crates/styx-lsp/src/lib.rs
index 12db026..13d5c02 100644
--- a/crates/styx-lsp/src/lib.rs
+++ b/crates/styx-lsp/src/lib.rs
@@ -11,11 +11,13 @@
 pub mod cache;
 pub mod config;
 pub mod extensions;
+mod replace;
 pub mod schema_hints;
 mod schema_validation;
 pub mod semantic_tokens;
 mod server;
 pub mod testing;
 
+pub use replace::replace_file;
 pub use semantic_tokens::{HighlightSpan, TokenType, compute_highlight_spans};
 pub use server::{DocumentMap, DocumentState, StyxLanguageServer, run};
diff --git a/crates/styx-lsp/src/replace.rs b/crates/styx-lsp/src/replace.rs
new file mode 100644
index 0000000..9624614
--- /dev/null
+++ b/crates/styx-lsp/src/replace.rs
@@ -0,0 +1,50 @@
+//! Replacing the contents of a file in one step.
+
+use std::fs::{self, File, Permissions};
+use std::io::{self, Write};
+use std::path::{Path, PathBuf};
+use std::sync::atomic::{AtomicUsize, Ordering};
+
+/// Write a file so that, however the process ends, the path holds either its old contents or
+/// all of the new ones.
+///
+/// The contents go to a temporary file in the same directory, which then takes the place of the
+/// original. Symbolic links are followed and the permissions of an existing file are kept.
+pub fn replace_file(path: &Path, contents: &str) -> io::Result<()> {
+    static NEXT: AtomicUsize = AtomicUsize::new(0);
+
+    let target = fs::canonicalize(path).unwrap_or_else(|_| path.to_path_buf());
+    let permissions = match fs::metadata(&target) {
+        Ok(existing) if !existing.is_file() => {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                format!("{} is not a regular file", target.display()),
+            ));
+        }
+        Ok(existing) => Some(existing.permissions()),
+        Err(_) => None,
+    };
+    let mut staged = target.clone().into_os_string();
+    staged.push(format!(
+        ".{}-{}.tmp",
+        std::process::id(),
+        NEXT.fetch_add(1, Ordering::Relaxed)
+    ));
+    let staged = PathBuf::from(staged);
+
+    let result = stage(&staged, permissions, contents).and_then(|()| fs::rename(&staged, &target));
+    if result.is_err() {
+        let _ = fs::remove_file(&staged);
+    }
+    result
+}
+
+/// Write the complete contents to the staged file and onto the disk.
+fn stage(staged: &Path, permissions: Option<Permissions>, contents: &str) -> io::Result<()> {
+    let mut file = File::create_new(staged)?;
+    if let Some(permissions) = permissions {
+        file.set_permissions(permissions)?;
+    }
+    file.write_all(contents.as_bytes())?;
+    file.sync_all()
+}
-- 
2.43.0


From daba2cfa567725ca75cbebde324598a5a38b5bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:09 +0000
Subject: [PATCH 42/42] fix: skip ignored tagged values and doc comments
 without recursion in the serde deserializer

---
 crates/serde_styx/src/de.rs | 60 +++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index 25dfba3..4999b5b 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -523,7 +523,24 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
 
 impl<'de> Deserializer<'de> {
     fn skip_value(&mut self) -> Result<()> {
-        let token = self.next_token();
+        let mut token = self.next_token();
+        // A payload follows its tag directly
+        while token.kind == TokenKind::Tag
+            && let Some(next) = self.peek_token()
+            && next.span.start == token.span.end
+            && matches!(
+                next.kind,
+                TokenKind::LBrace
+                    | TokenKind::LParen
+                    | TokenKind::QuotedScalar
+                    | TokenKind::RawScalar
+                    | TokenKind::HeredocStart
+                    | TokenKind::At
+                    | TokenKind::Tag
+            )
+        {
+            token = self.next_token();
+        }
         match token.kind {
             TokenKind::LBrace => {
                 let mut depth = 1;
@@ -549,28 +566,14 @@ impl<'de> Deserializer<'de> {
                     }
                 }
             }
-            TokenKind::At => {
-                // Could be unit or tag with value
-                if let Some(next) = self.peek_token()
-                    && next.kind == TokenKind::BareScalar
-                {
-                    self.next_token();
-                    // Check for payload
-                    if let Some(next) = self.peek_token()
-                        && !matches!(
-                            next.kind,
-                            TokenKind::RBrace
-                                | TokenKind::RParen
-                                | TokenKind::Comma
-                                | TokenKind::Eof
-                        )
-                    {
-                        self.skip_value()?;
-                    }
+            TokenKind::HeredocStart => loop {
+                match self.next_token().kind {
+                    TokenKind::HeredocEnd | TokenKind::Eof => break,
+                    _ => {}
                 }
-            }
+            },
             _ => {
-                // Scalar - already consumed
+                // Scalar or unit - already consumed
             }
         }
         Ok(())
@@ -619,6 +622,16 @@ impl<'a, 'de> de::MapAccess<'de> for MapAccess<'a, 'de> {
     {
         self.de.skip_comma();
 
+        // Skip doc comments
+        while self
+            .de
+            .peek_token()
+            .is_some_and(|t| t.kind == TokenKind::DocComment)
+        {
+            self.de.next_token();
+            self.de.skip_comma();
+        }
+
         let token_kind = self.de.peek_token().map(|t| t.kind);
         match token_kind {
             Some(TokenKind::RBrace) => {
@@ -631,11 +644,6 @@ impl<'a, 'de> de::MapAccess<'de> for MapAccess<'a, 'de> {
             Some(TokenKind::BareScalar) | Some(TokenKind::QuotedScalar) => {
                 // This is a key
             }
-            Some(TokenKind::DocComment) => {
-                // Skip doc comments
-                self.de.next_token();
-                return self.next_key_seed(seed);
-            }
             Some(kind) => {
                 return Err(self.de.error(format!("expected key, got {:?}", kind)));
             }
-- 
2.43.0

