From e4420da001367bf1839a951b2de2bb39e7719143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:00 +0000
Subject: [PATCH 01/21] fix: locate parse errors by character, not byte, so
 describing them cannot panic

---
 src/parser/error.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/error.rs b/src/parser/error.rs
index 74bce1d..7be2fe9 100644
--- a/src/parser/error.rs
+++ b/src/parser/error.rs
@@ -85,7 +85,7 @@ struct LocatedLine<'a> {
     line: &'a str,
     // Line number, starting at 1.
     line_number: usize,
-    // Column number, starting at 1.
+    // Column number (in characters), starting at 1.
     column_number: usize,
 }
 
@@ -98,7 +98,8 @@ impl<'a> LocatedLine<'a> {
 
         let line_start_offset = input_before.rfind('\n').map(|n| n + 1).unwrap_or(0);
         let line_number = input_before.split('\n').count();
-        let column_number = offset - line_start_offset + 1;
+        // Counted in characters rather than bytes, to match how the line is displayed
+        let column_number = input_before[line_start_offset..].chars().count() + 1;
 
         LocatedLine {
             line: input[line_start_offset..].lines().next().unwrap_or(""),
-- 
2.43.0


From 47f747a254898be11e5f30045694d1188adf90cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:34 +0000
Subject: [PATCH 02/21] fix: reject unparseable content in INCLUDE marked
 sections instead of dropping it

---
 src/parser/events.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parser/events.rs b/src/parser/events.rs
index 029db1f..483bfb4 100644
--- a/src/parser/events.rs
+++ b/src/parser/events.rs
@@ -5,10 +5,11 @@ use std::iter::{FromIterator, FusedIterator};
 use std::{fmt, mem};
 
 use nom::branch::alt;
-use nom::combinator::{all_consuming, cut, map, recognize, value};
+use nom::character::complete::char;
+use nom::combinator::{all_consuming, cut, map, peek, recognize, value};
 use nom::error::{context, ContextError, ErrorKind, FromExternalError, ParseError};
 use nom::multi::{many0, many0_count, many1};
-use nom::sequence::{terminated, tuple};
+use nom::sequence::{preceded, terminated, tuple};
 use nom::IResult;
 
 use crate::marked_sections::MarkedSectionStatus;
@@ -175,7 +176,11 @@ where
                     |input| content(input, config, MarkedSectionEndHandling::StopParsing),
                     EventIter::from_iter,
                 ),
-                raw::marked_section_body_character_data,
+                // What could not be parsed as content must not be skipped
+                context(
+                    r##"marked section end ("]]>")"##,
+                    cut(preceded(peek(char(']')), raw::marked_section_end)),
+                ),
             )(input),
         },
     }
-- 
2.43.0


From bca85f2659a4642c0522e4e4f2c950bbc1572b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:47 +0000
Subject: [PATCH 03/21] fix: report undefined entities in text and marked
 sections instead of a misleading error

---
 src/parser/events.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/parser/events.rs b/src/parser/events.rs
index 483bfb4..f80954c 100644
--- a/src/parser/events.rs
+++ b/src/parser/events.rs
@@ -95,7 +95,9 @@ where
 {
     context("marked section declaration", |input| {
         let (rest, raw_status_keywords) = raw::marked_section_start_and_keywords(input)?;
-        let status_keywords = config.parse_markup_declaration_text(raw_status_keywords)?;
+        let status_keywords = config
+            .parse_markup_declaration_text(raw_status_keywords)
+            .map_err(into_failure)?;
 
         let status = match config
             .marked_section_handling
@@ -167,7 +169,9 @@ where
                 Ok((
                     rest,
                     EventIter::once(SgmlEvent::Character(
-                        config.parse_rcdata(config.trim(content))?,
+                        config
+                            .parse_rcdata(config.trim(content))
+                            .map_err(into_failure)?,
                     )),
                 ))
             }
@@ -348,10 +352,21 @@ where
     }
     Ok((
         rest,
-        EventIter::once(SgmlEvent::Character(config.parse_rcdata(s)?)),
+        EventIter::once(SgmlEvent::Character(
+            config.parse_rcdata(s).map_err(into_failure)?,
+        )),
     ))
 }
 
+/// Invalid references cannot be recovered from; trying other alternatives
+/// would just replace the error with a misleading one.
+fn into_failure<E>(err: nom::Err<E>) -> nom::Err<E> {
+    match err {
+        nom::Err::Error(err) => nom::Err::Failure(err),
+        err => err,
+    }
+}
+
 /// An iterator over a sequence of events.
 ///
 /// This struct exists to minimize the number of allocations during the
-- 
2.43.0


From f1e16df37813ef08cf180f09290cb43469f0f5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:48 +0000
Subject: [PATCH 04/21] fix: recognize the empty comment declaration <!> after
 text

---
 src/parser/raw.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/raw.rs b/src/parser/raw.rs
index 31c6ece..fb24df8 100644
--- a/src/parser/raw.rs
+++ b/src/parser/raw.rs
@@ -182,6 +182,7 @@ where
                 not(alt((
                     tag("?"),
                     tag("!-"),
+                    tag("!>"),
                     tag("!["),
                     preceded(tag("!"), name_start),
                     // Minimally matching start/end tags: "<>", "</>", "<x", or "</x"
-- 
2.43.0


From 7686d93dcf14a1073e2d61f3b0a32c4083c2a8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:13 +0000
Subject: [PATCH 05/21] fix: accept INCLUDE marked sections that are empty or
 start with a comment

---
 src/parser/events.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/parser/events.rs b/src/parser/events.rs
index f80954c..078b98c 100644
--- a/src/parser/events.rs
+++ b/src/parser/events.rs
@@ -143,9 +143,7 @@ where
                 MarkedSectionStatus::CData => raw::marked_section_body_character_data(input),
                 MarkedSectionStatus::RcData => raw::marked_section_body_character_data(input),
                 MarkedSectionStatus::Include => terminated(
-                    recognize(|input| {
-                        content(input, config, MarkedSectionEndHandling::StopParsing)
-                    }),
+                    recognize(|input| marked_section_content(input, config)),
                     raw::marked_section_end,
                 )(input),
             }?;
@@ -177,7 +175,7 @@ where
             }
             MarkedSectionStatus::Include => terminated(
                 map(
-                    |input| content(input, config, MarkedSectionEndHandling::StopParsing),
+                    |input| marked_section_content(input, config),
                     EventIter::from_iter,
                 ),
                 // What could not be parsed as content must not be skipped
@@ -190,6 +188,28 @@ where
     }
 }
 
+/// Matches the content of an `INCLUDE` marked section, up to its end.
+///
+/// Unlike the [`content`] of a document, it may be empty, or start with comments.
+fn marked_section_content<'a, E>(
+    input: &'a str,
+    config: &ParserConfig,
+) -> IResult<&'a str, impl Iterator<Item = SgmlEvent<'a>>, E>
+where
+    E: ParseError<&'a str> + ContextError<&'a str> + FromExternalError<&'a str, Error>,
+{
+    map(
+        preceded(
+            many0_count(comment_declaration),
+            many0(terminated(
+                |input| content_item(input, config, MarkedSectionEndHandling::StopParsing),
+                many0_count(comment_declaration),
+            )),
+        ),
+        |items: Vec<EventIter>| items.into_iter().flatten(),
+    )(input)
+}
+
 pub fn processing_instruction<'a, E>(
     input: &'a str,
     config: &ParserConfig,
-- 
2.43.0


From 329f4cf6a0ae6a4a7bc74fb12645260272587a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:50 +0000
Subject: [PATCH 06/21] fix: normalize the case of titlecase letters in names

---
 src/parser/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 15e0f87..f7add3c 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -158,10 +158,16 @@ impl Default for NameNormalization {
 impl NameNormalization {
     pub fn normalize<'a>(&self, name: Cow<'a, str>) -> Cow<'a, str> {
         match self {
-            NameNormalization::ToLowercase if name.chars().any(char::is_uppercase) => {
+            // Note `char::is_uppercase` and `char::is_lowercase` are both false
+            // for titlecase letters, even though they do have case mappings
+            NameNormalization::ToLowercase
+                if !name.chars().all(|c| c.to_lowercase().eq(Some(c))) =>
+            {
                 name.to_lowercase().into()
             }
-            NameNormalization::ToUppercase if name.chars().any(char::is_lowercase) => {
+            NameNormalization::ToUppercase
+                if !name.chars().all(|c| c.to_uppercase().eq(Some(c))) =>
+            {
                 name.to_uppercase().into()
             }
             _ => name,
-- 
2.43.0


From b113810399fc9a38e8cebf2a8f25b80169107eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:23 +0000
Subject: [PATCH 07/21] fix: skip nested IGNORE marked sections without
 recursion, to not overflow the stack

---
 src/parser/raw.rs | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/parser/raw.rs b/src/parser/raw.rs
index fb24df8..f408bb6 100644
--- a/src/parser/raw.rs
+++ b/src/parser/raw.rs
@@ -130,20 +130,30 @@ where
     E: ParseError<&'a str> + ContextError<&'a str>,
 {
     use nom::{FindSubstring, Slice};
-    let (close_suffix, close_match) = marked_section_body_character_data(input)?;
-    match close_match.find_substring(MARKED_SECTION_START) {
-        Some(n) => {
-            let (suffix_after_matched_pair, _) =
-                context("nested marked section pair", marked_section_body_ignore)(
-                    input.slice(n + MARKED_SECTION_START.len()..),
-                )?;
-            let (final_suffix, _) = marked_section_body_ignore(suffix_after_matched_pair)?;
-            Ok((
-                final_suffix,
-                input.slice(..input.len() - final_suffix.len() - MARKED_SECTION_END.len()),
-            ))
+    // Nested pairs still open. Not using recursion, as nesting depth is up to the input
+    let mut open_pairs = vec![];
+    let mut rest = input;
+    loop {
+        match marked_section_body_character_data(rest) {
+            Ok((close_suffix, close_match)) => {
+                if let Some(n) = close_match.find_substring(MARKED_SECTION_START) {
+                    rest = rest.slice(n + MARKED_SECTION_START.len()..);
+                    open_pairs.push(rest);
+                } else if open_pairs.pop().is_some() {
+                    rest = close_suffix;
+                } else {
+                    return Ok((
+                        close_suffix,
+                        input.slice(..input.len() - close_suffix.len() - MARKED_SECTION_END.len()),
+                    ));
+                }
+            }
+            Err(err) => {
+                return Err(open_pairs.into_iter().rev().fold(err, |err, pair| {
+                    err.map(|err| E::add_context(pair, "nested marked section pair", err))
+                }))
+            }
         }
-        _ => Ok((close_suffix, close_match)),
     }
 }
 
-- 
2.43.0


From 3a2d7f0c39eb582ff9960f3e7362f6a92b8bd4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:48 +0000
Subject: [PATCH 08/21] fix: skip elements without recursion when
 deserializing, to not overflow the stack

---
 src/de/mod.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 387547e..73af3fa 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -240,10 +240,8 @@ impl<'de> SgmlDeserializer<'de> {
             {
                 SgmlEvent::XmlCloseEmptyElement => {
                     self.stack.pop();
-                    return Ok(());
                 }
                 SgmlEvent::EndTag { name } => {
-                    self.check_stack_size(stack_size);
                     let expected = self.stack.pop().unwrap();
                     if name != expected {
                         return Err(DeserializationError::MismatchedCloseTag {
@@ -251,16 +249,16 @@ impl<'de> SgmlDeserializer<'de> {
                             found: name.to_string(),
                         });
                     }
-                    debug!("popped({}): {:?}", stack_size - 1, name);
-                    return Ok(());
+                    debug!("popped({}): {:?}", self.stack.len(), name);
                 }
-                SgmlEvent::OpenStartTag { name } => {
-                    self.stack.push(name);
-                    self.pop_elt()?;
-                }
-                _ => {}
+                SgmlEvent::OpenStartTag { name } => self.stack.push(name),
+                _ => continue,
             };
+            if self.stack.len() < stack_size {
+                break;
+            }
         }
+        Ok(())
     }
 
     /// Skips attributes and CloseStartTag, going to the main content.
-- 
2.43.0


From 15225c68f8410a6766c59b6cd313b829841c6fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:50 +0000
Subject: [PATCH 09/21] fix: reject unsupported events that follow a child
 element, instead of panicking

---
 src/de/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 73af3fa..a1e123d 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -258,6 +258,10 @@ impl<'de> SgmlDeserializer<'de> {
                 break;
             }
         }
+        // Anything after the root element is never visited
+        if !self.stack.is_empty() {
+            self.normalize_at_cursor()?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From c20b95bb8a61597fb63296eb0c2937c9f75e37de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:51 +0000
Subject: [PATCH 10/21] fix: deserialize XML-style empty elements as any other
 empty element

---
 src/de/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index a1e123d..fd7714b 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -164,7 +164,7 @@ impl<'de> SgmlDeserializer<'de> {
             .skip(1)
             .find_map(|event| match event {
                 SgmlEvent::OpenStartTag { .. } => Some(true),
-                SgmlEvent::EndTag { .. } => Some(false),
+                SgmlEvent::EndTag { .. } | SgmlEvent::XmlCloseEmptyElement => Some(false),
                 SgmlEvent::Attribute { .. } => {
                     contains_attributes = true;
                     None
@@ -304,7 +304,7 @@ impl<'de> SgmlDeserializer<'de> {
                 SgmlEvent::OpenStartTag { .. } => {
                     self.push_elt()?;
                 }
-                SgmlEvent::EndTag { .. } => {
+                SgmlEvent::EndTag { .. } | SgmlEvent::XmlCloseEmptyElement => {
                     self.pop_elt()?;
                     if self.stack.len() == starting_stack_size {
                         break;
-- 
2.43.0


From eb46ddf80b92aced1a5f65f4a66fa3da3f4b5cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:00 +0000
Subject: [PATCH 11/21] fix: reject sequences read from attributes, instead of
 never finishing

---
 src/de/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index fd7714b..93cf0c1 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -525,6 +525,13 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
         V: de::Visitor<'de>,
     {
         trace!("deserialize_seq (tag: {:?})", self.map_key);
+
+        if let Ok(SgmlEvent::Attribute { .. }) = self.peek() {
+            // Sequences are only read from elements; not consuming the attribute
+            // would leave the map stuck in it
+            return Err(DeserializationError::ExpectedStartTag);
+        }
+
         let stack_size = self.stack.len();
 
         let tag_name = self.map_key.take().map(Into::into);
-- 
2.43.0


From 3f258ec28e81ad2abd4867a49522409df1fbc116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:02 +0000
Subject: [PATCH 12/21] fix: do not read the data of an enum variant named by
 text from the following elements

---
 src/de/mod.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 93cf0c1..fabfb4a 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -866,6 +866,15 @@ impl<'de, 'r> EnumAccess<'de, 'r> {
             use_tag_name_for_variant,
         }
     }
+
+    /// Ensures there is an element to read the data of a variant from.
+    fn expect_element(&self, expected: &'static str) -> Result<(), DeserializationError> {
+        if self.use_tag_name_for_variant {
+            Ok(())
+        } else {
+            Err(de::Error::invalid_type(Unexpected::UnitVariant, &expected))
+        }
+    }
 }
 
 impl<'de, 'r> de::EnumAccess<'de> for EnumAccess<'de, 'r> {
@@ -906,10 +915,10 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         seed: T,
     ) -> Result<T::Value, Self::Error> {
         trace!("newtype_variant");
+        self.expect_element("newtype variant")?;
         // If we just used the current tag name as a variant, we need to push the tag into the stack,
         // or else we might get stuck in a loop
-        let push =
-            self.use_tag_name_for_variant && self.de.peek_content_type()?.contains_child_elements;
+        let push = self.de.peek_content_type()?.contains_child_elements;
         if push {
             self.de.push_elt()?;
             self.de.advance_to_content()?;
@@ -926,9 +935,8 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         V: de::Visitor<'de>,
     {
         trace!("tuple_variant({} items)", len);
-        if self.use_tag_name_for_variant {
-            self.de.map_key = Some(self.de.expect_start_tag()?.clone().into_owned().into());
-        }
+        self.expect_element("tuple variant")?;
+        self.de.map_key = Some(self.de.expect_start_tag()?.clone().into_owned().into());
         self.de.deserialize_seq(visitor)
     }
 
@@ -941,6 +949,7 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         V: de::Visitor<'de>,
     {
         trace!("struct_variant");
+        self.expect_element("struct variant")?;
         self.de.do_map(visitor, fields.contains(&"$value"))
     }
 }
-- 
2.43.0


From 0e211a963b8b92164b3f9397860bb4818b27249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:18 +0000
Subject: [PATCH 13/21] fix: do not mistake a variant named as an outer field
 for that field

---
 src/de/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index fabfb4a..8e49e31 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -599,8 +599,8 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
 
         // If true, we have a <map-key>(enum-value)</map-key> case;
         // if false, it's (enum-value) directly
-        let enum_within_element = self
-            .map_key
+        let map_key = self.map_key.take();
+        let enum_within_element = map_key
             .as_deref()
             .and_then(|map_key| {
                 self.expect_start_tag()
-- 
2.43.0


From da06ae3505929dc0ba4e7416534eaafc8efeef28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:19 +0000
Subject: [PATCH 14/21] fix: deserialize enums from attribute values and $value
 text, as documented

---
 src/de/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 8e49e31..48964f1 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -611,7 +611,12 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
 
         // If true, (enum-value) is <variant (fields)>(fields)</variant>;
         // if false, (enum-value) is just a string
-        let use_tag_name_for_variant = if enum_within_element {
+        let use_tag_name_for_variant = if self.accumulated_text.is_some()
+            || matches!(self.peek(), Ok(SgmlEvent::Attribute { .. }))
+        {
+            trace!("enum from attribute or $value; using text content");
+            false
+        } else if enum_within_element {
             if self.peek_content_type()?.contains_child_elements {
                 trace!("enum within element; using content elt");
                 // <key><variant (fields)>(fields)</variant></key>
-- 
2.43.0


From 3e36cdb3a232c1e389cacd05c99899348f81a7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:15 +0000
Subject: [PATCH 15/21] fix: deserialize newtype variants holding structs or
 text from their own element

---
 src/de/mod.rs | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 48964f1..0a54646 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -81,6 +81,9 @@ pub struct SgmlDeserializer<'de> {
     stack: Vec<Cow<'de, str>>,
     map_key: Option<Rc<str>>,
     accumulated_text: Option<Cow<'de, str>>,
+    /// Whether the start tag at the cursor was just used as the name of a newtype variant.
+    /// If so, sequences and enums are in its content, rather than in the element itself.
+    at_newtype_variant: bool,
 }
 
 /// The error type for deserialization problems.
@@ -120,6 +123,7 @@ impl<'de> SgmlDeserializer<'de> {
             stack: Vec::new(),
             map_key: None,
             accumulated_text: None,
+            at_newtype_variant: false,
         };
         reader.normalize_at_cursor()?;
         Ok(reader)
@@ -214,6 +218,7 @@ impl<'de> SgmlDeserializer<'de> {
 
     /// Consumes the current event, asserting it is an open tag, and pushes it to the stack.
     fn push_elt(&mut self) -> Result<&str, DeserializationError> {
+        self.at_newtype_variant = false;
         let stag = match self.events.next() {
             Some(SgmlEvent::OpenStartTag { name }) => name,
             _ => return Err(DeserializationError::ExpectedStartTag),
@@ -275,6 +280,16 @@ impl<'de> SgmlDeserializer<'de> {
         Ok(())
     }
 
+    /// Enters the element that was just used as the name of a newtype variant, if that is the case.
+    fn enter_newtype_variant(&mut self) -> Result<bool, DeserializationError> {
+        let enter = mem::take(&mut self.at_newtype_variant);
+        if enter {
+            self.push_elt()?;
+            self.advance_to_content()?;
+        }
+        Ok(enter)
+    }
+
     /// Consumes an element and returns all its text.
     ///
     /// Includes text from child elements as well.
@@ -535,7 +550,11 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
         let stack_size = self.stack.len();
 
         let tag_name = self.map_key.take().map(Into::into);
+        let within_variant = self.enter_newtype_variant()?;
         let value = visitor.visit_seq(SeqAccess::new(self, tag_name))?;
+        if within_variant {
+            self.pop_elt()?;
+        }
 
         self.check_stack_size(stack_size);
 
@@ -596,6 +615,7 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
         trace!("deserialize_enum({})", name);
 
         let stack_size = self.stack.len();
+        let within_variant = self.enter_newtype_variant()?;
 
         // If true, we have a <map-key>(enum-value)</map-key> case;
         // if false, it's (enum-value) directly
@@ -640,6 +660,9 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
         if enum_within_element && use_tag_name_for_variant {
             self.pop_elt()?;
         }
+        if within_variant {
+            self.pop_elt()?;
+        }
 
         self.check_stack_size(stack_size);
         Ok(value)
@@ -921,18 +944,10 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
     ) -> Result<T::Value, Self::Error> {
         trace!("newtype_variant");
         self.expect_element("newtype variant")?;
-        // If we just used the current tag name as a variant, we need to push the tag into the stack,
-        // or else we might get stuck in a loop
-        let push = self.de.peek_content_type()?.contains_child_elements;
-        if push {
-            self.de.push_elt()?;
-            self.de.advance_to_content()?;
-        }
-        let value = seed.deserialize(self.de.borrow_mut())?;
-        if push {
-            self.de.pop_elt()?;
-        }
-        Ok(value)
+        // If we just used the current tag name as a variant, another enum or a sequence
+        // must be read from its content, or else we might get stuck in a loop
+        self.de.at_newtype_variant = self.de.peek_content_type()?.contains_child_elements;
+        seed.deserialize(self.de.borrow_mut())
     }
 
     fn tuple_variant<V>(self, len: usize, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From 3ff0575bfcce4c60da191b1a5cb5ab20b45741a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:18 +0000
Subject: [PATCH 16/21] fix: tell apart content of XML-style empty elements
 from what follows them

---
 src/de/mod.rs | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 0a54646..194c935 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -347,9 +347,11 @@ impl<'de> SgmlDeserializer<'de> {
     where
         V: de::Visitor<'de>,
     {
+        // Must be determined from the start of the element
+        let content_strategy = ContentStrategy::detect(self, emit_value);
         self.push_elt()?;
         let stack_size = self.stack.len();
-        let value = visitor.visit_map(MapAccess::new(self, emit_value))?;
+        let value = visitor.visit_map(MapAccess::new(self, content_strategy))?;
         self.check_stack_size(stack_size);
         self.pop_elt()?;
 
@@ -718,21 +720,8 @@ struct MapAccess<'de, 'r> {
 }
 
 impl<'de, 'r> MapAccess<'de, 'r> {
-    fn new(de: &'r mut SgmlDeserializer<'de>, emit_value: bool) -> Self {
+    fn new(de: &'r mut SgmlDeserializer<'de>, content_strategy: ContentStrategy) -> Self {
         let stack_size = de.stack.len();
-        let content_strategy = if emit_value {
-            if de
-                .peek_content_type()
-                .map(|content| content.contains_child_elements)
-                .unwrap_or(false)
-            {
-                ContentStrategy::ElementsAreDollarValue
-            } else {
-                ContentStrategy::TextOnly
-            }
-        } else {
-            ContentStrategy::ElementsAreMapEntries
-        };
         Self {
             de,
             stack_size,
@@ -754,6 +743,24 @@ enum ContentStrategy {
     ElementsAreDollarValue,
 }
 
+impl ContentStrategy {
+    fn detect(de: &SgmlDeserializer, emit_value: bool) -> Self {
+        if emit_value {
+            if de
+                .peek_content_type()
+                .map(|content| content.contains_child_elements)
+                .unwrap_or(false)
+            {
+                ContentStrategy::ElementsAreDollarValue
+            } else {
+                ContentStrategy::TextOnly
+            }
+        } else {
+            ContentStrategy::ElementsAreMapEntries
+        }
+    }
+}
+
 impl<'de, 'r> de::MapAccess<'de> for MapAccess<'de, 'r> {
     type Error = DeserializationError;
 
-- 
2.43.0


From 3ddb602bfecadf7489e19ca709102493f618be73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:21 +0000
Subject: [PATCH 17/21] fix: read enums in newtype variants from text or empty
 content without overflowing the stack

---
 src/de/mod.rs | 50 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 194c935..932979c 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -280,14 +280,19 @@ impl<'de> SgmlDeserializer<'de> {
         Ok(())
     }
 
-    /// Enters the element that was just used as the name of a newtype variant, if that is the case.
-    fn enter_newtype_variant(&mut self) -> Result<bool, DeserializationError> {
-        let enter = mem::take(&mut self.at_newtype_variant);
-        if enter {
-            self.push_elt()?;
-            self.advance_to_content()?;
+    /// Determines where the content of a newtype variant is, if its name was just read from
+    /// the start tag at the cursor, entering the element if its content is not just text.
+    fn enter_newtype_variant(&mut self) -> Result<VariantContent, DeserializationError> {
+        if !mem::take(&mut self.at_newtype_variant) {
+            return Ok(VariantContent::NotInVariant);
         }
-        Ok(enter)
+        let content = self.peek_content_type()?;
+        if content.contains_text && !content.contains_child_elements {
+            return Ok(VariantContent::Text);
+        }
+        self.push_elt()?;
+        self.advance_to_content()?;
+        Ok(VariantContent::Elements)
     }
 
     /// Consumes an element and returns all its text.
@@ -551,10 +556,13 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
 
         let stack_size = self.stack.len();
 
-        let tag_name = self.map_key.take().map(Into::into);
-        let within_variant = self.enter_newtype_variant()?;
+        let mut tag_name = self.map_key.take();
+        let variant_content = self.enter_newtype_variant()?;
+        if variant_content == VariantContent::Text {
+            tag_name = Some(self.expect_start_tag()?.as_ref().into());
+        }
         let value = visitor.visit_seq(SeqAccess::new(self, tag_name))?;
-        if within_variant {
+        if variant_content == VariantContent::Elements {
             self.pop_elt()?;
         }
 
@@ -617,7 +625,7 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
         trace!("deserialize_enum({})", name);
 
         let stack_size = self.stack.len();
-        let within_variant = self.enter_newtype_variant()?;
+        let variant_content = self.enter_newtype_variant()?;
 
         // If true, we have a <map-key>(enum-value)</map-key> case;
         // if false, it's (enum-value) directly
@@ -633,7 +641,10 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
 
         // If true, (enum-value) is <variant (fields)>(fields)</variant>;
         // if false, (enum-value) is just a string
-        let use_tag_name_for_variant = if self.accumulated_text.is_some()
+        let use_tag_name_for_variant = if variant_content == VariantContent::Text {
+            trace!("enum within newtype variant; using text content");
+            false
+        } else if self.accumulated_text.is_some()
             || matches!(self.peek(), Ok(SgmlEvent::Attribute { .. }))
         {
             trace!("enum from attribute or $value; using text content");
@@ -662,7 +673,7 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
         if enum_within_element && use_tag_name_for_variant {
             self.pop_elt()?;
         }
-        if within_variant {
+        if variant_content == VariantContent::Elements {
             self.pop_elt()?;
         }
 
@@ -953,7 +964,7 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         self.expect_element("newtype variant")?;
         // If we just used the current tag name as a variant, another enum or a sequence
         // must be read from its content, or else we might get stuck in a loop
-        self.de.at_newtype_variant = self.de.peek_content_type()?.contains_child_elements;
+        self.de.at_newtype_variant = true;
         seed.deserialize(self.de.borrow_mut())
     }
 
@@ -987,3 +998,14 @@ struct PeekContentType {
     contains_text: bool,
     contains_child_elements: bool,
 }
+
+/// Where to find the content of a newtype variant.
+#[derive(Clone, Copy, Debug, PartialEq)]
+enum VariantContent {
+    /// Not reading a newtype variant
+    NotInVariant,
+    /// The element named as the variant was entered
+    Elements,
+    /// The element named as the variant only contains text, and is still at the cursor
+    Text,
+}
-- 
2.43.0


From 8e86aaefd2ffd2849a39e9526d1f937c60fbc855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:49 +0000
Subject: [PATCH 18/21] fix: do not visit the same item forever when its type
 reads nothing

---
 src/de/mod.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 932979c..70ecf4a 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -344,6 +344,22 @@ impl<'de> SgmlDeserializer<'de> {
         Ok(text.into_cow())
     }
 
+    /// Deserializes an item of a map or sequence, from the attribute or element at the cursor.
+    ///
+    /// A type that reads nothing at all, like a tuple without items, is an error; otherwise
+    /// the same item would be visited forever.
+    fn deserialize_item<T: de::DeserializeSeed<'de>>(
+        &mut self,
+        seed: T,
+    ) -> Result<T::Value, DeserializationError> {
+        let remaining = self.events.len();
+        let value = seed.deserialize(&mut *self)?;
+        if self.events.len() == remaining {
+            return Err(de::Error::custom("no data was read from an item"));
+        }
+        Ok(value)
+    }
+
     fn do_map<'r, V>(
         &'r mut self,
         visitor: V,
@@ -844,10 +860,10 @@ impl<'de, 'r> de::MapAccess<'de> for MapAccess<'de, 'r> {
             self.de.accumulated_text = None;
             Ok(value)
         } else if let Ok(SgmlEvent::Attribute { .. }) = self.de.peek() {
-            seed.deserialize(&mut *self.de)
+            self.de.deserialize_item(seed)
         } else {
             self.de.map_key = self.map_key.take();
-            let value = seed.deserialize(&mut *self.de)?;
+            let value = self.de.deserialize_item(seed)?;
             self.de.map_key = None;
             Ok(value)
         }
@@ -890,7 +906,7 @@ impl<'de, 'r> de::SeqAccess<'de> for SeqAccess<'de, 'r> {
                         if self.de.map_key != self.tag_name {
                             self.de.map_key = self.tag_name.clone();
                         }
-                        return Ok(Some(seed.deserialize(&mut *self.de)?));
+                        return Ok(Some(self.de.deserialize_item(seed)?));
                     }
                 },
                 SgmlEvent::Character(text) if text.is_empty() => self.de.advance()?,
-- 
2.43.0


From a0592dbbbff43399a4baa754507c6d836d1f263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:57 +0000
Subject: [PATCH 19/21] fix: take_until_terminated panics on delimiters with
 non-ASCII characters

---
 src/parser/util.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/util.rs b/src/parser/util.rs
index f059097..7953b5a 100644
--- a/src/parser/util.rs
+++ b/src/parser/util.rs
@@ -22,7 +22,9 @@ pub fn take_until_terminated<'a, E: ParseError<&'a str> + ContextError<&'a str>>
     let fail = move |input: &'a str| {
         // On multi-character delimiters, like "]]>", if a partial match occurs
         // (for example the input ends in "]]"), try to identify the largest partial match
-        let partial_delimiter_len = (1..delimiter.len())
+        let partial_delimiter_len = delimiter
+            .char_indices()
+            .map(|(prefix_len, _)| prefix_len)
             .rev()
             .find(|&prefix_len| input.ends_with(&delimiter[..prefix_len]))
             .unwrap_or(0);
@@ -31,7 +33,7 @@ pub fn take_until_terminated<'a, E: ParseError<&'a str> + ContextError<&'a str>>
             ctx,
             E::from_char(
                 &input[input.len()..],
-                delimiter.chars().nth(partial_delimiter_len).unwrap(),
+                delimiter[partial_delimiter_len..].chars().next().unwrap(),
             ),
         )))
     };
-- 
2.43.0


From d1991807fe812b2d0d84c0590e17b84efd34decc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:19 +0000
Subject: [PATCH 20/21] fix: text with an & that begins no reference could not
 be borrowed

---
 src/entities.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/entities.rs b/src/entities.rs
index fbc9354..cacda72 100644
--- a/src/entities.rs
+++ b/src/entities.rs
@@ -113,6 +113,7 @@ where
 
     let mut remainder = text;
     let mut out = String::new();
+    let mut expanded = false;
 
     while let Some(position) = remainder.find(prefix) {
         let (mid, candidate) = remainder.split_at(position);
@@ -128,10 +129,12 @@ where
                         .as_ref(),
                 );
                 remainder = after;
+                expanded = true;
             }
             Ok((after, EntityRef::Char(c))) => {
                 out.push(c);
                 remainder = after;
+                expanded = true;
             }
             Err(_) => {
                 out.push_str(prefix);
@@ -140,7 +143,8 @@ where
         }
     }
 
-    if remainder.len() == text.len() {
+    // Text where nothing was replaced is kept borrowed, even if the prefix was in it
+    if !expanded {
         return Ok(text.into());
     }
 
-- 
2.43.0


From c584610341179809baa8ea57cc01cc08f1055a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 21/21] fix: errors of section keywords pointed at an earlier
 keyword that begins with the refused one

---
 src/parser/events.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/events.rs b/src/parser/events.rs
index 078b98c..03562e9 100644
--- a/src/parser/events.rs
+++ b/src/parser/events.rs
@@ -105,10 +105,11 @@ where
         {
             Ok(status) => status,
             Err(keyword) => {
-                use nom::{FindSubstring, Slice};
+                use nom::{Offset, Slice};
                 let pos = raw_status_keywords
-                    .find_substring(keyword)
-                    .map(|pos| raw_status_keywords.slice(pos..))
+                    .split_ascii_whitespace()
+                    .find(|word| *word == keyword)
+                    .map(|word| raw_status_keywords.slice(raw_status_keywords.offset(word)..))
                     // There's no match if the keyword came from a parameter entity expansion
                     .unwrap_or(raw_status_keywords);
                 return Err(nom::Err::Failure(E::from_external_error(
-- 
2.43.0

