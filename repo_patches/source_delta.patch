From 7c1cd98d0cc803e78f1da220e5fbdb7367c8e582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:56 +0000
Subject: [PATCH 01/25] verif hooks: accessors for private parts, guarded by
 cfg(verif)

---
 src/bin/hun_law/fixup_editor.rs       |  9 +++++++
 src/identifier/article.rs             |  7 ++++++
 src/identifier/numeric.rs             | 11 +++++++++
 src/identifier/prefixed_alphabetic.rs | 11 +++++++++
 src/output/text.rs                    |  8 +++++++
 src/reference/mod.rs                  | 34 +++++++++++++++++++++++++++
 src/reference/unchecked.rs            | 23 ++++++++++++++++++
 src/util/indentedline.rs              |  7 ++++++
 8 files changed, 110 insertions(+)

diff --git a/src/bin/hun_law/fixup_editor.rs b/src/bin/hun_law/fixup_editor.rs
index b79ae26..dbffca5 100644
--- a/src/bin/hun_law/fixup_editor.rs
+++ b/src/bin/hun_law/fixup_editor.rs
@@ -138,6 +138,15 @@ fn update_fixups(
     Ok(())
 }
 
+#[cfg(verif)]
+pub fn verif_update_fixups(
+    fixups: &mut Fixups,
+    original_lines: Vec<String>,
+    new_lines: Vec<String>,
+) -> Result<()> {
+    update_fixups(fixups, original_lines, new_lines)
+}
+
 #[cfg(test)]
 mod tests {
     use hun_law::identifier::ActIdentifier;
diff --git a/src/identifier/article.rs b/src/identifier/article.rs
index 171416f..9f1043c 100644
--- a/src/identifier/article.rs
+++ b/src/identifier/article.rs
@@ -39,6 +39,13 @@ impl ArticleIdentifier {
     }
 }
 
+#[cfg(verif)]
+impl ArticleIdentifier {
+    pub fn verif_parts(&self) -> (Option<u8>, NumericIdentifier) {
+        (self.book, self.identifier)
+    }
+}
+
 impl IdentifierCommon for ArticleIdentifier {
     fn is_next_from(&self, other: Self) -> bool {
         match (self.book, other.book) {
diff --git a/src/identifier/numeric.rs b/src/identifier/numeric.rs
index 57fb40b..8933639 100644
--- a/src/identifier/numeric.rs
+++ b/src/identifier/numeric.rs
@@ -89,6 +89,17 @@ impl NumericIdentifier {
     }
 }
 
+#[cfg(verif)]
+impl NumericIdentifier {
+    pub fn verif_new(num: u16, suffix: Option<HungarianIdentifierChar>) -> Self {
+        Self { num, suffix }
+    }
+
+    pub fn verif_parts(&self) -> (u16, Option<HungarianIdentifierChar>) {
+        (self.num, self.suffix)
+    }
+}
+
 impl IdentifierCommon for NumericIdentifier {
     fn is_next_from(&self, other: Self) -> bool {
         match (self.suffix, other.suffix) {
diff --git a/src/identifier/prefixed_alphabetic.rs b/src/identifier/prefixed_alphabetic.rs
index 69dcf49..70196f3 100644
--- a/src/identifier/prefixed_alphabetic.rs
+++ b/src/identifier/prefixed_alphabetic.rs
@@ -43,6 +43,17 @@ impl PrefixedAlphabeticIdentifier {
     }
 }
 
+#[cfg(verif)]
+impl PrefixedAlphabeticIdentifier {
+    pub fn verif_new(prefix: Option<HungarianIdentifierChar>, chr: HungarianIdentifierChar) -> Self {
+        Self { prefix, chr }
+    }
+
+    pub fn verif_parts(&self) -> (Option<HungarianIdentifierChar>, HungarianIdentifierChar) {
+        (self.prefix, self.chr)
+    }
+}
+
 impl IdentifierCommon for PrefixedAlphabeticIdentifier {
     fn is_first(&self) -> bool {
         self.chr.is_first()
diff --git a/src/output/text.rs b/src/output/text.rs
index a31c9fd..da5b0cf 100644
--- a/src/output/text.rs
+++ b/src/output/text.rs
@@ -370,5 +370,13 @@ fn split_string_at_references<'a>(
     result
 }
 
+#[cfg(verif)]
+pub fn verif_split_string_at_references<'a>(
+    text: &'a str,
+    outgoing_refs: &[OutgoingReference],
+) -> Vec<(&'a str, bool)> {
+    split_string_at_references(text, outgoing_refs)
+}
+
 const BOLD: &str = "1";
 const ITALIC: &str = "3";
diff --git a/src/reference/mod.rs b/src/reference/mod.rs
index 312c0f7..108042e 100644
--- a/src/reference/mod.rs
+++ b/src/reference/mod.rs
@@ -334,6 +334,40 @@ impl Reference {
     }
 }
 
+/// All parts of a reference, from the act down to the subpoint
+#[cfg(verif)]
+pub type VerifReferenceParts = (
+    Option<ActIdentifier>,
+    Option<RefPartArticle>,
+    Option<RefPartParagraph>,
+    Option<RefPartPoint>,
+    Option<RefPartSubpoint>,
+);
+
+#[cfg(verif)]
+impl Reference {
+    /// Does NOT check the guarantees
+    pub fn verif_new(p: VerifReferenceParts) -> Self {
+        Self {
+            act: p.0,
+            article: p.1,
+            paragraph: p.2,
+            point: p.3,
+            subpoint: p.4,
+        }
+    }
+
+    pub fn verif_parts(&self) -> VerifReferenceParts {
+        (
+            self.act,
+            self.article,
+            self.paragraph,
+            self.point,
+            self.subpoint,
+        )
+    }
+}
+
 impl From<ActIdentifier> for Reference {
     fn from(act: ActIdentifier) -> Self {
         Reference {
diff --git a/src/reference/unchecked.rs b/src/reference/unchecked.rs
index 213c5d8..ff31668 100644
--- a/src/reference/unchecked.rs
+++ b/src/reference/unchecked.rs
@@ -93,6 +93,29 @@ impl UncheckedReference {
     }
 }
 
+#[cfg(verif)]
+impl UncheckedReference {
+    pub fn verif_new(p: super::VerifReferenceParts) -> Self {
+        Self {
+            act: p.0,
+            article: p.1,
+            paragraph: p.2,
+            point: p.3,
+            subpoint: p.4,
+        }
+    }
+
+    pub fn verif_parts(&self) -> super::VerifReferenceParts {
+        (
+            self.act,
+            self.article,
+            self.paragraph,
+            self.point,
+            self.subpoint,
+        )
+    }
+}
+
 impl From<Reference> for UncheckedReference {
     fn from(r: Reference) -> Self {
         Self {
diff --git a/src/util/indentedline.rs b/src/util/indentedline.rs
index 6263f72..4ad6661 100644
--- a/src/util/indentedline.rs
+++ b/src/util/indentedline.rs
@@ -255,6 +255,13 @@ impl IndentedLine {
     }
 }
 
+#[cfg(verif)]
+impl IndentedLine {
+    pub fn verif_parts(&self) -> &[IndentedLinePart] {
+        &self.parts
+    }
+}
+
 impl PartialEq for IndentedLine {
     fn eq(&self, other: &Self) -> bool {
         self.indent().eq(&other.indent())
-- 
2.43.0


From 6c6ae307dc7378174dbcffa00f61e78fc6c729af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:53 +0000
Subject: [PATCH 02/25] fix: identifier succession must not wrap around at the
 maximum

0 was considered to be the next identifier after 65535 (and book 0 the
next one after book 255).
---
 src/identifier/article.rs | 2 +-
 src/identifier/numeric.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/identifier/article.rs b/src/identifier/article.rs
index 9f1043c..fa399c8 100644
--- a/src/identifier/article.rs
+++ b/src/identifier/article.rs
@@ -51,7 +51,7 @@ impl IdentifierCommon for ArticleIdentifier {
         match (self.book, other.book) {
             (None, None) => self.identifier.is_next_from(other.identifier),
             (Some(bs), Some(bo)) if bs == bo => self.identifier.is_next_from(other.identifier),
-            (Some(bs), Some(bo)) if bs.wrapping_sub(bo) == 1 => self.identifier.is_first(),
+            (Some(bs), Some(bo)) if bo.checked_add(1) == Some(bs) => self.identifier.is_first(),
             _ => false,
         }
     }
diff --git a/src/identifier/numeric.rs b/src/identifier/numeric.rs
index 8933639..73291b0 100644
--- a/src/identifier/numeric.rs
+++ b/src/identifier/numeric.rs
@@ -103,7 +103,7 @@ impl NumericIdentifier {
 impl IdentifierCommon for NumericIdentifier {
     fn is_next_from(&self, other: Self) -> bool {
         match (self.suffix, other.suffix) {
-            (None, _) => self.num.wrapping_sub(other.num) == 1,
+            (None, _) => other.num.checked_add(1) == Some(self.num),
             (Some(ss), None) => self.num == other.num && ss.is_first(),
             (Some(ss), Some(so)) => self.num == other.num && ss.is_next_from(so),
         }
-- 
2.43.0


From 64fd615f75a26141893f14724ca5ea03998f1e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:53 +0000
Subject: [PATCH 03/25] fix: a reference with lower parts is not the parent of
 something it diverges from
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'1. § a)' was considered to be the parent of (and to contain) '1. § (2)',
because only the first differing level was checked.
---
 src/reference/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/reference/mod.rs b/src/reference/mod.rs
index 108042e..35e58ab 100644
--- a/src/reference/mod.rs
+++ b/src/reference/mod.rs
@@ -252,10 +252,13 @@ impl Reference {
             false
         } else if self.article != other.article {
             self.article.is_none()
+                && self.paragraph.is_none()
+                && self.point.is_none()
+                && self.subpoint.is_none()
         } else if self.paragraph != other.paragraph {
-            self.paragraph.is_none()
+            self.paragraph.is_none() && self.point.is_none() && self.subpoint.is_none()
         } else if self.point != other.point {
-            self.point.is_none()
+            self.point.is_none() && self.subpoint.is_none()
         } else if self.subpoint != other.subpoint {
             self.subpoint.is_none()
         } else {
-- 
2.43.0


From e94131384c5ae5cef26342642530b18557aed0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:06 +0000
Subject: [PATCH 04/25] fix: naming an act whose number has no roman form must
 not panic

---
 src/identifier/act.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/identifier/act.rs b/src/identifier/act.rs
index f71eb21..addb407 100644
--- a/src/identifier/act.rs
+++ b/src/identifier/act.rs
@@ -33,12 +33,11 @@ pub struct ActIdentifier {
 
 impl Display for ActIdentifier {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(
-            f,
-            "{:?}. évi {}. törvény",
-            self.year,
-            roman::to(self.number).unwrap()
-        )
+        match roman::to(self.number) {
+            Some(number) => write!(f, "{:?}. évi {number}. törvény", self.year),
+            // Not representable as a roman numeral
+            None => write!(f, "{:?}. évi {}. törvény", self.year, self.number),
+        }
     }
 }
 
-- 
2.43.0


From 544fa4287e844bdd918bf960e60d8d68d81a60f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:11 +0000
Subject: [PATCH 05/25] fix: slicing a line from its end must give an empty
 line, not panic

---
 src/util/indentedline.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/util/indentedline.rs b/src/util/indentedline.rs
index 4ad6661..8e9715c 100644
--- a/src/util/indentedline.rs
+++ b/src/util/indentedline.rs
@@ -125,21 +125,18 @@ impl IndentedLine {
     }
 
     pub fn slice_bytes(&self, from: usize, to: Option<usize>) -> IndentedLine {
-        let chars_from = self
-            .content()
-            .char_indices()
-            .position(|(cp, _)| cp == from)
-            .unwrap() as i64;
-        let chars_to = to.map(|to_inner| {
-            if to_inner >= self.content().as_bytes().len() {
+        let to_char_index = |byte_index: usize| {
+            if byte_index >= self.content().as_bytes().len() {
                 self.content().chars().count() as i64
             } else {
                 self.content()
                     .char_indices()
-                    .position(|(cp, _)| cp == to_inner)
+                    .position(|(cp, _)| cp == byte_index)
                     .unwrap() as i64
             }
-        });
+        };
+        let chars_from = to_char_index(from);
+        let chars_to = to.map(to_char_index);
         self.slice(chars_from, chars_to)
     }
 
-- 
2.43.0


From 3d776a9c5ea07a55cc9c564fb06e02aa7fc442ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:41 +0000
Subject: [PATCH 06/25] verif hooks: constructor for Fixups, guarded by
 cfg(verif)

---
 src/fixups.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fixups.rs b/src/fixups.rs
index ace4bfe..e38e756 100644
--- a/src/fixups.rs
+++ b/src/fixups.rs
@@ -88,6 +88,16 @@ impl Fixups {
     }
 }
 
+#[cfg(verif)]
+impl Fixups {
+    pub fn verif_new(fixups: Vec<Fixup>) -> Self {
+        Self {
+            fixups,
+            fixup_path: PathBuf::new(),
+        }
+    }
+}
+
 impl From<Fixups> for Vec<Fixup> {
     fn from(f: Fixups) -> Self {
         f.fixups
-- 
2.43.0


From 4f179d014c00ec310f8efa4353891475d7d489d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:48 +0000
Subject: [PATCH 07/25] fix: an act whose header comes after more than one
 empty line must not be lost

---
 src/parser/mk_act_section.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/mk_act_section.rs b/src/parser/mk_act_section.rs
index 3a3c9ce..85c0cd6 100644
--- a/src/parser/mk_act_section.rs
+++ b/src/parser/mk_act_section.rs
@@ -91,6 +91,9 @@ impl ActExtractor {
     }
 
     fn wait_for_header(&mut self, line: &IndentedLine) -> ActExtractionState {
+        if line.is_empty() {
+            return WaitingForHeader;
+        }
         if let Some((_, year_str, num_str)) = regex_captures!(
             "^([12][09][0-9][0-9]). évi ([IVXLC]+). törvény",
             line.content()
-- 
2.43.0


From 95d1016e97db968eeb63499996db0d9c03ad8e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:48 +0000
Subject: [PATCH 08/25] fix: an article that has only a title must not panic

---
 src/parser/structure/article.rs | 2 +-
 src/parser/structure/sae.rs     | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/structure/article.rs b/src/parser/structure/article.rs
index facfa47..decb5a0 100644
--- a/src/parser/structure/article.rs
+++ b/src/parser/structure/article.rs
@@ -102,7 +102,7 @@ impl ArticleParser {
         // amendment in 2013. évi CCLII. törvény 185. § (18)
         // There can only be at most 1 consecutive EMPTY_LINE because of previous
         // preprocessing in the PDF extractor.
-        if self.lines[0].is_empty() {
+        if self.lines.first().map_or(false, |l| l.is_empty()) {
             self.lines.remove(0);
         }
         let extracted = ParagraphParser.extract_multiple(
diff --git a/src/parser/structure/sae.rs b/src/parser/structure/sae.rs
index a17d1ec..4610558 100644
--- a/src/parser/structure/sae.rs
+++ b/src/parser/structure/sae.rs
@@ -172,6 +172,7 @@ pub trait SAEParser: Debug {
     where
         T: From<Vec<SubArticleElement<Self::IdentifierType, Self::ChildrenType>>>,
     {
+        ensure!(!lines.is_empty(), "No lines to parse for {self:?}");
         let (mut identifier, first_line_rest) = self
             .parse_header(&lines[0])
             .ok_or_else(|| anyhow!("Invalid header for {self:?}: '{}'", lines[0].content()))?;
-- 
2.43.0


From fbf579bf1308a818508a7d2a97eb79cba33ade82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:48 +0000
Subject: [PATCH 09/25] fix: a failed block amendment conversion must not lose
 the quoted block's intro

---
 src/parser/structure/block_amendment.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/parser/structure/block_amendment.rs b/src/parser/structure/block_amendment.rs
index 38d2aa7..90dbf91 100644
--- a/src/parser/structure/block_amendment.rs
+++ b/src/parser/structure/block_amendment.rs
@@ -77,25 +77,25 @@ impl Paragraph {
             if let Some(special_phrase) = &self.semantic_info.special_phrase {
                 match special_phrase {
                     SpecialPhrase::BlockAmendment(ba) => {
+                        // Do this first: the quoted block must stay intact if it fails.
+                        let amendment_children =
+                            convert_simple_block_amendment(&ba.position, &quoted_block.lines)
+                                .with_context(|| "Could not parse simple block amendment")?;
                         *children = BlockAmendment {
                             intro: std::mem::take(&mut quoted_block.intro),
-                            children: convert_simple_block_amendment(
-                                &ba.position,
-                                &quoted_block.lines,
-                            )
-                            .with_context(|| "Could not parse simple block amendment")?,
+                            children: amendment_children,
                             wrap_up: std::mem::take(&mut quoted_block.wrap_up),
                         }
                         .into()
                     }
                     SpecialPhrase::StructuralBlockAmendment(sba) => {
+                        // Do this first: the quoted block must stay intact if it fails.
+                        let amendment_children =
+                            convert_structural_block_amendment(&sba.position, &quoted_block.lines)
+                                .with_context(|| "Could not parse structural block amendment")?;
                         *children = StructuralBlockAmendment {
                             intro: std::mem::take(&mut quoted_block.intro),
-                            children: convert_structural_block_amendment(
-                                &sba.position,
-                                &quoted_block.lines,
-                            )
-                            .with_context(|| "Could not parse structural block amendment")?,
+                            children: amendment_children,
                             wrap_up: std::mem::take(&mut quoted_block.wrap_up),
                         }
                         .into()
-- 
2.43.0


From 58540f5573708883c60054fde22132a9f1b8c1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:48 +0000
Subject: [PATCH 10/25] fix: converting an empty quoted block must fail instead
 of panicking

---
 src/parser/structure/block_amendment.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/structure/block_amendment.rs b/src/parser/structure/block_amendment.rs
index 90dbf91..f4aa52f 100644
--- a/src/parser/structure/block_amendment.rs
+++ b/src/parser/structure/block_amendment.rs
@@ -112,6 +112,8 @@ fn convert_structural_block_amendment(
     position: &StructuralReference,
     lines: &[IndentedLine],
 ) -> Result<Vec<ActChild>> {
+    ensure!(!lines.is_empty());
+
     if let StructuralReferenceElement::Article(article_id) = position.structural_element {
         convert_articles(article_id.first_in_range(), lines)
     } else if position.title_only {
-- 
2.43.0


From 155621119e61bb8cb4d7fe96729d53a8bc9e6aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:49 +0000
Subject: [PATCH 11/25] fix: article headers inside a nested quote must not
 start a new article

---
 src/parser/structure/block_amendment.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parser/structure/block_amendment.rs b/src/parser/structure/block_amendment.rs
index f4aa52f..301ff34 100644
--- a/src/parser/structure/block_amendment.rs
+++ b/src/parser/structure/block_amendment.rs
@@ -38,7 +38,7 @@ use crate::{
         Act, ActChild, Article, BlockAmendment, BlockAmendmentChildren, Paragraph,
         ParagraphChildren, SAEBody, StructuralBlockAmendment, StructuralElementType,
     },
-    util::{debug::WithElemContext, indentedline::IndentedLine},
+    util::{debug::WithElemContext, indentedline::IndentedLine, QuoteCheck},
 };
 
 impl Act {
@@ -190,14 +190,23 @@ fn convert_articles(first_id: ArticleIdentifier, lines: &[IndentedLine]) -> Resu
         .with_context(|| {
             anyhow!("First line of amendment could not be parsed into an article header",)
         })?;
+    let mut quote_checker = QuoteCheck::default();
+    quote_checker.update(&lines[0])?;
     for line in &lines[1..] {
-        if let Ok(new_parser) = factory.try_create_from_header(line, None) {
+        quote_checker.update(line)?;
+        let new_parser = if quote_checker.beginning_is_quoted {
+            None
+        } else {
+            factory.try_create_from_header(line, None).ok()
+        };
+        if let Some(new_parser) = new_parser {
             result.push(parser.finish()?.into());
             parser = new_parser;
         } else {
             parser.feed_line(line);
         }
     }
+    quote_checker.check_end()?;
     result.push(parser.finish()?.into());
     Ok(result)
 }
-- 
2.43.0


From 42006705aeb3f4331fff454f94b472b419b0807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:49 +0000
Subject: [PATCH 12/25] fix: text output must not panic when the indentation is
 wider than the page

---
 src/output/text.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/output/text.rs b/src/output/text.rs
index da5b0cf..17b32c7 100644
--- a/src/output/text.rs
+++ b/src/output/text.rs
@@ -303,7 +303,8 @@ impl TextOutputParams {
     }
 
     fn write_wrapped_line(&mut self, writer: &mut impl Write, text: &str) -> Result<()> {
-        for line in textwrap::wrap(text, self.width - self.indentation_level * 5) {
+        let width = self.width.saturating_sub(self.indentation_level * 5);
+        for line in textwrap::wrap(text, width) {
             self.write_indent_if_needed(writer)?;
             writer.write_all(line.as_bytes())?;
             self.write_newline(writer)?;
-- 
2.43.0


From 89208a059377e9086fb4fc0d87d5ffb81ead094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:49 +0000
Subject: [PATCH 13/25] fix: an editor that trims trailing spaces must not make
 the fixup editor panic

---
 src/bin/hun_law/fixup_editor.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bin/hun_law/fixup_editor.rs b/src/bin/hun_law/fixup_editor.rs
index dbffca5..ca9fc6c 100644
--- a/src/bin/hun_law/fixup_editor.rs
+++ b/src/bin/hun_law/fixup_editor.rs
@@ -73,7 +73,11 @@ pub fn run_fixup_editor(act: &ActRawText, editor: &str) -> Result<()> {
         .iter()
         .map(|l| l.content().trim().to_owned())
         .collect();
-    let new_lines = contents.lines().map(|l| l[5..].trim().to_owned()).collect();
+    // Empty lines may be shorter than the prefix, if the editor trims trailing spaces
+    let new_lines = contents
+        .lines()
+        .map(|l| l.get(5..).unwrap_or("").trim().to_owned())
+        .collect();
     let mut fixups = Fixups::load(act.identifier)?;
     update_fixups(&mut fixups, old_lines, new_lines)?;
     fixups.save()?;
-- 
2.43.0


From 4e8fa1d94d86d76acef9c292c66852a6d710b7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:08 +0000
Subject: [PATCH 14/25] verif hooks: reach the structure parsers, guarded by
 cfg(verif)

---
 src/parser/structure/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser/structure/mod.rs b/src/parser/structure/mod.rs
index 5036883..7431831 100644
--- a/src/parser/structure/mod.rs
+++ b/src/parser/structure/mod.rs
@@ -22,3 +22,13 @@ mod structural_element;
 mod subtitle;
 
 pub use act::parse_act_structure;
+
+#[cfg(verif)]
+pub mod verif {
+    pub use super::{
+        act::{parse_complex_body, ParsingContext},
+        article::{ArticleParser, ArticleParserFactory},
+        quote::QuotedBlockParser,
+        sae::*,
+    };
+}
-- 
2.43.0


From 41891f52a848b139556916c97cc42b21cdd622e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:30 +0000
Subject: [PATCH 15/25] fix: let later character mappings of a font override
 earlier string ones

---
 src/parser/pdf/font.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/pdf/font.rs b/src/parser/pdf/font.rs
index 1d0fc34..3407cc1 100644
--- a/src/parser/pdf/font.rs
+++ b/src/parser/pdf/font.rs
@@ -132,6 +132,8 @@ impl FastFont {
             self.cmap.resize(cid as usize + 1, '\u{0}');
         }
         self.cmap[cid as usize] = s.chars().next().unwrap();
+        // A previous mapping to a string would take precedence
+        self.smap.remove(&cid);
     }
 
     pub fn to_unicode(&self, cid: u32) -> ToUnicodeResult {
-- 
2.43.0


From 9dc18d9c1025f819dffc85dbcda5107952f78126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:30 +0000
Subject: [PATCH 16/25] fix: map character code 255 of single byte fonts

---
 src/parser/pdf/font.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/pdf/font.rs b/src/parser/pdf/font.rs
index 3407cc1..66c51ca 100644
--- a/src/parser/pdf/font.rs
+++ b/src/parser/pdf/font.rs
@@ -80,7 +80,7 @@ impl FastFont {
             BaseEncoding::MacRomanEncoding => self.process_base_encoding(&pdf_encoding::MACROMAN),
             BaseEncoding::WinAnsiEncoding => {
                 let mut tmp = [0u8; 4];
-                for cid in 0..255 {
+                for cid in 0..=255 {
                     if let Some(c) = pdf_encoding::WINANSI.get(cid) {
                         self.add_mapping(cid as u32, c.encode_utf8(&mut tmp));
                     } else if cid > 30 {
@@ -110,7 +110,7 @@ impl FastFont {
 
     fn process_base_encoding(&mut self, map: &pdf_encoding::ForwardMap) {
         let mut tmp = [0u8; 4];
-        for cid in 0..255 {
+        for cid in 0..=255 {
             if let Some(c) = map.get(cid) {
                 self.add_mapping(cid as u32, c.encode_utf8(&mut tmp));
             }
-- 
2.43.0


From a82b92a64b59ea5cb1ed660c13dd64bbd15e0bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:35 +0000
Subject: [PATCH 17/25] fix: identify cached fonts by their object number, not
 their transient address

---
 src/parser/pdf/font.rs | 14 +++++++++-----
 src/parser/pdf/page.rs |  4 ++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/parser/pdf/font.rs b/src/parser/pdf/font.rs
index 66c51ca..692f350 100644
--- a/src/parser/pdf/font.rs
+++ b/src/parser/pdf/font.rs
@@ -23,7 +23,7 @@ use anyhow::{anyhow, bail, Result};
 use pdf::{
     encoding::{BaseEncoding, Encoding as PdfEncoding},
     font::{Font, FontData, ToUnicodeMap, Widths},
-    object::Resolve,
+    object::{MaybeRef, PlainRef, Resolve},
 };
 use pdf_encoding::glyphname_to_unicode;
 
@@ -157,13 +157,17 @@ impl FastFont {
 
 #[derive(Debug, Default)]
 pub struct FontCache {
-    cache: HashMap<usize, Rc<FastFont>>,
+    cache: HashMap<PlainRef, Rc<FastFont>>,
 }
 
 impl FontCache {
-    pub fn get(&mut self, font: &Font, resolve: &impl Resolve) -> Result<Rc<FastFont>> {
-        let entry = self.cache.entry(font as *const Font as usize);
-        Ok(match entry {
+    pub fn get(&mut self, font: &MaybeRef<Font>, resolve: &impl Resolve) -> Result<Rc<FastFont>> {
+        let font_ref = match font.as_ref() {
+            Some(font_ref) => font_ref.get_inner(),
+            // Direct objects cannot be identified across calls
+            None => return Ok(Rc::new(FastFont::convert(font, resolve)?)),
+        };
+        Ok(match self.cache.entry(font_ref) {
             hash_map::Entry::Occupied(e) => e.get().clone(),
             hash_map::Entry::Vacant(e) => {
                 let fast_font = Rc::new(FastFont::convert(font, resolve)?);
diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index 71b0b6e..f58cbfe 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -130,7 +130,7 @@ where
         Ok(())
     }
 
-    fn set_font(&mut self, font: &Font, size: f32) -> Result<()> {
+    fn set_font(&mut self, font: &MaybeRef<Font>, size: f32) -> Result<()> {
         let fast_font = self.font_cache.get(font, self.pdf_file)?;
         self.collector.font_changed(&fast_font)?;
         self.state.font = Some(fast_font);
@@ -216,7 +216,7 @@ where
                     .ok_or_else(|| anyhow!("Did not find graphics state resource"))?
                     .font
                 {
-                    self.set_font(&*self.pdf_file.get(font_ref)?, size)?;
+                    self.set_font(&MaybeRef::Indirect(self.pdf_file.get(font_ref)?), size)?;
                 }
             }
             Op::TextFont { name, size } => {
-- 
2.43.0


From 39c621340e2a12e8761772af424f4494a9fe2d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:12 +0000
Subject: [PATCH 18/25] fix: restore the boldness and space width of the font
 with the graphics state

---
 src/parser/pdf/page.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index f58cbfe..9dd520e 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -165,11 +165,19 @@ where
         }
 
         // Load back the stuff
+        self.restore_state()?;
+        self.resources = saved_resources;
+        Ok(())
+    }
+
+    fn restore_state(&mut self) -> Result<()> {
         self.state = self
             .state_stack
             .pop()
-            .ok_or_else(|| anyhow!("State stack empty after Form rendering"))?;
-        self.resources = saved_resources;
+            .ok_or_else(|| anyhow!("State stack empty"))?;
+        if let Some(font) = &self.state.font {
+            self.collector.font_changed(font)?;
+        }
         Ok(())
     }
 
@@ -200,12 +208,7 @@ where
 
             // --- State stack ---
             Op::Save => self.state_stack.push(self.state.clone()),
-            Op::Restore => {
-                self.state = self
-                    .state_stack
-                    .pop()
-                    .ok_or_else(|| anyhow!("State stack empty"))?
-            }
+            Op::Restore => self.restore_state()?,
 
             // --- Font stuff ---
             Op::GraphicsState { name } => {
-- 
2.43.0


From 53c882555c0f9e425a637c93b22182be5b91ea98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:45 +0000
Subject: [PATCH 19/25] verif hooks: compile each hook only for the checks that
 use it

---
 src/fixups.rs               | 2 +-
 src/output/text.rs          | 2 +-
 src/parser/structure/mod.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fixups.rs b/src/fixups.rs
index e38e756..4a4cc8e 100644
--- a/src/fixups.rs
+++ b/src/fixups.rs
@@ -88,7 +88,7 @@ impl Fixups {
     }
 }
 
-#[cfg(verif)]
+#[cfg(all(verif, any(feature = "p12", feature = "p13")))]
 impl Fixups {
     pub fn verif_new(fixups: Vec<Fixup>) -> Self {
         Self {
diff --git a/src/output/text.rs b/src/output/text.rs
index 17b32c7..c5ab87e 100644
--- a/src/output/text.rs
+++ b/src/output/text.rs
@@ -371,7 +371,7 @@ fn split_string_at_references<'a>(
     result
 }
 
-#[cfg(verif)]
+#[cfg(all(verif, feature = "p20"))]
 pub fn verif_split_string_at_references<'a>(
     text: &'a str,
     outgoing_refs: &[OutgoingReference],
diff --git a/src/parser/structure/mod.rs b/src/parser/structure/mod.rs
index 7431831..3df6b64 100644
--- a/src/parser/structure/mod.rs
+++ b/src/parser/structure/mod.rs
@@ -23,7 +23,7 @@ mod subtitle;
 
 pub use act::parse_act_structure;
 
-#[cfg(verif)]
+#[cfg(all(verif, feature = "p16"))]
 pub mod verif {
     pub use super::{
         act::{parse_complex_body, ParsingContext},
-- 
2.43.0


From 853dc4992533ffc6852d23ec6c9379cdf222a016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:37 +0000
Subject: [PATCH 20/25] fix: never leave a partially written gazette issue in
 the cache

A failed or interrupted write left a truncated file in the cache, which was
returned as the issue from then on.
---
 src/mk_downloader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mk_downloader.rs b/src/mk_downloader.rs
index b43ae89..9b56f50 100644
--- a/src/mk_downloader.rs
+++ b/src/mk_downloader.rs
@@ -77,6 +77,9 @@ pub fn download_mk_issue(issue: &MkIssue, cache_dir: &Path) -> Result<Vec<u8>> {
     if let Some(file_dir) = file_path.parent() {
         fs::create_dir_all(file_dir)?;
     }
-    fs::write(file_path, &http_body)?;
+    // Never leave a partially written file at the final path: it would be served as cached later
+    let temp_path = file_path.with_extension(format!("{}.part", std::process::id()));
+    fs::write(&temp_path, &http_body)?;
+    fs::rename(temp_path, file_path)?;
     Ok(http_body)
 }
-- 
2.43.0


From 4d860cdbffee6e89530b45f626ab4683427ec948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:30 +0000
Subject: [PATCH 21/25] fix: a failed save does not destroy the fixups saved
 before

The file was truncated first; a full disk or an interrupted save lost all the
fixups of the act.
---
 src/fixups.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fixups.rs b/src/fixups.rs
index 4a4cc8e..5e1c847 100644
--- a/src/fixups.rs
+++ b/src/fixups.rs
@@ -15,7 +15,7 @@
 // along with Hun-law. If not, see <http://www.gnu.org/licenses/>.
 
 use std::{
-    fs::{create_dir_all, File},
+    fs::{create_dir_all, rename, File},
     path::PathBuf,
 };
 
@@ -76,7 +76,12 @@ impl Fixups {
                 .parent()
                 .ok_or_else(|| anyhow!("No parent for fixup_path"))?,
         )?;
-        singleton_yaml::to_writer(&mut File::create(&self.fixup_path)?, &self.fixups)?;
+        // Keep the already saved fixups until the new ones are written completely
+        let temp_path = self
+            .fixup_path
+            .with_extension(format!("{}.part", std::process::id()));
+        singleton_yaml::to_writer(&mut File::create(&temp_path)?, &self.fixups)?;
+        rename(temp_path, &self.fixup_path)?;
         Ok(())
     }
 
-- 
2.43.0


From 92ea8e8638ecc45df01f0799ecc45d2836919b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:11 +0000
Subject: [PATCH 22/25] verif hooks: fewer, and each only where it is used

---
 src/bin/hun_law/fixup_editor.rs |  2 +-
 src/fixups.rs                   | 10 ----------
 2 files changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/bin/hun_law/fixup_editor.rs b/src/bin/hun_law/fixup_editor.rs
index ca9fc6c..3d39aaf 100644
--- a/src/bin/hun_law/fixup_editor.rs
+++ b/src/bin/hun_law/fixup_editor.rs
@@ -142,7 +142,7 @@ fn update_fixups(
     Ok(())
 }
 
-#[cfg(verif)]
+#[cfg(all(verif, feature = "p13"))]
 pub fn verif_update_fixups(
     fixups: &mut Fixups,
     original_lines: Vec<String>,
diff --git a/src/fixups.rs b/src/fixups.rs
index 5e1c847..ac9a8d6 100644
--- a/src/fixups.rs
+++ b/src/fixups.rs
@@ -93,16 +93,6 @@ impl Fixups {
     }
 }
 
-#[cfg(all(verif, any(feature = "p12", feature = "p13")))]
-impl Fixups {
-    pub fn verif_new(fixups: Vec<Fixup>) -> Self {
-        Self {
-            fixups,
-            fixup_path: PathBuf::new(),
-        }
-    }
-}
-
 impl From<Fixups> for Vec<Fixup> {
     fn from(f: Fixups) -> Self {
         f.fixups
-- 
2.43.0


From e3be319d6a923542f6b367f14d307732ea60fce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:02 +0000
Subject: [PATCH 23/25] fix: an abbreviation that is the beginning of another
 one does not hide it
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

With both "Kt." and "Kt. vhr." known, "a Kt. vhr. 5. §-a" was a reference to the
Kt. only, and the article was taken for one of the act itself.
---
 hun_law_grammar/src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hun_law_grammar/src/lib.rs b/hun_law_grammar/src/lib.rs
index 6f6b7b4..031867a 100644
--- a/hun_law_grammar/src/lib.rs
+++ b/hun_law_grammar/src/lib.rs
@@ -43,10 +43,12 @@ pub fn parse_abbreviation(
     s: &str,
     state: &mut CustomParseState,
 ) -> Result<(String, usize), &'static str> {
-    for known_abbrev in &state.known_abbreviations {
-        if s.starts_with(known_abbrev) {
-            return Ok((known_abbrev.clone(), known_abbrev.len()));
-        }
-    }
-    Err("Not a known abbreviation")
+    // One abbreviation may be the beginning of another one ("Kt." and "Kt. vhr.")
+    state
+        .known_abbreviations
+        .iter()
+        .filter(|known_abbrev| s.starts_with(known_abbrev.as_str()))
+        .max_by_key(|known_abbrev| known_abbrev.len())
+        .map(|known_abbrev| (known_abbrev.clone(), known_abbrev.len()))
+        .ok_or("Not a known abbreviation")
 }
-- 
2.43.0


From 01c0cb28a291affc8d6d94701350be818811fb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:02 +0000
Subject: [PATCH 24/25] =?UTF-8?q?fix:=20recognize=20the=20insertion=20of?=
 =?UTF-8?q?=20a=20Part=20("a=20k=C3=B6vetkez=C5=91=20M=C3=A1sodik=20r?=
 =?UTF-8?q?=C3=A9sszel")?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The suffixed form doubles the consonant, so "rész" was not found in it.
---
 hun_law_grammar/grammar.ebnf | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hun_law_grammar/grammar.ebnf b/hun_law_grammar/grammar.ebnf
index 69e1c4b..b54cea8 100644
--- a/hun_law_grammar/grammar.ebnf
+++ b/hun_law_grammar/grammar.ebnf
@@ -199,7 +199,7 @@ ChapterSuffix = ("fejezet" | "Fejezet" | "FEJEZET") {HunAny};
 
 PartReference = id:HungarianOrdinalCapital PartSuffix;
 @no_skip_ws
-PartSuffix = ("rész" | "Rész" | "RÉSZ") {HunAny};
+PartSuffix = ("rész" | "Rész" | "RÉSZ" | "réssz" | "Réssz" | "RÉSSZ") {HunAny};
 
 @string
 TitleId = Roman [["/"] 'A'..'Z'];
-- 
2.43.0


From fcaf3b8cc9d123d90029e6a51a7b09a7f4cd559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:02 +0000
Subject: [PATCH 25/25] fix: a reference at the end of a text without a period
 ends inside the text

A period is added to such a text before it is parsed, and a reference ending in
"tv." could end after the end of the text.
---
 src/parser/semantic_info/sae.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/semantic_info/sae.rs b/src/parser/semantic_info/sae.rs
index fe8e3f4..3c6070f 100644
--- a/src/parser/semantic_info/sae.rs
+++ b/src/parser/semantic_info/sae.rs
@@ -136,6 +136,11 @@ impl<'a> SemanticInfoAdder<'a> {
             .filter_map(|oref| {
                 adjust_outgoing_reference(self.prefix().len(), s.len() - self.postfix().len(), oref)
             })
+            // The final period may not have been in the text at all
+            .map(|oref| OutgoingReference {
+                end: oref.end.min(middle.len()),
+                ..oref
+            })
             .collect();
 
         let special_phrase = extract_special_phrase(self.abbreviation_cache, &parsed)
-- 
2.43.0

