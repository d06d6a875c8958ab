From 34da731fe5068f455c978ca0da7fa1a3fc64bb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 01/28] fix: heading that ends in a line with only a marker

A final marker without a line break was kept as text, and one with a
line break left a softbreak at the end of the heading.
---
 src/block.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index cf43e85..60a7b1b 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -347,7 +347,7 @@ impl<'s> TreeParser<'s> {
                         let l = &l[hash..];
                         let post_ws = l.iter().take_while(|c| c.is_ascii_whitespace()).count();
                         let l = &l[post_ws..];
-                        if post_ws > 0 {
+                        if post_ws > 0 || (hash > 0 && l.is_empty()) {
                             debug_assert_eq!(level, hash);
                             line.start += line.len() - l.len();
                         }
@@ -526,9 +526,11 @@ impl<'s> TreeParser<'s> {
             }
 
             // trim ending whitespace of block
-            let l = lines.len();
-            if l > 0 {
-                lines[l - 1] = self.trim_end(lines[l - 1].clone());
+            for line in lines.iter_mut().rev() {
+                *line = self.trim_end(line.clone());
+                if !line.is_empty() {
+                    break;
+                }
             }
         }
 
-- 
2.43.0


From 02ff60d48744da0a955c9f8d31e82a8aaf6337df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 02/28] fix: panic on heading marker of more than 65535
 characters

---
 src/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index 60a7b1b..bee5fd7 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -425,7 +425,7 @@ impl<'s> TreeParser<'s> {
                 Kind::Atom(a) => Block::Atom(a),
                 Kind::Paragraph => Block::Leaf(Paragraph),
                 Kind::Heading { level } => Block::Leaf(Heading {
-                    level: level.try_into().unwrap(),
+                    level: level.try_into().unwrap_or(u16::MAX),
                     has_section: top_level,
                     pos: span_start.start as u32,
                 }),
-- 
2.43.0


From e35bb298c883a2c2f469783ce88a5c4ce72aa3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 03/28] fix: indentation of first line in indented div

It was not removed, unlike for all other lines.
---
 src/block.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index bee5fd7..b9e4bf8 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -588,7 +588,9 @@ impl<'s> TreeParser<'s> {
         lines: &mut [std::ops::Range<usize>],
     ) {
         // update spans, remove indentation / container prefix
-        lines.iter_mut().skip(1).for_each(|sp| {
+        // (the first line of a div is already its content, the fence is not included)
+        let first = usize::from(!matches!(k, Kind::Fenced { .. }));
+        lines.iter_mut().skip(first).for_each(|sp| {
             let src = &self.src[sp.clone()];
             let src_t = src.trim_matches(|c: char| c.is_ascii_whitespace());
             let whitespace = src_t.as_ptr() as usize - src.as_ptr() as usize;
-- 
2.43.0


From 368edfd90113b169b964891383c09dc317654cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 04/28] fix: indentation of blank lines of code in containers

The indentation of the container was not removed from lines with only
whitespace, so it ended up in nested code blocks.
---
 src/block.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index b9e4bf8..e92cf16 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -593,7 +593,10 @@ impl<'s> TreeParser<'s> {
         lines.iter_mut().skip(first).for_each(|sp| {
             let src = &self.src[sp.clone()];
             let src_t = src.trim_matches(|c: char| c.is_ascii_whitespace());
-            let whitespace = src_t.as_ptr() as usize - src.as_ptr() as usize;
+            let whitespace = src.len()
+                - src
+                    .trim_start_matches(|c: char| c.is_ascii_whitespace())
+                    .len();
             let skip = match k {
                 Kind::Blockquote => {
                     if src_t == ">" {
-- 
2.43.0


From 560c9c52e8e2a872de7a5ecf4f1f1ad53ea79455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 05/28] fix: indentation included in range of definition

---
 src/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index e92cf16..8e05f04 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -1033,7 +1033,7 @@ impl<'s> IdentifiedBlock<'s> {
                             label: &label[usize::from(footnote)..],
                             last_blankline: false,
                         },
-                        0..(indent + 3 + l),
+                        indent..(indent + 3 + l),
                     ))
                 } else {
                     None
-- 
2.43.0


From 0f48c3495ff74a3bbe4d5b741505c7ac7ea8079b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 06/28] fix: recognition of table rows

A line was taken as a row if it starts and ends with a pipe, but the last
pipe may be inside unclosed verbatim, so that all text from there was
lost, or be preceded by an escaped backslash. In addition, a single pipe
after a row was taken as a separator line without cells.
---
 src/block.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 8e05f04..ac079a4 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -1010,7 +1010,7 @@ impl<'s> IdentifiedBlock<'s> {
                 (attr::valid(line) == lt).then(|| (Kind::Atom(Attributes), indent..(indent + l)))
             }
             '|' => {
-                if lt >= 2 && line_t.ends_with('|') && !line_t.ends_with("\\|") {
+                if is_table_row(line_t) {
                     Some((
                         Kind::Table {
                             caption: false,
@@ -1304,16 +1304,37 @@ impl<'s> Kind<'s> {
                     *caption = true;
                     true
                 } else {
-                    !*blankline
-                        && (line_t.starts_with('|')
-                            && line_t.ends_with('|')
-                            && !line_t.ends_with("\\|"))
+                    !*blankline && is_table_row(line_t)
                 }
             }
         }
     }
 }
 
+/// Determine if a line, without surrounding whitespace, is a table row, i.e. if it consists of cells
+/// that each end with a pipe which is neither escaped nor inside verbatim.
+fn is_table_row(line: &str) -> bool {
+    let Some(cells) = line.strip_prefix('|').filter(|l| l.ends_with('|')) else {
+        return false;
+    };
+    let mut lex = lex::Lexer::new(cells.as_bytes());
+    let mut verbatim = None;
+    let mut complete = false;
+    while let Some(lex::Token { kind, len }) = lex.next() {
+        complete = verbatim.is_none() && matches!(kind, lex::Kind::Sym(lex::Symbol::Pipe));
+        if matches!(kind, lex::Kind::Seq(lex::Sequence::Backtick)) {
+            if verbatim.is_none() {
+                lex.verbatim = true;
+                verbatim = Some(len);
+            } else if verbatim == Some(len) {
+                lex.verbatim = false;
+                verbatim = None;
+            }
+        }
+    }
+    complete
+}
+
 /// Similar to `std::str::split('\n')` but newline is included and spans are used instead of `str`.
 fn lines(src: &str) -> impl Iterator<Item = std::ops::Range<usize>> + '_ {
     let mut chars = src.chars();
-- 
2.43.0


From 50adaf8252286da025e1bf7f43eb97f4b72a96ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 07/28] fix: indentation of table captions

Whitespace at the start of caption lines was kept, unlike for the lines
of all other blocks.
---
 src/block.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/block.rs b/src/block.rs
index ac079a4..17ed946 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -734,6 +734,9 @@ impl<'s> TreeParser<'s> {
                 self.enter(Node::Leaf(Caption), span_start.clone());
                 lines[caption_line] = self.trim_start(lines[caption_line].clone());
                 lines[caption_line].start += 2;
+                for line in &mut lines[caption_line..] {
+                    *line = self.trim_start(line.clone());
+                }
                 lines[lines.len() - 1] = self.trim_end(lines[lines.len() - 1].clone());
                 for line in &lines[caption_line..] {
                     self.inline(line.clone());
-- 
2.43.0


From fddde7a3d82c184b94f517e7127f1e0adae4d2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 08/28] fix: backslashes in multi-line attribute values

A line that ends in a backslash was dropped from the value, and escapes
had no effect after the first line.
---
 src/attr.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/attr.rs b/src/attr.rs
index e56773e..a15aa35 100644
--- a/src/attr.rs
+++ b/src/attr.rs
@@ -746,8 +746,14 @@ impl<'s> Parser<'s> {
 
             let st = std::mem::replace(&mut self.state, state_next);
 
-            if st != self.state && !matches!((st, self.state), (ValueEscape, _) | (_, ValueEscape))
-            {
+            let within_value = matches!(
+                (st, self.state),
+                (ValueQuoted, ValueEscape)
+                    | (ValueEscape, ValueQuoted)
+                    | (ValueContinued, ValueContinuedEscape)
+                    | (ValueContinuedEscape, ValueContinued)
+            );
+            if st != self.state && !within_value {
                 let content = &input[pos_prev..pos];
                 pos_prev = pos;
                 match st {
@@ -759,11 +765,10 @@ impl<'s> Parser<'s> {
                         },
                         "".into(),
                     )),
-                    Value | ValueQuoted | ValueContinued => {
+                    Value | ValueQuoted | ValueEscape | ValueContinued | ValueContinuedEscape => {
                         let last = self.attrs.len() - 1;
-                        self.attrs.0[last]
-                            .1
-                            .extend(&content[usize::from(matches!(st, ValueQuoted))..]);
+                        let quote = usize::from(matches!(st, ValueQuoted | ValueEscape));
+                        self.attrs.0[last].1.extend(&content[quote..]);
                     }
                     Comment | CommentNewline => {
                         let last = self.attrs.len() - 1;
@@ -815,6 +820,7 @@ enum State {
     ValueEscape,
     ValueNewline,
     ValueContinued,
+    ValueContinuedEscape,
     Done,
     Invalid,
 }
@@ -854,10 +860,15 @@ impl State {
             ValueFirst if c == b'"' => ValueQuoted,
             ValueFirst => Invalid,
             ValueQuoted | ValueNewline | ValueContinued if c == b'"' => Whitespace,
-            ValueQuoted | ValueNewline | ValueContinued | ValueEscape if c == b'\n' => ValueNewline,
+            ValueQuoted | ValueNewline | ValueContinued | ValueEscape | ValueContinuedEscape
+                if c == b'\n' =>
+            {
+                ValueNewline
+            }
             ValueQuoted if c == b'\\' => ValueEscape,
             ValueQuoted | ValueEscape => ValueQuoted,
-            ValueNewline | ValueContinued => ValueContinued,
+            ValueNewline | ValueContinued if c == b'\\' => ValueContinuedEscape,
+            ValueNewline | ValueContinued | ValueContinuedEscape => ValueContinued,
             Invalid | Done => panic!("{self:?}"),
         }
     }
-- 
2.43.0


From 3e990f97a449a5dcaee280de81648fa4fa530486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 09/28] fix: escape directly after inline verbatim

The token after the closing delimiter was still lexed as verbatim, so
that a backslash did not escape the next character.
---
 src/inline.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/inline.rs b/src/inline.rs
index c09f477..4f86f17 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -308,6 +308,8 @@ impl<'s> Parser<'s> {
             if usize::from(len_opener) == first.len
                 && matches!(first.kind, lex::Kind::Seq(Sequence::Backtick))
             {
+                // what follows is not verbatim, it has to be set before looking ahead
+                self.input.lexer.verbatim = false;
                 let raw_format = self.input.ahead_raw_format();
                 if let Some(span_format) = raw_format.clone() {
                     self.events[event_opener].kind = EventKind::Enter(RawFormat {
@@ -327,7 +329,6 @@ impl<'s> Parser<'s> {
                     self.events.drain(*event_skip..);
                 }
                 self.push(EventKind::Exit(ty_opener));
-                self.input.lexer.verbatim = false;
                 self.verbatim = None;
                 if raw_format.is_none()
                     && self
-- 
2.43.0


From 6df14a1ccb3f57ac193428caebdec6ea6fe198b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:51 +0000
Subject: [PATCH 10/28] fix: backslash on continuation line of inline verbatim

Only the first line was lexed as verbatim, so that a backslash in front
of the closing delimiter on another line kept it from closing.
---
 src/inline.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/inline.rs b/src/inline.rs
index 4f86f17..09352ea 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -118,7 +118,9 @@ impl<'s> Input<'s> {
     }
 
     fn set_current_line(&mut self, line: std::ops::Range<usize>) {
+        let verbatim = self.lexer.verbatim;
         self.lexer = lex::Lexer::new(&self.src.as_bytes()[line.clone()]);
+        self.lexer.verbatim = verbatim;
         self.span = line.start..line.start;
         self.span_line = line;
     }
-- 
2.43.0


From c969b45b439a56e5a207e57856724ca8cfee337b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 11/28] fix: math after an escaped backslash

The backslash was taken to escape the dollar sign even if it is itself
escaped.
---
 src/inline.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index 09352ea..2c40169 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -147,6 +147,16 @@ impl<'s> Input<'s> {
         self.lexer.peek()
     }
 
+    /// Determine if character at position is preceded by a backslash that is not itself escaped.
+    fn is_escaped(&self, pos: usize) -> bool {
+        let backslashes = self.src.as_bytes()[..pos]
+            .iter()
+            .rev()
+            .take_while(|c| **c == b'\\')
+            .count();
+        backslashes % 2 == 1
+    }
+
     fn reset_span(&mut self) {
         self.span.start = self.span.end;
     }
@@ -379,17 +389,11 @@ impl<'s> Parser<'s> {
                 .filter(|sp| {
                     sp.end == self.input.span.start
                         && self.input.src.as_bytes()[sp.start + sp.len() - 1] == b'$'
-                        && sp
-                            .end
-                            .checked_sub(2)
-                            .is_none_or(|i| self.input.src.as_bytes()[i] != b'\\')
+                        && !self.input.is_escaped(sp.end - 1)
                 }) {
                 let (ty, num_dollar) = if sp.len() > 1
                     && self.input.src.as_bytes()[sp.start + sp.len() - 2] == b'$'
-                    && sp
-                        .end
-                        .checked_sub(3)
-                        .is_none_or(|i| self.input.src.as_bytes()[i] != b'\\')
+                    && !self.input.is_escaped(sp.end - 2)
                 {
                     (DisplayMath, 2)
                 } else {
-- 
2.43.0


From 95decf5bc9a4e3f23fcab77ffb2815988c4bc7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 12/28] fix: direction of explicit left single quote

It was changed to a right quote if it has no matching right quote and is
not directly preceded by text.
---
 src/inline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inline.rs b/src/inline.rs
index 2c40169..1a63606 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -895,7 +895,7 @@ impl<'s> Parser<'s> {
                 Some(self.push(match opener {
                     Opener::SingleQuoted => EventKind::Atom(Quote {
                         ty: QuoteType::Single,
-                        left: false,
+                        left: matches!(first.kind, lex::Kind::Open(..)),
                     }),
                     Opener::DoubleQuoted => EventKind::Atom(Quote {
                         ty: QuoteType::Double,
-- 
2.43.0


From 106dffe55f0e48be43055367e9722d9547726fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 13/28] fix: two colons parsed as symbol with empty name

---
 src/inline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inline.rs b/src/inline.rs
index 1a63606..bfea69e 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -640,7 +640,7 @@ impl<'s> Parser<'s> {
                     !end && !c.is_ascii_whitespace()
                 })
                 .count();
-            if end && valid {
+            if end && valid && len > 0 {
                 self.input.lexer.skip_ahead(len + 1);
                 let span_symbol = self.input.span.end..(self.input.span.end + len);
                 self.input.span.end = span_symbol.end + 1;
-- 
2.43.0


From ca53adaaebd24c11cdb334c5a2194958b4fa3ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 14/28] fix: caret lost after opening bracket

It was consumed even if it does not start a footnote reference, and then
only restored by merging it with the surrounding text if any. It could
also not open or close a superscript.
---
 src/inline.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index bfea69e..67290f6 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -662,20 +662,13 @@ impl<'s> Parser<'s> {
                 })
             )
         {
-            let tok = self.input.eat();
-            debug_assert_eq!(
-                tok,
-                Some(lex::Token {
-                    kind: lex::Kind::Sym(Symbol::Caret),
-                    len: 1,
-                })
-            );
             let mut end = false;
             let len = self
                 .input
                 .lexer
                 .ahead()
                 .iter()
+                .skip(1) // ^
                 .take_while(|c| {
                     if **c == b'[' {
                         return false;
@@ -687,6 +680,14 @@ impl<'s> Parser<'s> {
                 })
                 .count();
             if end {
+                let tok = self.input.eat();
+                debug_assert_eq!(
+                    tok,
+                    Some(lex::Token {
+                        kind: lex::Kind::Sym(Symbol::Caret),
+                        len: 1,
+                    })
+                );
                 self.input.lexer.skip_ahead(len + 1);
                 let span_label = self.input.span.end..(self.input.span.end + len);
                 let label = &self.input.src[span_label.clone()];
-- 
2.43.0


From 40c902708f44adb5b78d777c17e126f76c40605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:31 +0000
Subject: [PATCH 15/28] fix: outer block prefixes included in text after
 attributes

When attributes are directly followed by another set that turns out to be
invalid on another line, all lines up to there were taken as a single
span of the source, including e.g. the markers of a blockquote.
---
 src/inline.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index 67290f6..a0c057e 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -528,12 +528,13 @@ impl<'s> Parser<'s> {
             parser.finish()
         };
 
-        for _ in 0..line_next {
+        for _ in 0..state.valid_lines {
             let l = self.input.ahead.pop_front().unwrap();
             self.input.set_current_line(l);
         }
         self.input.span = start_attr..state.end_attr;
-        self.input.lexer = lex::Lexer::new(&self.input.src.as_bytes()[state.end_attr..line_end]);
+        self.input.lexer =
+            lex::Lexer::new(&self.input.src.as_bytes()[state.end_attr..self.input.span_line.end]);
 
         if attrs.is_empty() {
             if matches!(state.elem_ty, AttributesElementType::Container { .. }) {
-- 
2.43.0


From 492a506e99c939ccc0f973489f0a17b39a1d6ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 16/28] fix: bracketed text with empty attributes

The attributes ended up as text, even though an empty set is dropped
everywhere else. It is now a span, as with non-empty attributes.
---
 src/inline.rs | 55 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index a0c057e..61bd685 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -537,9 +537,8 @@ impl<'s> Parser<'s> {
             lex::Lexer::new(&self.input.src.as_bytes()[state.end_attr..self.input.span_line.end]);
 
         if attrs.is_empty() {
-            if matches!(state.elem_ty, AttributesElementType::Container { .. }) {
-                let last = self.events.len() - 1;
-                self.events[last].span.end = self.input.span.end;
+            if let AttributesElementType::Container { e_placeholder } = state.elem_ty {
+                self.close_container_attributes(e_placeholder);
             }
         } else {
             let attr_index = self.store_attributes.len() as AttributesIndex;
@@ -552,29 +551,9 @@ impl<'s> Parser<'s> {
                 span: self.input.span.clone(),
             };
             match state.elem_ty {
-                AttributesElementType::Container { mut e_placeholder } => {
+                AttributesElementType::Container { e_placeholder } => {
                     self.events[e_placeholder] = attr_event;
-                    let mut last = self.events.len() - 1;
-                    if matches!(self.events[e_placeholder + 1].kind, EventKind::Str) {
-                        let range = self.events[e_placeholder + 1].span.clone();
-                        if &self.input.src[range] == "![" {
-                            // Lexed as image link, but actually just a span preceeded by an exclamation mark
-                            let start = self.events[e_placeholder + 1].span.start;
-                            self.events.insert(
-                                e_placeholder,
-                                Event {
-                                    kind: EventKind::Str,
-                                    span: start..start + 1,
-                                },
-                            );
-                            e_placeholder += 1;
-                            last += 1;
-                            self.events[e_placeholder + 1].span.start += 1;
-                        }
-                        self.events[e_placeholder + 1].kind = EventKind::Enter(Span);
-                        self.events[last].kind = EventKind::Exit(Span);
-                    }
-                    self.events[last].span.end = self.input.span.end;
+                    self.close_container_attributes(e_placeholder);
                 }
                 AttributesElementType::Word => {
                     self.events.push_back(attr_event);
@@ -587,6 +566,32 @@ impl<'s> Parser<'s> {
         Some(Continue)
     }
 
+    /// Include attributes in the most recently closed container. If it is only bracketed text so
+    /// far, it is turned into a span.
+    fn close_container_attributes(&mut self, mut e_placeholder: usize) {
+        let mut last = self.events.len() - 1;
+        if matches!(self.events[e_placeholder + 1].kind, EventKind::Str) {
+            let range = self.events[e_placeholder + 1].span.clone();
+            if &self.input.src[range] == "![" {
+                // Lexed as image link, but actually just a span preceeded by an exclamation mark
+                let start = self.events[e_placeholder + 1].span.start;
+                self.events.insert(
+                    e_placeholder,
+                    Event {
+                        kind: EventKind::Str,
+                        span: start..start + 1,
+                    },
+                );
+                e_placeholder += 1;
+                last += 1;
+                self.events[e_placeholder + 1].span.start += 1;
+            }
+            self.events[e_placeholder + 1].kind = EventKind::Enter(Span);
+            self.events[last].kind = EventKind::Exit(Span);
+        }
+        self.events[last].span.end = self.input.span.end;
+    }
+
     fn parse_autolink(&mut self, first: &lex::Token) -> Option<ControlFlow> {
         if first.kind == lex::Kind::Sym(Symbol::Lt) {
             let mut end = false;
-- 
2.43.0


From 31d17db24923d80bd3dc6bc4fa6aed3d4c6b0a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 17/28] fix: destination or label that spans multiple lines

It was put together from the events it had been parsed as so far, which
duplicates attributes and omits e.g. some whitespace in verbatim. It is
now taken directly from the lines of the block.
---
 src/inline.rs | 42 ++++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index 61bd685..46c7e11 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -84,6 +84,8 @@ struct Input<'s> {
     complete: bool,
     /// Span of current line.
     span_line: std::ops::Range<usize>,
+    /// Spans of all lines so far within the current block, including current line.
+    lines: Vec<std::ops::Range<usize>>,
     /// Upcoming lines within the current block.
     ahead: std::collections::VecDeque<std::ops::Range<usize>>,
     /// Span of current event.
@@ -97,6 +99,7 @@ impl<'s> Input<'s> {
             lexer: lex::Lexer::new(b""),
             complete: false,
             span_line: 0..0,
+            lines: Vec::new(),
             ahead: std::collections::VecDeque::new(),
             span: 0..0,
         }
@@ -122,12 +125,14 @@ impl<'s> Input<'s> {
         self.lexer = lex::Lexer::new(&self.src.as_bytes()[line.clone()]);
         self.lexer.verbatim = verbatim;
         self.span = line.start..line.start;
+        self.lines.push(line.clone());
         self.span_line = line;
     }
 
     fn reset(&mut self) {
         self.lexer = lex::Lexer::new(b"");
         self.complete = false;
+        self.lines.clear();
         self.ahead.clear();
     }
 
@@ -797,33 +802,22 @@ impl<'s> Parser<'s> {
                             spec.push_str(&self.input.src[span]);
                             spec.into()
                         } else if multiline_spec {
+                            let first_line = self
+                                .input
+                                .lines
+                                .iter()
+                                .rposition(|l| l.start <= span_spec.start)
+                                .unwrap_or(0);
                             let mut spec = String::new();
-                            let mut first_part = true;
-                            let mut span =
-                                self.events[e_opener].span.end..self.events[e_opener].span.end;
-
-                            let mut append = |span: std::ops::Range<usize>| {
-                                self.input.src[span].split('\n').for_each(|s| {
-                                    if !s.is_empty() {
-                                        if !inline && !first_part {
-                                            spec.push(' ');
-                                        }
-                                        spec.push_str(s);
-                                        first_part = false;
-                                    }
-                                });
-                            };
-
-                            for ev in self.events.iter().skip(e_opener + 1) {
-                                if span.end == ev.span.start {
-                                    span.end = ev.span.end;
-                                } else {
-                                    append(span);
-                                    span = ev.span.clone();
+                            for line in &self.input.lines[first_line..] {
+                                let start = line.start.max(span_spec.start);
+                                let end = line.end.min(span_spec.end);
+                                let part = self.input.src[start..end].trim_end_matches('\n');
+                                if !inline && !spec.is_empty() && !part.is_empty() {
+                                    spec.push(' ');
                                 }
+                                spec.push_str(part);
                             }
-                            append(span);
-
                             spec.into()
                         } else {
                             self.input.src[span_spec.clone()].into()
-- 
2.43.0


From 21632a4a55e8fa4ec4ba13ff5f2069d1151f745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:27 +0000
Subject: [PATCH 18/28] fix: block attributes applied to more than one block

Attributes of a block were also applied to a heading (its id) or link
definition that is the first block inside of it, or that follows another
heading or link definition.
---
 src/lib.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f54dd63..e7d82b7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2193,10 +2193,8 @@ impl<'s> PrePass<'s> {
                     // All link definition tags have to be obtained initially, as references can
                     // appear before the definition.
                     let attrs = attr_prev
-                        .iter()
-                        .flat_map(|sp| {
-                            Attributes::try_from(&src[sp.clone()]).expect("should be valid")
-                        })
+                        .drain(..)
+                        .flat_map(|sp| Attributes::try_from(&src[sp]).expect("should be valid"))
                         .collect::<Attributes>();
                     let url = if let Some(block::Event {
                         kind: block::EventKind::Inline,
@@ -2240,10 +2238,8 @@ impl<'s> PrePass<'s> {
                     //
                     // We choose to parse all headers twice instead of caching them.
                     let attrs = attr_prev
-                        .iter()
-                        .flat_map(|sp| {
-                            Attributes::try_from(&src[sp.clone()]).expect("should be valid")
-                        })
+                        .drain(..)
+                        .flat_map(|sp| Attributes::try_from(&src[sp]).expect("should be valid"))
                         .collect::<Attributes>();
                     let id_override = attrs.get_value("id").map(|s| s.to_string());
 
@@ -2323,7 +2319,9 @@ impl<'s> PrePass<'s> {
                 block::EventKind::Atom(block::Atom::Attributes) => {
                     attr_prev.push(e.span.clone());
                 }
-                block::EventKind::Enter(..)
+                block::EventKind::Enter(block::Node::Container(block::Container::Section {
+                    ..
+                }))
                 | block::EventKind::Exit(block::Node::Container(block::Container::Section {
                     ..
                 })) => {}
-- 
2.43.0


From 2d7a1c11ae5f8177b51e0c864a2cb3e7182f141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 19/28] fix: space after marker kept on blank code lines in
 block quotes

---
 src/block.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 17ed946..d568ed0 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -599,10 +599,10 @@ impl<'s> TreeParser<'s> {
                     .len();
             let skip = match k {
                 Kind::Blockquote => {
-                    if src_t == ">" {
+                    if src[whitespace..] == *">" || src[whitespace..].starts_with(">\n") {
                         whitespace + 1
                     } else if src_t.starts_with('>')
-                        && src_t[1..].starts_with(|c: char| c.is_ascii_whitespace())
+                        && src[whitespace + 1..].starts_with(|c: char| c.is_ascii_whitespace())
                     {
                         whitespace + 2
                     } else {
-- 
2.43.0


From f3ff7db928289cf1df86471ddaf6ad7d136f1897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 20/28] fix: inline verbatim with more than 255 backticks

---
 src/inline.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index 46c7e11..643f243 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -208,7 +208,7 @@ impl<'s> Input<'s> {
 #[derive(Clone)]
 struct VerbatimState {
     event_opener: usize,
-    len_opener: u8,
+    len_opener: usize,
     non_whitespace_encountered: bool,
     non_whitespace_last: Option<(lex::Kind, usize)>,
 }
@@ -322,9 +322,7 @@ impl<'s> Parser<'s> {
         {
             let event_opener = *event_opener;
             let len_opener = *len_opener;
-            if usize::from(len_opener) == first.len
-                && matches!(first.kind, lex::Kind::Seq(Sequence::Backtick))
-            {
+            if len_opener == first.len && matches!(first.kind, lex::Kind::Seq(Sequence::Backtick)) {
                 // what follows is not verbatim, it has to be set before looking ahead
                 self.input.lexer.verbatim = false;
                 let raw_format = self.input.ahead_raw_format();
@@ -372,7 +370,7 @@ impl<'s> Parser<'s> {
                         && self.input.peek().is_some_and(|t| {
                             matches!(
                                 t.kind,
-                                lex::Kind::Seq(Sequence::Backtick) if t.len != len_opener.into(),
+                                lex::Kind::Seq(Sequence::Backtick) if t.len != len_opener,
                             )
                         })
                     {
@@ -386,7 +384,7 @@ impl<'s> Parser<'s> {
             }
             Some(Continue)
         } else if matches!(first.kind, lex::Kind::Seq(Sequence::Backtick)) {
-            let len_opener = u8::try_from(first.len).ok()?;
+            let len_opener = first.len;
             let ty = if let Some(sp) = self
                 .events
                 .back()
-- 
2.43.0


From 196bcb82764b1fb5db154c54239efa60637e45e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 21/28] fix: command line tool reported success if output
 failed

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 4ea4aec..3720633 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -15,6 +15,7 @@ struct App {
 fn run() -> Result<(), std::io::Error> {
     use jotdown::Render;
     use std::io::Read;
+    use std::io::Write;
 
     let app: App = clap::Parser::parse();
 
@@ -39,7 +40,11 @@ fn run() -> Result<(), std::io::Error> {
 
     match app.output {
         Some(path) => renderer.write_events(parser, std::fs::File::create(path)?)?,
-        None => renderer.write_events(parser, std::io::BufWriter::new(std::io::stdout()))?,
+        None => {
+            let mut out = std::io::BufWriter::new(std::io::stdout());
+            renderer.write_events(parser, &mut out)?;
+            out.flush()?;
+        }
     }
 
     Ok(())
-- 
2.43.0


From b22a419600c46eca36687f9b4668d09d69f23f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 22/28] fix: line breaks in alternative text of images

---
 src/html.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/html.rs b/src/html.rs
index 8c87508..84284e7 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -658,6 +658,8 @@ impl<'s> Renderer<'s> {
             Event::EnDash => out.write_str("–")?,
             Event::EmDash => out.write_str("—")?,
             Event::NonBreakingSpace => out.write_str("&nbsp;")?,
+            // only the line break is part of the alternative text
+            Event::Hardbreak | Event::Softbreak if self.img_alt_text > 0 => out.write_char('\n')?,
             Event::Hardbreak => {
                 out.write_str("<br>")?;
                 self.block(out, 0)?;
-- 
2.43.0


From 66581ec7c7d7b608b414fca039daeaa08a9bce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:01 +0000
Subject: [PATCH 23/28] fix: lookup of empty class attribute

---
 src/attr.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/attr.rs b/src/attr.rs
index a15aa35..9010471 100644
--- a/src/attr.rs
+++ b/src/attr.rs
@@ -357,11 +357,7 @@ impl<'s> Attributes<'s> {
                     value.extend(&v.raw);
                 }
             }
-            if value.raw.is_empty() {
-                None
-            } else {
-                Some(value)
-            }
+            self.contains_key(key).then_some(value)
         } else {
             self.0
                 .iter()
-- 
2.43.0


From b196fa570b8ddc312e9e4ae2bb416e806fbff2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:48 +0000
Subject: [PATCH 24/28] fix: repeated hyphens in heading ids

White space before a line break of a heading, or a line break before the
first letter, added another hyphen.
---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e7d82b7..0add652 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2282,7 +2282,10 @@ impl<'s> PrePass<'s> {
                             }
                             inline::EventKind::Atom(inline::Atom::Softbreak) => {
                                 text.push(' ');
-                                id_auto.push('-');
+                                if !last_whitespace {
+                                    last_whitespace = true;
+                                    id_auto.push('-');
+                                }
                             }
                             _ => {}
                         });
-- 
2.43.0


From e52c19f2e75166da276c9ec00153ca6a3a17d0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 25/28] fix: space between class attribute and class of math or
 task list

---
 src/html.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/html.rs b/src/html.rs
index 84284e7..cd9b49e 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -755,6 +755,9 @@ where
         Container::Math { display: true } => Some("math display"),
         _ => None,
     } {
+        if first_written {
+            out.write_char(' ')?;
+        }
         first_written = true;
         out.write_str(cls)?;
     }
-- 
2.43.0


From 3149629cb52fcbb6aa02ce2cc62eef3de24558a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 26/28] fix: special characters in class of div not escaped

Only relevant for events that are not parsed, a parsed class has no special
characters.
---
 src/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html.rs b/src/html.rs
index cd9b49e..57db43e 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -766,7 +766,7 @@ where
             if first_written {
                 out.write_char(' ')?;
             }
-            out.write_str(class)?;
+            write_attr(class, out)?;
         }
     }
     Ok(())
-- 
2.43.0


From 4ab1f344ad71dcc4d94e9abc3764a3de1c92e721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:11 +0000
Subject: [PATCH 27/28] fix: links with a scheme and an at sign are not e-mail
 addresses

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0add652..27ad6d9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2564,7 +2564,9 @@ impl<'s> Parser<'s> {
                             }
                         }
                         inline::Container::Autolink(url) => {
-                            let ty = if url.contains('@') {
+                            // a scheme ends at the first colon
+                            let address = url.split(':').next().unwrap_or(url);
+                            let ty = if address.contains('@') {
                                 LinkType::Email
                             } else {
                                 LinkType::AutoLink
-- 
2.43.0


From fc1089543ec8c9bfd230ecab7dc9212da26c57d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:54 +0000
Subject: [PATCH 28/28] fix: backslash before a tab within a line is dropped

---
 src/lex.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/lex.rs b/src/lex.rs
index bfc0b8c..fb81419 100644
--- a/src/lex.rs
+++ b/src/lex.rs
@@ -153,6 +153,13 @@ impl<'s> Lexer<'s> {
         }
     }
 
+    fn is_blank_until_newline(&self) -> bool {
+        self.src[self.pos..]
+            .iter()
+            .find(|c| !matches!(c, b' ' | b'\t'))
+            == Some(&b'\n')
+    }
+
     fn token(&mut self) -> Option<Token> {
         let start = self.pos;
 
@@ -160,12 +167,7 @@ impl<'s> Lexer<'s> {
             self.escape = false;
             match self.eat_byte()? {
                 b'\n' => Hardbreak,
-                b'\t' | b' '
-                    if self.src[self.pos..]
-                        .iter()
-                        .find(|c| !matches!(c, b' ' | b'\t'))
-                        == Some(&b'\n') =>
-                {
+                b'\t' | b' ' if self.is_blank_until_newline() => {
                     while self.eat_byte() != Some(b'\n') {}
                     Hardbreak
                 }
@@ -181,10 +183,10 @@ impl<'s> Lexer<'s> {
                     b'\n' => Newline,
 
                     b'\\' => {
-                        if self
-                            .peek_byte()
-                            .is_some_and(|c| c.is_ascii_whitespace() || c.is_ascii_punctuation())
-                        {
+                        if self.peek_byte().is_some_and(|c| match c {
+                            b'\t' => self.is_blank_until_newline(),
+                            c => matches!(c, b' ' | b'\n') || c.is_ascii_punctuation(),
+                        }) {
                             self.escape = !self.verbatim;
                             Escape
                         } else {
-- 
2.43.0

