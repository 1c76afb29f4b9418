From 43224cda587a46aeb76c1d06a092692441d3ea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:07 +0000
Subject: [PATCH 01/17] fix: report unread text after multi-byte characters

Ranges are in bytes, but the end of the text was computed in characters,
so trailing text was silently accepted in documents that are not ASCII.
---
 src/meta_rules/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meta_rules/mod.rs b/src/meta_rules/mod.rs
index c1766a0..3be4666 100644
--- a/src/meta_rules/mod.rs
+++ b/src/meta_rules/mod.rs
@@ -72,7 +72,7 @@ pub fn parse_with_indent(
     match res {
         Ok((range, s, opt_error)) => {
             // Report error if did not reach the end of text.
-            if range.next_offset() < text.chars().count() {
+            if range.next_offset() < text.len() {
                 Err(ret_err(
                     Range::empty(range.next_offset()).wrap(
                         ParseError::ExpectedEnd),
-- 
2.43.0


From 1449e4d8cc26ee899c448bfa0fa5b42793312376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:07 +0000
Subject: [PATCH 02/17] fix: try tail of optimized select at end of text

The tail might accept the empty string, e.g. `{"a" "b" .w?}`,
but the optimized select failed at the end of text without trying it.
---
 src/meta_rules/fast_select.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/meta_rules/fast_select.rs b/src/meta_rules/fast_select.rs
index 9e4fb57..ef3bc0a 100644
--- a/src/meta_rules/fast_select.rs
+++ b/src/meta_rules/fast_select.rs
@@ -50,8 +50,8 @@ impl FastSelect {
         indent_settings: &mut IndentSettings,
     ) -> ParseResult<TokenizerState> {
         if self.tail {
+            let mut opt_error: Option<Range<ParseError>> = None;
             if let Some(ch) = read_token.src.chars().next() {
-                let mut opt_error: Option<Range<ParseError>> = None;
                 let mut buf = [0; 4];
                 ch.encode_utf8(&mut buf);
                 let ind = self.table[buf[0] as usize];
@@ -68,20 +68,19 @@ impl FastSelect {
                         }
                     }
                 }
-                let sub_rule = &self.args[self.args.len()-1];
-                match sub_rule.parse(tokens, state, read_token, refs, indent_settings) {
-                    Ok((range, state, err)) => {
-                        err_update(err, &mut opt_error);
-                        Ok((read_token.peek(range.length),
-                            state, opt_error))
-                    }
-                    Err(err) => {
-                        Err(ret_err(err, opt_error))
-                    }
+            }
+            // The tail might accept the empty string,
+            // so it must be tried at the end of the text too.
+            let sub_rule = &self.args[self.args.len()-1];
+            match sub_rule.parse(tokens, state, read_token, refs, indent_settings) {
+                Ok((range, state, err)) => {
+                    err_update(err, &mut opt_error);
+                    Ok((read_token.peek(range.length),
+                        state, opt_error))
+                }
+                Err(err) => {
+                    Err(ret_err(err, opt_error))
                 }
-            } else {
-                Err(read_token.start().wrap(
-                    ParseError::ExpectedSomething(self.debug_id)))
             }
         } else {
             if let Some(ch) = read_token.src.chars().next() {
-- 
2.43.0


From 96b1342861d74731ff2e807ba26e109e0becd3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:07 +0000
Subject: [PATCH 03/17] fix: do not overflow stack when optimizing
 left-recursive rules

Reading the syntax `0 a = [a "b"]  1 doc = {a "c"}` aborted the process.
---
 src/optimize.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/optimize.rs b/src/optimize.rs
index 5f55f09..fbe75ea 100644
--- a/src/optimize.rs
+++ b/src/optimize.rs
@@ -28,6 +28,11 @@ pub fn unique_table_from_select(select: &Select, refs: &[Rule]) -> ([u8; 256], u
 /// Finds a unique byte from rule that determines whether
 /// the rule will fail if it does not equals the next byte.
 pub fn unique_byte(rule: &Rule, refs: &[Rule]) -> Option<u8> {
+    // A chain that follows more references than there are rules is left-recursive.
+    unique_byte_depth(rule, refs, refs.len())
+}
+
+fn unique_byte_depth(rule: &Rule, refs: &[Rule], depth: usize) -> Option<u8> {
     match *rule {
         Rule::Whitespace(_) => None,
         Rule::UntilAny(_) => None,
@@ -37,29 +42,31 @@ pub fn unique_byte(rule: &Rule, refs: &[Rule]) -> Option<u8> {
         Rule::Optional(_) => None,
         Rule::FastSelect(_) => None,
         Rule::Not(ref not) => {
-            if let Rule::Not(ref r) = not.rule {unique_byte(&r.rule, refs)}
+            if let Rule::Not(ref r) = not.rule {unique_byte_depth(&r.rule, refs, depth)}
             else {None}
         }
         Rule::Text(_) => Some(0x22),
         Rule::Select(ref sel) => {
-            if sel.args.len() == 1 {unique_byte(&sel.args[0], refs)}
+            if sel.args.len() == 1 {unique_byte_depth(&sel.args[0], refs, depth)}
             else {None}
         }
         Rule::SeparateBy(ref sep) => {
             if sep.optional {None}
-            else {unique_byte(&sep.rule, refs)}
+            else {unique_byte_depth(&sep.rule, refs, depth)}
         }
         Rule::Sequence(ref seq) => {
             if seq.args.len() == 0 {None}
-            else {unique_byte(&seq.args[0], refs)}
+            else {unique_byte_depth(&seq.args[0], refs, depth)}
         }
         Rule::Repeat(ref rep) => {
             if rep.optional {None}
-            else {unique_byte(&rep.rule, refs)}
+            else {unique_byte_depth(&rep.rule, refs, depth)}
         }
         Rule::Node(ref node) => {
-            if let Some(index) = node.index {unique_byte(&refs[index], refs)}
-            else {None}
+            if depth == 0 {None}
+            else if let Some(index) = node.index {
+                unique_byte_depth(&refs[index], refs, depth - 1)
+            } else {None}
         }
         Rule::Tag(ref tag) => {
             if tag.not {None}
-- 
2.43.0


From e38093eb8fab0b887ffec473d3bd53cd629bb4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 04/17] fix: optimize nested select rules in linear time

The sub rules were optimized a second time for a tail that is never a
`FastSelect`, which doubled the work for every level of nesting, such that
reading a short syntax with 30 nested `{.w? {...} "c"}` did not terminate.
---
 src/optimize.rs | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/src/optimize.rs b/src/optimize.rs
index fbe75ea..1d67dd7 100644
--- a/src/optimize.rs
+++ b/src/optimize.rs
@@ -139,23 +139,6 @@ pub fn optimize_rule(rule: &Rule, refs: &[Rule]) -> Rule {
         Rule::Select(ref sel) => {
             let (table, unique_up_to) = unique_table_from_select(sel, refs);
             if unique_up_to < 2 {
-                if sel.args.len() > 2 {
-                    // Check if optimization on the tail is successful.
-                    let try_opt = Rule::Select(Select {
-                        args: sel.args.iter().skip(1).map(|r| optimize_rule(r, refs)).collect(),
-                        debug_id: sel.debug_id,
-                    });
-                    if let Rule::FastSelect(_) = try_opt {
-                        // Optimization successful, create select rule.
-                        return Rule::Select(Select {
-                            args: vec![
-                                optimize_rule(&sel.args[0], refs),
-                                try_opt,
-                            ],
-                            debug_id: sel.debug_id,
-                        });
-                    }
-                }
                 Rule::Select(Select {
                     args: sel.args.iter().map(|r| optimize_rule(r, refs)).collect(),
                     debug_id: sel.debug_id,
-- 
2.43.0


From 31fefd079d7ac73a398292b57d5873cab1870590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 05/17] fix: reject node ids that overflow debug ids

Reading the syntax `1e30 doc = "x"` panicked with an arithmetic overflow.
---
 src/bootstrap/convert.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index 7f7d5ab..2b2137b 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -22,6 +22,9 @@ use meta_rules::{
 use MetaData;
 use Syntax;
 
+/// Node ids are multiplied with 1000 to get debug ids, which must not overflow.
+const MAX_NODE_ID: f64 = (::std::usize::MAX / 2000) as f64;
+
 /// Stores state when converting from meta data.
 #[derive(Copy, Clone, Debug)]
 pub struct Convert<'a> {
@@ -851,6 +854,8 @@ pub fn convert(
                 convert.update(range);
                 break;
             } else if let Ok((range, val)) = convert.meta_f64("id") {
+                // Leave room for the debug ids of the sub rules.
+                if val >= MAX_NODE_ID { return Err(()); }
                 id = Some(val as usize);
                 convert.update(range);
             } else if let Ok((range, val)) = convert.meta_string("name") {
-- 
2.43.0


From 46f440de234f027eabb2500722d815b830609b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 06/17] fix: disallow trailing separator when not specified

According to the documentation, `.s?(by rule)` and `.s!(by rule)` do not
allow trailing, but they were converted to the same rules as `.s?.(by rule)`
and `.s!.(by rule)`.
---
 src/bootstrap/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index 2b2137b..c085d33 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -657,7 +657,7 @@ pub fn convert(
             }
         }
         let optional = optional.unwrap_or(true);
-        let allow_trail = allow_trail.unwrap_or(true);
+        let allow_trail = allow_trail.unwrap_or(false);
         match (by, rule) {
             (Some(by), Some(rule)) => {
                 *debug_id += 1;
-- 
2.43.0


From 04cf03924221e435cce1505d77a247a2ef4017dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 07/17] fix: escape control characters in JSON strings

---
 src/json.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/json.rs b/src/json.rs
index 6e187b9..de47b39 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -83,6 +83,9 @@ pub fn write_string<W>(w: &mut W, val: &str) -> Result<(), io::Error>
             write!(w, "\\r")?;
         } else if c == '\t' {
             write!(w, "\\t")?;
+        } else if c < ' ' {
+            // Other control characters must be escaped according to the JSON standard.
+            write!(w, "\\u{:04x}", c as u32)?;
         } else {
             write!(w, "{}", c)?;
         }
-- 
2.43.0


From a653fa52e1d274f0cf2aedbaf863c33a2f8f211b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 08/17] fix: write numbers that are not finite as null in JSON

Reading `1e400` gives infinity, which was written as `inf`.
---
 src/json.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/json.rs b/src/json.rs
index de47b39..9d71f64 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -54,7 +54,12 @@ pub fn write<W>(w: &mut W, data: &[Range<MetaData>]) -> Result<(), io::Error>
             }
             MetaData::F64(ref name, val) => {
                 write_string(w, name)?;
-                write!(w, ":{}", val)?;
+                if val.is_finite() {
+                    write!(w, ":{}", val)?;
+                } else {
+                    // JSON can not represent infinity or NaN.
+                    write!(w, ":null")?;
+                }
             }
             MetaData::String(ref name, ref val) => {
                 write_string(w, name)?;
-- 
2.43.0


From 9e08dd7b877ce896ef7ee73406680a647b0d2c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 09/17] fix: do not panic when writing unbalanced meta data as
 JSON

---
 src/json.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/json.rs b/src/json.rs
index 9d71f64..8a2e07d 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -25,7 +25,8 @@ pub fn write<W>(w: &mut W, data: &[Range<MetaData>]) -> Result<(), io::Error>
     for (i, d) in data.iter().enumerate() {
         let d = &d.data;
         let is_end = if let MetaData::EndNode(_) = *d {
-            indent -= 1;
+            // The first nodes might be ended before others are started.
+            indent = indent.saturating_sub(1);
             true
         } else { false };
         let print_comma = !first && !is_end;
-- 
2.43.0


From 7f0d4fa35ae10310776a9b176d7a179fb5ac8634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:00 +0000
Subject: [PATCH 10/17] fix: report undefined strings in syntax instead of
 dropping rules

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5b767e6..21c62bd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -223,7 +223,11 @@ pub fn syntax(rules: &str) -> Result<Syntax, Range<ParseError>> {
     parse(&BOOTSTRAP_RULES, rules, &mut tokens)?;
     let mut ignored_meta_data = vec![];
     match bootstrap::convert(&tokens, &mut ignored_meta_data) {
-        Ok(res) => Ok(res.optimize()),
+        Ok(res) => match ignored_meta_data.first() {
+            None => Ok(res.optimize()),
+            Some(ignored) => Err(tokens[ignored.offset].range().wrap(
+                ParseError::Conversion(format!("Undefined string"))))
+        },
         Err(()) => Err(Range::empty(0).wrap(ParseError::Conversion(
             format!("Bootstrapping rules are incorrect"))))
     }
-- 
2.43.0


From a61295038f8c4dee7d90061c56ba04ee6e262f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:01 +0000
Subject: [PATCH 11/17] fix: do not hang or panic when converting unbalanced
 meta data

---
 src/bootstrap/convert.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index c085d33..5141595 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -98,7 +98,7 @@ impl<'a> Convert<'a> {
         for item in self.data.iter() {
             match &item.data {
                 &MetaData::StartNode(_) => acc += 1,
-                &MetaData::EndNode(_) => acc -= 1,
+                &MetaData::EndNode(_) => acc = acc.saturating_sub(1),
                 _ => {}
             }
             len += 1;
@@ -141,6 +141,21 @@ impl<'a> Convert<'a> {
     }
 }
 
+/// Returns true if every start node has a matching end node.
+fn is_well_nested(data: &[Range<MetaData>]) -> bool {
+    let mut open = vec![];
+    for item in data {
+        match &item.data {
+            &MetaData::StartNode(ref name) => open.push(name),
+            &MetaData::EndNode(ref name) => {
+                if open.pop() != Some(name) { return false; }
+            }
+            _ => {}
+        }
+    }
+    open.is_empty()
+}
+
 /// Converts meta data to rules.
 pub fn convert(
     data: &[Range<MetaData>],
@@ -881,6 +896,8 @@ pub fn convert(
         }
     }
 
+    // Reading a node requires that the end of the node can be found.
+    if !is_well_nested(data) { return Err(()); }
     let mut strings: Vec<(Arc<String>, Arc<String>)> = vec![];
     let mut convert = Convert::new(data);
     loop {
-- 
2.43.0


From 37ac7f807f68fbfeb1c04f30a30700ef3c026a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:28 +0000
Subject: [PATCH 12/17] fix: restore indention when a rule fails

---
 src/meta_rules/rule.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/meta_rules/rule.rs b/src/meta_rules/rule.rs
index 94b72c7..c32daec 100644
--- a/src/meta_rules/rule.rs
+++ b/src/meta_rules/rule.rs
@@ -71,6 +71,21 @@ impl Rule {
         read_token: &ReadToken,
         refs: &[Rule],
         indent_settings: &mut IndentSettings,
+    ) -> ParseResult<TokenizerState> {
+        let old_indent_settings = *indent_settings;
+        let res = self.parse_rule(tokens, state, read_token, refs, indent_settings);
+        // A rule that fails should not affect the indention of other rules.
+        if res.is_err() { *indent_settings = old_indent_settings; }
+        res
+    }
+
+    fn parse_rule(
+        &self,
+        tokens: &mut Vec<Range<MetaData>>,
+        state: &TokenizerState,
+        read_token: &ReadToken,
+        refs: &[Rule],
+        indent_settings: &mut IndentSettings,
     ) -> ParseResult<TokenizerState> {
         match self {
             &Rule::Whitespace(ref w) => {
-- 
2.43.0


From c4fb29daf3140bc01cae0bf140c869a4a01ddb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:29 +0000
Subject: [PATCH 13/17] fix: report errors with columns in characters instead
 of bytes

---
 src/parse_error_handler.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parse_error_handler.rs b/src/parse_error_handler.rs
index 2874f8a..289e28d 100644
--- a/src/parse_error_handler.rs
+++ b/src/parse_error_handler.rs
@@ -14,6 +14,11 @@ pub fn stderr_unwrap<T>(source: &str, res: Result<T, Range<ParseError>>) -> T {
     }
 }
 
+/// Returns the number of characters that starts before a byte offset.
+fn char_column(text: &str, offset: usize) -> usize {
+    text.char_indices().take_while(|&(i, _)| i < offset).count()
+}
+
 /// Reports error.
 pub struct ParseErrorHandler<'a> {
     lines: Vec<(Range, &'a str)>,
@@ -48,9 +53,9 @@ impl<'a> ParseErrorHandler<'a> {
         for (i, &(r, text)) in self.lines.iter().enumerate() {
             if let Some(intersect) = range.ends_intersect(&r) {
                 if intersect.offset >= r.offset {
-                    let j = intersect.offset - r.offset;
+                    let j = char_column(text, intersect.offset - r.offset);
                     let s = if j > 75 { j - 50 } else { 0 };
-                    let e = ::std::cmp::min(s + 100, r.length);
+                    let e = ::std::cmp::min(s + 100, text.chars().count());
                     write!(w, "{},{}: ", i + 1, j + 1)?;
                     for c in text.chars().skip(s).take(e - s) {
                         write!(w, "{}", c)?;
@@ -122,9 +127,9 @@ impl<'a> ParseErrorHandler<'a> {
         for (i, &(r, text)) in self.lines.iter().enumerate() {
             if let Some(intersect) = range.ends_intersect(&r) {
                 if intersect.offset >= r.offset {
-                    let j = intersect.offset - r.offset;
+                    let j = char_column(text, intersect.offset - r.offset);
                     let s = if j > 75 { j - 50 } else { 0 };
-                    let e = ::std::cmp::min(s + 100, r.length);
+                    let e = ::std::cmp::min(s + 100, text.chars().count());
                     write!(w, "{},{}: ", i + 1, j + 1)?;
                     for c in text.chars().skip(s).take(e - s) {
                         write!(w, "{}", c)?;
-- 
2.43.0


From 46e01bf0ebeab736c953961839cbe54f35ef9921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:00 +0000
Subject: [PATCH 14/17] fix: read lines with multi-byte whitespace without
 panicking

---
 src/meta_rules/lines.rs | 44 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/meta_rules/lines.rs b/src/meta_rules/lines.rs
index 7a5d316..74542ec 100644
--- a/src/meta_rules/lines.rs
+++ b/src/meta_rules/lines.rs
@@ -42,7 +42,7 @@ impl Lines {
         let mut opt_error = None;
         let mut first = true;
         if self.indent {
-            match read_token.lines(|read_token| {
+            match read_lines(read_token, |read_token| {
                 let offset = read_token.offset;
                 let mut read_token = *read_token;
                 if self.indent {
@@ -112,7 +112,7 @@ impl Lines {
                 }
             }
         } else {
-            match read_token.lines(|read_token| {
+            match read_lines(read_token, |read_token| {
                 match self.rule.parse(tokenizer, &state, &read_token, refs, indent_settings) {
                     Err(err) => {
                         err_update(Some(err), &mut opt_error);
@@ -138,6 +138,46 @@ impl Lines {
     }
 }
 
+/// Reads lines with a closure that returns the range of the line to consume.
+/// Lines that only contain whitespace characters are ignored.
+/// Fails when there is no new line between two lines.
+fn read_lines<F>(start: &ReadToken, mut f: F) -> Result<Range, Range>
+    where F: FnMut(&ReadToken) -> Option<Range>
+{
+    let mut read_token = *start;
+    let mut new_lines = true;
+    loop {
+        let next = read_token.src.char_indices()
+            .find(|&(_, c)| c == '\n' || !c.is_whitespace());
+        match next {
+            None => {
+                read_token = read_token.consume(read_token.src.len());
+                break;
+            }
+            Some((i, '\n')) => {
+                read_token = read_token.consume(i + 1);
+                new_lines = true;
+            }
+            Some(_) if !new_lines => {
+                return Err(Range::empty(read_token.offset));
+            }
+            Some(_) => match f(&read_token) {
+                None => { break; }
+                Some(range) => {
+                    // If the line ends with a new line,
+                    // then the next line does not require a new line.
+                    let end = range.next_offset() - read_token.offset;
+                    new_lines = read_token.src[..end].chars().rev()
+                        .take_while(|c| c.is_whitespace())
+                        .any(|c| c == '\n');
+                    read_token = read_token.consume(range.length);
+                }
+            }
+        }
+    }
+    Ok(read_token.subtract(start))
+}
+
 #[cfg(test)]
 mod tests {
     use all::*;
-- 
2.43.0


From 9789a55ead461f31cd872a82586bd69b82cf2d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 15/17] fix: compare optimized select rules by their content

---
 src/meta_rules/fast_select.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/meta_rules/fast_select.rs b/src/meta_rules/fast_select.rs
index ef3bc0a..690a234 100644
--- a/src/meta_rules/fast_select.rs
+++ b/src/meta_rules/fast_select.rs
@@ -16,7 +16,7 @@ use {
 use tokenizer::TokenizerState;
 
 /// Stores information about select.
-#[derive(Clone)]
+#[derive(Clone, PartialEq)]
 pub struct FastSelect {
     /// The table used to look up sub-rule from next byte.
     pub table: [u8; 256],
@@ -29,10 +29,6 @@ pub struct FastSelect {
     pub debug_id: DebugId,
 }
 
-impl PartialEq for FastSelect {
-    fn eq(&self, _: &Self) -> bool {false}
-}
-
 impl std::fmt::Debug for FastSelect {
     fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::result::Result<(), std::fmt::Error> {
         Ok(())
-- 
2.43.0


From ec6a027b4d805338177f491d148073a9ffeb9566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 16/17] fix: do not align indention to a line that fails

---
 src/meta_rules/lines.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meta_rules/lines.rs b/src/meta_rules/lines.rs
index 74542ec..c898c37 100644
--- a/src/meta_rules/lines.rs
+++ b/src/meta_rules/lines.rs
@@ -44,6 +44,7 @@ impl Lines {
         if self.indent {
             match read_lines(read_token, |read_token| {
                 let offset = read_token.offset;
+                let start_indent = indent_settings.indent;
                 let mut read_token = *read_token;
                 if self.indent {
                     let mut n = indent_settings.indent;
@@ -87,7 +88,8 @@ impl Lines {
                 indent_settings.indent += 1;
                 match self.rule.parse(tokenizer, &state, &read_token, refs, indent_settings) {
                     Err(err) => {
-                        indent_settings.indent = old_indent;
+                        // A line that fails should not be aligned to.
+                        indent_settings.indent = start_indent;
                         err_update(Some(err), &mut opt_error);
                         None
                     }
-- 
2.43.0


From 5aa539e5c95dd6b7af3b964e371aa3f01fb83243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:14 +0000
Subject: [PATCH 17/17] fix: count the whole width of a tab as indention

When a tab was wider than the indention that is required, the rest of it
was forgotten, so lines indented by the same tabs were read as children
of each other.
---
 src/meta_rules/lines.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/meta_rules/lines.rs b/src/meta_rules/lines.rs
index c898c37..c55cff9 100644
--- a/src/meta_rules/lines.rs
+++ b/src/meta_rules/lines.rs
@@ -55,6 +55,10 @@ impl Lines {
                         } else if let Some(range) = read_token.tag("\t") {
                             read_token = read_token.consume(range.length);
                             if n <= indent_settings.tab_spaces as u32 {
+                                if first && indent_settings.align_first {
+                                    // The tab might be wider than the indention required.
+                                    indent_settings.indent += indent_settings.tab_spaces as u32 - n;
+                                }
                                 break
                             } else {
                                 n -= indent_settings.tab_spaces as u32;
-- 
2.43.0

