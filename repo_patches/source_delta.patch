From 841820020368997e96c855e03189bca741cd2193 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:13:40 +0000
Subject: [PATCH 01/18] fix: the last `char` is U+10FFFF, not U+10FFF, in
 `SymbolOp::next`

---
 laps_regex/src/mir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index f1f054b..636cb07 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -563,7 +563,7 @@ impl SymbolOp for char {
   fn next(&self) -> Option<Self> {
     match self {
       '\u{d7ff}' => Some('\u{e000}'),
-      '\u{10fff}' => None,
+      '\u{10ffff}' => None,
       _ => Some(unsafe { char::from_u32_unchecked(*self as u32 + 1) }),
     }
   }
-- 
2.43.0


From 5355ce3870cdfcdeeb6efb29a4727ea47bbb6755 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:13:40 +0000
Subject: [PATCH 02/18] fix: do not overflow in `SymbolOp` of `u8` at both ends
 of the range

---
 laps_regex/src/mir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index 636cb07..54f1288 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -571,10 +571,10 @@ impl SymbolOp for char {
 
 impl SymbolOp for u8 {
   fn prev(&self) -> Option<Self> {
-    (*self != u8::MIN).then_some(self - 1)
+    (*self != u8::MIN).then(|| self - 1)
   }
 
   fn next(&self) -> Option<Self> {
-    (*self != u8::MAX).then_some(self + 1)
+    (*self != u8::MAX).then(|| self + 1)
   }
 }
-- 
2.43.0


From 9c8eedc1e4c11b8f8c0830d3eb9ed544dced86d6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:13:40 +0000
Subject: [PATCH 03/18] fix: keep the loop of a Kleene closure apart from its
 surroundings in NFA

`(a*b)*` accepted `a`, and `a*|b` accepted `ab`.
---
 laps_regex/src/nfa.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/laps_regex/src/nfa.rs b/laps_regex/src/nfa.rs
index 05d3f8e..102206b 100644
--- a/laps_regex/src/nfa.rs
+++ b/laps_regex/src/nfa.rs
@@ -54,9 +54,16 @@ where
         // create a edge to the initial state
         let init = nfa.fa.init_id();
         nfa.fa.state_mut(id).unwrap().add(None, init);
-        // set the initial state as a final state
-        nfa.fa.set_final_state(init);
-        nfa
+        // wrap the loop with a new initial state and a new final state,
+        // otherwise edges added to the initial state later, or edges from
+        // the final state, will be reachable from inside the loop
+        let mut kleene = Self::new_nfa_with_symbol(None);
+        let fs = kleene.fa.final_id().unwrap();
+        kleene.fa.init_mut().add(None, init);
+        nfa.fa.state_mut(id).unwrap().add(None, fs);
+        kleene.fa.union(nfa.fa);
+        kleene.tags.extend(nfa.tags);
+        kleene
       }
     }
   }
-- 
2.43.0


From 481cf4c7f71fbd35892586866a11738ef06590ba Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:13:40 +0000
Subject: [PATCH 04/18] fix: keep the smallest tag of regular expressions that
 match the same input

Duplicate expressions with different tags were removed before the tags
were compared.
---
 laps_regex/src/mir.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index 54f1288..405afc8 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -351,27 +351,22 @@ where
     if a.is_empty() {
       return Err(Error::MatchesNothing);
     }
-    // collect expressions that have a tag
-    let tagged_exps: HashMap<_, _> = a
-      .iter()
-      .filter_map(|(e, t)| t.clone().map(|t| (e.clone(), t)))
-      .collect();
     // optimize all sub-expressions, flatten nested alternations
-    // and remove duplicate expressions
+    // and remove duplicate expressions with the same tag
     let mut new_a = Vec::new();
     let mut set = HashSet::new();
-    for (e, _) in a {
-      // get the tag of the current expresson
-      let t = tagged_exps.get(&e).cloned();
+    for (e, t) in a {
       // optimize, and handle by kind
       match e.opt_without_rebuild()? {
         Self::Alter(a) => new_a.extend(
           a.into_iter()
-            .filter_map(|(e, inner_t)| set.insert(e.clone()).then(|| (e, t.clone().or(inner_t)))),
+            .map(|(e, inner_t)| (e, t.clone().or(inner_t)))
+            .filter(|et| set.insert(et.clone())),
         ),
         e => {
-          if set.insert(e.clone()) {
-            new_a.push((e, t));
+          let et = (e, t);
+          if set.insert(et.clone()) {
+            new_a.push(et);
           }
         }
       }
-- 
2.43.0


From b6fae0838f08dffc2889d0af3bc9139112275d6f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:13:40 +0000
Subject: [PATCH 05/18] fix: do not panic if regular expressions match only the
 empty input

---
 laps_regex/src/table.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/laps_regex/src/table.rs b/laps_regex/src/table.rs
index 2343ded..d15491b 100644
--- a/laps_regex/src/table.rs
+++ b/laps_regex/src/table.rs
@@ -34,9 +34,10 @@ impl<S, T> StateTransTable<S, T> {
   where
     S: Clone + Hash + Eq + Ord + SymbolOp,
   {
-    let (equivs, trans_table, init_id, tags) = TempTable::new(dfa).into_optimized();
+    let temp_table = TempTable::new(dfa);
     // get number of states
-    let num_states = trans_table[0].len();
+    let num_states = temp_table.num_states;
+    let (equivs, trans_table, init_id, tags) = temp_table.into_optimized();
     // get the final table
     let table = trans_table
       .into_iter()
@@ -139,6 +140,7 @@ struct TempTable<S, T> {
   table: HashMap<Vec<(S, S)>, Vec<usize>>,
   tags: HashMap<usize, T>,
   init_id: usize,
+  num_states: usize,
 }
 
 impl<S, T> TempTable<S, T> {
@@ -176,6 +178,7 @@ impl<S, T> TempTable<S, T> {
       table,
       tags,
       init_id: ids[&fa.init_id()],
+      num_states,
     }
   }
 
-- 
2.43.0


From bf708beac829eb59bc20ab571835fd5585e65832 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 06/18] fix: choose a table type that can represent the invalid
 state in derived lexers

With exactly 256 or 65536 states, the invalid state was truncated to state 0.
---
 laps_macros/src/tokenize.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 664ae23..df3e952 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -410,7 +410,8 @@ impl RegexImpls {
     if self.num_states <= 1 {
       quote!(u8)
     } else {
-      let table_size_bits = (self.num_states - 1).ilog2() + 1;
+      // the table also contains `num_states`, which marks invalid transitions
+      let table_size_bits = self.num_states.ilog2() + 1;
       if table_size_bits <= 8 {
         quote!(u8)
       } else if table_size_bits <= 16 {
-- 
2.43.0


From 79e35e587f993a11b26ca9e216f034e7a7c28c25 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 07/18] fix: read the rest of an incomplete UTF-8 character in
 `Reader`

A reader that returns a part of a character (short read) caused a fatal
error, although the input is valid. Also keep invalid bytes in the buffer, so
that no input is skipped silently after the error.
---
 src/reader.rs | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 8bebb25..e7ed0cd 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -60,24 +60,32 @@ impl<T, const BUFFER_SIZE: usize> Reader<T, BUFFER_SIZE> {
   {
     // get the current location
     let loc = self.span.start();
-    // read bytes to buffer
-    let count = self
-      .reader
-      .read(&mut self.byte_buf[self.byte_buf_offset..])
-      .map_err(|e| log_raw_fatal_error!(self.span, "{e}"))?
-      + self.byte_buf_offset;
-    // handle EOF
-    if count == 0 {
-      return Ok((None, loc));
-    }
-    // converts bytes to UTF-8 string
-    let (s, end) = match from_utf8(&self.byte_buf[..count]) {
-      Ok(s) => (s, None),
-      Err(e) => {
-        let end = e.valid_up_to();
-        // safe due to the above check
-        let s = unsafe { from_utf8_unchecked(&self.byte_buf[..end]) };
-        (s, Some(end))
+    let (s, end, count) = loop {
+      // read bytes to buffer
+      let len = self
+        .reader
+        .read(&mut self.byte_buf[self.byte_buf_offset..])
+        .map_err(|e| log_raw_fatal_error!(self.span, "{e}"))?;
+      // keep the bytes that have been read
+      self.byte_buf_offset += len;
+      let count = self.byte_buf_offset;
+      // handle EOF
+      if count == 0 {
+        return Ok((None, loc));
+      }
+      // converts bytes to UTF-8 string
+      match from_utf8(&self.byte_buf[..count]) {
+        Ok(s) => break (s, None, count),
+        Err(e) => {
+          let end = e.valid_up_to();
+          // the first character is incomplete, try to read the rest of it
+          if end == 0 && e.error_len().is_none() && len != 0 {
+            continue;
+          }
+          // safe due to the above check
+          let s = unsafe { from_utf8_unchecked(&self.byte_buf[..end]) };
+          break (s, Some(end), count);
+        }
       }
     };
     // get the character and fill the char buffer
-- 
2.43.0


From 413ae873e37fc59bc3f6c97664f4363e87f1c3de Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 08/18] fix: compile without feature `logger`

---
 src/span.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index 9c73796..e067fe5 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -173,7 +173,7 @@ impl Span {
   #[cfg(not(feature = "logger"))]
   pub fn log_raw_error(&self, args: Arguments) -> Error {
     // update error number
-    self.status.errors.set(self.status.errors.get() + 1);
+    self.status.errors.fetch_add(1, Ordering::Relaxed);
     Error::Normal(format!("{args}"))
   }
 
@@ -191,7 +191,7 @@ impl Span {
   #[cfg(not(feature = "logger"))]
   pub fn log_raw_fatal_error(&self, args: Arguments) -> Error {
     // update error number
-    self.status.errors.set(self.status.errors.get() + 1);
+    self.status.errors.fetch_add(1, Ordering::Relaxed);
     Error::Fatal(format!("{args}"))
   }
 
@@ -209,7 +209,7 @@ impl Span {
   #[cfg(not(feature = "logger"))]
   pub fn log_raw_warning(&self, _: Arguments) {
     // update warning number
-    self.status.warnings.set(self.status.warnings.get() + 1);
+    self.status.warnings.fetch_add(1, Ordering::Relaxed);
   }
 
   /// Logs warning with no span provided.
-- 
2.43.0


From f18ff5c8e14ec64a670d57971efba2c1d3c963ab Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 09/18] fix: do not panic when printing the source lines of a
 span

The logger panicked on zero-width characters, columns above 65535, line 0,
the last line number and spans that end before they start.
---
 src/span.rs | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index e067fe5..d59158e 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -36,6 +36,8 @@ use std::sync::Arc;
 #[cfg(feature = "logger")]
 use colored::{Color, Colorize};
 #[cfg(feature = "logger")]
+use std::cmp::Ordering as CmpOrdering;
+#[cfg(feature = "logger")]
 use std::{fmt::Write, fs::File, io::BufRead, io::BufReader, io::Result as IoResult};
 #[cfg(feature = "logger")]
 use unicode_width::UnicodeWidthChar;
@@ -433,10 +435,11 @@ impl Span {
         // open file and get lines, ignore all errors
         let _ = File::open(path).map_err(|_| fmt::Error).and_then(|file| {
           let mut lines = BufReader::new(file).lines();
-          if self.start.line == self.end.line {
-            self.print_single_line_info(&mut lines, color)
-          } else {
-            self.print_multi_line_info(&mut lines, color)
+          match self.start.line.cmp(&self.end.line) {
+            CmpOrdering::Equal => self.print_single_line_info(&mut lines, color),
+            CmpOrdering::Less => self.print_multi_line_info(&mut lines, color),
+            // no line can be printed for a reversed span
+            CmpOrdering::Greater => Ok(()),
           }
         });
       }
@@ -454,16 +457,20 @@ impl Span {
   {
     // get some parameters
     let line_num = self.start.line as usize;
-    let (line, c1, c2) = get_line_str!(lines.nth(line_num - 1), self.start.col, self.end.col);
+    let (line, c1, c2) = get_line_str!(
+      line_num.checked_sub(1).and_then(|n| lines.nth(n)),
+      self.start.col,
+      self.end.col
+    );
     let width = ((line_num + 1) as f32).log10().ceil() as usize;
-    let leading = c1 - 1;
-    let len = c2 - c1 + 1;
+    let leading = " ".repeat(c1.saturating_sub(1));
+    let underline = "^".repeat(c2 - c1 + 1);
     // print the current line to stderr
     eprintln!("{:width$} {}", "", "|".blue());
     eprint!("{} ", format!("{:width$}", line_num).blue());
     eprintln!("{} {}", "|".blue(), line);
-    eprint!("{:width$} {} {:leading$}", "", "|".blue(), "");
-    eprintln!("{}", format!("{:^>len$}", "").color(color));
+    eprint!("{:width$} {} {leading}", "", "|".blue());
+    eprintln!("{}", underline.color(color));
     Ok(())
   }
 
@@ -477,17 +484,19 @@ impl Span {
   {
     let mut buf = String::new();
     // get some parameters
-    let width = ((self.end.line + 1) as f32).log10().ceil() as usize;
+    let width = (self.end.line as f32 + 1.0).log10().ceil() as usize;
     let width = std::cmp::max(width, 2);
     // write the first line to buffer
     let line_num = self.start.line as usize;
-    let mut lines = lines.skip(line_num - 1);
-    let (line, start) = get_line_str!(lines.next(), self.start.col);
+    let (line, start) = get_line_str!(
+      line_num.checked_sub(1).and_then(|n| lines.nth(n)),
+      self.start.col
+    );
     writeln!(buf, "{:width$} {}", "", "|".blue())?;
     write!(buf, "{} ", format!("{:width$}", line_num).blue())?;
     writeln!(buf, "{}   {line}", "|".blue())?;
     write!(buf, "{:width$} {}  ", "", "|".blue())?;
-    writeln!(buf, "{}", format!("{:_>start$}^", "").color(color))?;
+    writeln!(buf, "{}", format!("{}^", "_".repeat(start)).color(color))?;
     // write the middle lines to buffer
     let mid_lines = (self.end.line - self.start.line) as usize - 1;
     if mid_lines <= 4 {
@@ -518,7 +527,7 @@ impl Span {
     } else {
       write!(buf, "{}", "|".color(color))?;
     }
-    writeln!(buf, "{}", format!("{:_>end$}^", "").color(color))?;
+    writeln!(buf, "{}", format!("{}^", "_".repeat(end)).color(color))?;
     // print buffer to stderr
     eprint!("{buf}");
     Ok(())
-- 
2.43.0


From fac062b9b955f4cc853cad174ecc79f8c9718e39 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 10/18] fix: reject `\u{}` in string and character literals

Only `\u{0}`-`\u{10ffff}` is documented, but it was parsed as `\0`.
---
 src/lexer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 231179d..3452742 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -324,14 +324,14 @@ where
           return ParseResult::Error;
         }
         // get hex value
-        let mut hex = 0u32;
+        let mut hex = None;
         for c in iter {
           match c.to_digit(16) {
-            Some(h) => match hex.checked_mul(16) {
-              Some(h16) => hex = h16 + h,
+            Some(h) => match hex.unwrap_or(0u32).checked_mul(16) {
+              Some(h16) => hex = Some(h16 + h),
               None => break,
             },
-            None if c == '}' => match char::from_u32(hex) {
+            None if c == '}' => match hex.and_then(char::from_u32) {
               Some(c) => return ParseResult::Char(c),
               None => break,
             },
-- 
2.43.0


From 1828ea26f1a6a60795bffff55bc7ec6d285f2c50 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 11/18] fix: do not lose tokens when peeking fails

The default `peek2` and `peek_n`, and `maybe` of `OptTokenPrefix` and
`TokenPrefix` dropped the tokens they had read before the error.
---
 src/ast.rs   |  8 ++++----
 src/token.rs | 25 +++++++++++++++++--------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index fb85587..3e4ae14 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -510,9 +510,9 @@ where
   fn maybe(tokens: &mut TS) -> Result<bool> {
     if P::maybe(tokens)? {
       let token = tokens.next_token()?;
-      let result = T::maybe(tokens)?;
+      let result = T::maybe(tokens);
       tokens.unread(token);
-      Ok(result)
+      result
     } else {
       T::maybe(tokens)
     }
@@ -556,9 +556,9 @@ where
   fn maybe(tokens: &mut TS) -> Result<bool> {
     if P::maybe(tokens)? {
       let token = tokens.next_token()?;
-      let result = T::maybe(tokens)?;
+      let result = T::maybe(tokens);
       tokens.unread(token);
-      Ok(result)
+      result
     } else {
       Ok(false)
     }
diff --git a/src/token.rs b/src/token.rs
index afc387a..b2fb9ac 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -157,10 +157,17 @@ pub trait TokenStream: Tokenizer {
     Self::Token: Clone,
   {
     let token1 = self.next_token()?;
-    let token2 = self.next_token()?;
-    self.unread(token2.clone());
-    self.unread(token1.clone());
-    Ok((token1, token2))
+    match self.next_token() {
+      Ok(token2) => {
+        self.unread(token2.clone());
+        self.unread(token1.clone());
+        Ok((token1, token2))
+      }
+      Err(e) => {
+        self.unread(token1);
+        Err(e)
+      }
+    }
   }
 
   /// Peeks the next N tokens from the token stream.
@@ -170,11 +177,13 @@ pub trait TokenStream: Tokenizer {
   where
     Self::Token: Clone,
   {
-    let v = (0..n)
-      .map(|_| self.next_token())
-      .collect::<Result<Vec<_>>>()?;
+    let mut v = Vec::new();
+    let mut result = Ok(());
+    while v.len() < n && result.is_ok() {
+      result = self.next_token().map(|t| v.push(t));
+    }
     v.iter().rev().for_each(|t| self.unread(t.clone()));
-    Ok(v)
+    result.map(|_| v)
   }
 
   /// Skips tokens untils a token specified by the predicate is encountered.
-- 
2.43.0


From f4697975b60c6cd5d9c3b464ea84a1d8def3c535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:43 +0000
Subject: [PATCH 12/18] fix: print raw variant names without `r#` in token
 kinds and lexer errors

---
 laps_macros/src/token_kind.rs | 4 ++--
 laps_macros/src/tokenize.rs   | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/laps_macros/src/token_kind.rs b/laps_macros/src/token_kind.rs
index fd7fd0d..d9747bd 100644
--- a/laps_macros/src/token_kind.rs
+++ b/laps_macros/src/token_kind.rs
@@ -2,7 +2,7 @@ use crate::utils::{camel_to_lower, parse_doc_comments, return_error};
 use proc_macro::TokenStream;
 use proc_macro2::TokenStream as TokenStream2;
 use quote::quote;
-use syn::{Fields, ItemEnum, Result};
+use syn::{ext::IdentExt, Fields, ItemEnum, Result};
 
 /// Entry function of `#[token_kind]`.
 pub fn token_kind(attr: TokenStream, item: TokenStream) -> Result<TokenStream> {
@@ -72,7 +72,7 @@ fn gen_display_impl(input: &ItemEnum) -> TokenStream2 {
   for variant in &input.variants {
     let ident = &variant.ident;
     let prompt = parse_doc_comments(&variant.attrs).map_or_else(
-      || camel_to_lower(ident.to_string()),
+      || camel_to_lower(ident.unraw().to_string()),
       |mut p| {
         p.make_ascii_lowercase();
         if p.ends_with('.') {
diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index df3e952..8d2dcb7 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -5,6 +5,7 @@ use proc_macro::TokenStream;
 use proc_macro2::{Span, TokenStream as TokenStream2};
 use quote::quote;
 use syn::{
+  ext::IdentExt,
   parse::{Parse, ParseStream},
   spanned::Spanned,
   Data, DeriveInput, Expr, Fields, Ident, ImplGenerics, LitBool, LitStr, Meta, Result, Token, Type,
@@ -123,7 +124,7 @@ impl VariantInfo {
     let fields = FieldInfo::new(&v.fields)?;
     // collect error message
     let err = parse_doc_comments(&v.attrs).map_or_else(
-      || camel_to_lower(v.ident.to_string()),
+      || camel_to_lower(v.ident.unraw().to_string()),
       |mut p| {
         p.make_ascii_lowercase();
         if p.ends_with('.') {
-- 
2.43.0


From d482ec246d58fcec27052aec43b91db7925f0099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:02 +0000
Subject: [PATCH 13/18] fix: accept braces in documentation of token kinds and
 lexer definitions

---
 laps_macros/src/token_kind.rs | 4 +++-
 laps_macros/src/tokenize.rs   | 4 +++-
 laps_macros/src/utils.rs      | 6 ++++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/laps_macros/src/token_kind.rs b/laps_macros/src/token_kind.rs
index d9747bd..bfe8c14 100644
--- a/laps_macros/src/token_kind.rs
+++ b/laps_macros/src/token_kind.rs
@@ -1,4 +1,4 @@
-use crate::utils::{camel_to_lower, parse_doc_comments, return_error};
+use crate::utils::{camel_to_lower, escape_braces, parse_doc_comments, return_error};
 use proc_macro::TokenStream;
 use proc_macro2::TokenStream as TokenStream2;
 use quote::quote;
@@ -81,6 +81,8 @@ fn gen_display_impl(input: &ItemEnum) -> TokenStream2 {
         p
       },
     );
+    // the prompt will be used as a format string
+    let prompt = escape_braces(prompt);
     arms.extend(match &variant.fields {
       Fields::Unnamed(f) if f.unnamed.len() == 1 => {
         let prompt = prompt + " `{}`";
diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 8d2dcb7..af9d6e7 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -1,4 +1,4 @@
-use crate::utils::{camel_to_lower, error, match_attr, parse_doc_comments, return_error};
+use crate::utils::{camel_to_lower, error, escape_braces, match_attr, parse_doc_comments, return_error};
 use laps_regex::re::{Error, RegexBuilder, RegexMatcher};
 use laps_regex::table::StateTransTable;
 use proc_macro::TokenStream;
@@ -133,6 +133,8 @@ impl VariantInfo {
         p
       },
     );
+    // the message will be used as a format string
+    let err = escape_braces(err);
     // collect variant attributes
     let mut attr = None;
     for a in &v.attrs {
diff --git a/laps_macros/src/utils.rs b/laps_macros/src/utils.rs
index f41a66f..8249d42 100644
--- a/laps_macros/src/utils.rs
+++ b/laps_macros/src/utils.rs
@@ -113,3 +113,9 @@ pub fn camel_to_lower(s: String) -> String {
   }
   ans
 }
+
+/// Escapes braces in the given string, so that it stays the same
+/// when it is used as a format string.
+pub fn escape_braces(s: String) -> String {
+  s.replace('{', "{{").replace('}', "}}")
+}
-- 
2.43.0


From d9a168b219a38a8d5147e4b1945a73599649f6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:16 +0000
Subject: [PATCH 14/18] fix: align marks under lines with numbers of eight
 digits

The width of the line number column was computed with f32, which cannot tell
10,000,000 from 9,999,999: marks were printed one column too far left.
---
 src/span.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index d59158e..ac7f178 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -462,7 +462,7 @@ impl Span {
       self.start.col,
       self.end.col
     );
-    let width = ((line_num + 1) as f32).log10().ceil() as usize;
+    let width = line_num.to_string().len();
     let leading = " ".repeat(c1.saturating_sub(1));
     let underline = "^".repeat(c2 - c1 + 1);
     // print the current line to stderr
@@ -484,7 +484,7 @@ impl Span {
   {
     let mut buf = String::new();
     // get some parameters
-    let width = (self.end.line as f32 + 1.0).log10().ceil() as usize;
+    let width = self.end.line.to_string().len();
     let width = std::cmp::max(width, 2);
     // write the first line to buffer
     let line_num = self.start.line as usize;
-- 
2.43.0


From e03ba03c5a33b80be987261daebdc3c4b80127fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 15/18] fix: derive Spanned for fields named by a raw
 identifier

---
 laps_macros/src/spanned.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/laps_macros/src/spanned.rs b/laps_macros/src/spanned.rs
index 8639bc2..9e7cdc9 100644
--- a/laps_macros/src/spanned.rs
+++ b/laps_macros/src/spanned.rs
@@ -3,8 +3,8 @@ use proc_macro::TokenStream;
 use proc_macro2::{Ident, Literal, TokenStream as TokenStream2};
 use quote::quote;
 use syn::{
-  punctuated::Punctuated, spanned::Spanned, Attribute, Data, DataEnum, DataStruct, DeriveInput,
-  Field, Fields, Meta, Result, Token, Variant,
+  ext::IdentExt, punctuated::Punctuated, spanned::Spanned, Attribute, Data, DataEnum, DataStruct,
+  DeriveInput, Field, Fields, Meta, Result, Token, Variant,
 };
 
 /// Entry function of `#[derive(Spanned)]`.
@@ -86,7 +86,7 @@ fn gen_fields_extract(
     let ts = has_try_span(&field.attrs)?;
     let span = field.span();
     let (ext, ts_id) = if let Some(id) = &field.ident {
-      let new_id = Ident::new(&format!("_{id}"), span);
+      let new_id = Ident::new(&format!("_{}", id.unraw()), span);
       (quote!(#id: #new_id,), (ts, new_id))
     } else {
       let index = Literal::usize_unsuffixed(i);
-- 
2.43.0


From 375552a8693b62c2ffd01c60c53a75eb770105eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 16/18] fix: token_ast macros named by a raw identifier

---
 laps_macros/src/token_ast.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/laps_macros/src/token_ast.rs b/laps_macros/src/token_ast.rs
index a4a55b8..f090220 100644
--- a/laps_macros/src/token_ast.rs
+++ b/laps_macros/src/token_ast.rs
@@ -4,6 +4,7 @@ use proc_macro2::{Ident, TokenStream as TokenStream2};
 use quote::quote;
 use syn::{
   braced, bracketed,
+  ext::IdentExt,
   parse::{Parse, ParseStream},
   punctuated::{Pair, Punctuated},
   spanned::Spanned,
@@ -236,7 +237,7 @@ fn gen_ast_defs(input: &TokenAst) -> Result<(TokenStream2, Vec<TokenStream2>)> {
     })
     .collect::<Result<_>>()?;
   let vis = &input.vis;
-  let mod_name = ident(&format!("__token_ast_{}", input.name));
+  let mod_name = ident(&format!("__token_ast_{}", input.name.unraw()));
   let ast_defs = quote! {
     #[doc(hidden)]
     #[allow(non_snake_case)]
-- 
2.43.0


From 8f20f1b5871c237f3b6ddc882314edb3eb12f530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:58 +0000
Subject: [PATCH 17/18] fix: accept braces in prompts of token_ast

---
 laps_macros/src/token_ast.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/laps_macros/src/token_ast.rs b/laps_macros/src/token_ast.rs
index f090220..0e83ccb 100644
--- a/laps_macros/src/token_ast.rs
+++ b/laps_macros/src/token_ast.rs
@@ -1,4 +1,4 @@
-use crate::utils::{ident, return_error};
+use crate::utils::{escape_braces, ident, return_error};
 use proc_macro::TokenStream;
 use proc_macro2::{Ident, TokenStream as TokenStream2};
 use quote::quote;
@@ -171,14 +171,18 @@ fn gen_ast_defs(input: &TokenAst) -> Result<(TokenStream2, Vec<TokenStream2>)> {
     .map(|(name, TokenAstArm { pat, guard, prompt, .. })| {
       let if_guard = guard.as_ref().map(|e| quote!(if #e));
       let parse_body = match prompt {
-        Some(prompt) => quote! {
-          let token = tokens.next_token()?;
-          match &token.kind {
-            #[allow(unused_parens)]
-            #pat #if_guard => std::result::Result::Ok(Self(token)),
-            _ => laps::return_error!(token.span, std::concat!("expected ", #prompt, ", found {}"), token),
+        Some(prompt) => {
+          // the prompt will be used as a format string
+          let prompt = LitStr::new(&escape_braces(prompt.value()), prompt.span());
+          quote! {
+            let token = tokens.next_token()?;
+            match &token.kind {
+              #[allow(unused_parens)]
+              #pat #if_guard => std::result::Result::Ok(Self(token)),
+              _ => laps::return_error!(token.span, std::concat!("expected ", #prompt, ", found {}"), token),
+            }
           }
-        },
+        }
         None => match if_guard {
           Some(e) => return_error!(e.span(), "if-guard must be used with `prompt`"),
           None => quote!(tokens.expect(#pat).map(Self)),
-- 
2.43.0


From f649ccdc1013c34667f2b6c282cc17d24433da37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:58 +0000
Subject: [PATCH 18/18] fix: accept other attributes after regex/skip/eof in
 derived lexers

---
 laps_macros/src/tokenize.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index af9d6e7..ca379c9 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -138,18 +138,13 @@ impl VariantInfo {
     // collect variant attributes
     let mut attr = None;
     for a in &v.attrs {
-      if attr.is_none() {
-        match &a.meta {
-          Meta::List(l) if l.path.is_ident("regex") => {
-            attr = Some(VariantAttr::new_regex(&l.tokens)?);
-          }
-          Meta::List(l) if l.path.is_ident("skip") => {
-            attr = Some(VariantAttr::new_skip(&l.tokens)?);
-          }
-          Meta::Path(p) if p.is_ident("eof") => attr = Some(VariantAttr::Eof),
-          _ => {}
-        }
-      } else {
+      let new_attr = match &a.meta {
+        Meta::List(l) if l.path.is_ident("regex") => VariantAttr::new_regex(&l.tokens)?,
+        Meta::List(l) if l.path.is_ident("skip") => VariantAttr::new_skip(&l.tokens)?,
+        Meta::Path(p) if p.is_ident("eof") => VariantAttr::Eof,
+        _ => continue,
+      };
+      if attr.replace(new_attr).is_some() {
         return_error!(
           a.span(),
           "attribute `regex`/`skip`/`eof` is bound more than once"
-- 
2.43.0

