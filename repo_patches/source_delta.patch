From 00d68c538372ddb8c0f14fa9d53a333e66d71a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:54 +0000
Subject: [PATCH 01/38] fix: keep locations of an unterminated regexp literal
 inside the input

---
 src/builder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 34faa6e..8f24ca0 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -558,8 +558,8 @@ impl Builder {
     // Regular expressions
 
     pub(crate) fn regexp_options(&self, regexp_end_t: PoolValue<Token>) -> Option<Box<Node>> {
-        if regexp_end_t.loc.end - regexp_end_t.loc.begin == 1 {
-            // no regexp options, only trailing "/"
+        if regexp_end_t.loc.end - regexp_end_t.loc.begin <= 1 {
+            // no regexp options, only trailing "/" (or nothing if the regexp is unterminated)
             return None;
         }
         let expression_l = self.loc(&regexp_end_t).adjust_begin(1);
@@ -587,7 +587,10 @@ impl Builder {
         options: Option<Box<Node>>,
     ) -> Box<Node> {
         let begin_l = self.loc(&begin_t);
-        let end_l = self.loc(&end_t).resize(1);
+        let mut end_l = self.loc(&end_t);
+        if end_l.size() > 1 {
+            end_l = end_l.resize(1);
+        }
         let expression_l =
             begin_l.join(&maybe_boxed_node_expr(&options).unwrap_or_else(|| self.loc(&end_t)));
 
-- 
2.43.0


From ec8b058d8285a2df8d5c66addfa253e54782094a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:54 +0000
Subject: [PATCH 02/38] fix: give the end token of an unterminated heredoc a
 valid location

---
 src/lexer/parse_heredoc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 92f2391..2650744 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -307,6 +307,9 @@ impl Lexer {
 
     fn here_document_error(&mut self, here: &HeredocLiteral, eos: usize, len: usize) -> i32 {
         self.heredoc_restore(here);
+        // the token that ends here starts and ends at the restored position
+        self.lval_start = None;
+        self.lval_end = None;
         self.compile_error(
             DiagnosticMessage::UnterminatedHeredoc {
                 heredoc_id: String::from_utf8_lossy(
-- 
2.43.0


From 6acfb9868d2894a379ec56ed039ba36262a93ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:00 +0000
Subject: [PATCH 03/38] fix: locate the content of a heredoc without its
 terminator or interpolation

---
 src/lexer/parse_heredoc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 2650744..ebe8a10 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -207,7 +207,7 @@ impl Lexer {
                         .expect("failed to get heredoc id for comparison"),
                     indent,
                 ) {
-                    self.lval_end = Some(self.buffer.pend - 1);
+                    self.lval_end = Some(self.buffer.pbeg);
                     heredoc_end = self.compute_heredoc_end();
                     break;
                 }
@@ -240,7 +240,7 @@ impl Lexer {
                         return self.here_document_restore(&here);
                     }
                 }
-                self.lval_end = Some(self.buffer.pcur + 1);
+                self.lval_end = Some(self.buffer.pcur);
                 if c != b'\n' {
                     if c == b'\\' {
                         self.buffer.heredoc_line_indent = -1
@@ -248,6 +248,7 @@ impl Lexer {
                     return self.heredoc_flush();
                 }
                 let cc = self.nextc();
+                self.lval_end = Some(self.buffer.pcur);
                 self.tokadd(cc);
                 if self.buffer.heredoc_indent > 0 {
                     self.buffer.goto_eol();
-- 
2.43.0


From 94f733ca33183beaa6f30589c6e28c5aefe7ea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:00 +0000
Subject: [PATCH 04/38] fix: drop the CR of CRLF line ends in raw heredocs and
 heredoc terminators

---
 src/lexer/parse_heredoc.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index ebe8a10..cf4f595 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -163,6 +163,8 @@ impl Lexer {
                                 || self.buffer.input.unchecked_byte_at(ptr_end - 1) != b'\r'
                             {
                                 ptr_end += 1;
+                            } else {
+                                ptr_end -= 1;
                             }
                         }
                         b'\r' => {
@@ -292,6 +294,9 @@ impl Lexer {
             if c.is_eof() || c == b'\n' {
                 break;
             }
+            if c == b'\r' && self.buffer.byte_at(end + 1) == b'\n' {
+                break;
+            }
             end += 1;
         }
         let value = self
-- 
2.43.0


From c01ca2d45c02bdd846ac830dc2867e83140b3ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:00 +0000
Subject: [PATCH 05/38] fix: keep the location of an incomplete character
 literal inside the input

---
 src/builder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 8f24ca0..c7d0a6a 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -308,7 +308,11 @@ impl Builder {
     pub(crate) fn character(&self, mut char_t: PoolValue<Token>) -> Box<Node> {
         let str_loc = self.loc(&char_t);
 
-        let begin_l = Some(str_loc.with_end(str_loc.begin + 1));
+        let begin_l = if str_loc.size() > 0 {
+            Some(str_loc.with_end(str_loc.begin + 1))
+        } else {
+            None
+        };
         let end_l = None;
         let expression_l = str_loc;
 
-- 
2.43.0


From a39f1918bff4a0fad1a1ef5d64114df075432169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:04 +0000
Subject: [PATCH 06/38] fix: remove tabs from a squiggly heredoc by its
 indentation, not by the tab width

---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index c7d0a6a..e08d399 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -545,7 +545,7 @@ impl Builder {
                 col += 1;
             } else if s[i] == b'\t' {
                 let n = Self::TAB_WIDTH * (col / Self::TAB_WIDTH + 1);
-                if n > Self::TAB_WIDTH {
+                if n > width {
                     break;
                 }
                 col = n;
-- 
2.43.0


From 6c29cc6fd9ca9f6224ec1c5be136918fd4a54f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:23 +0000
Subject: [PATCH 07/38] fix: do not panic when a string follows a squiggly
 heredoc that was dropped

---
 src/builder.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index e08d399..029fd8c 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -524,9 +524,8 @@ impl Builder {
                     expression_l,
                 }))
             }
-            _ => {
-                unreachable!("unsupported heredoc_dedent argument {}", node.str_type())
-            }
+            // the indentation was left over from a heredoc that error recovery dropped
+            other => Box::new(other),
         }
     }
 
-- 
2.43.0


From 4ae2fe9e037921310608465de3fccb5050ca0e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:23 +0000
Subject: [PATCH 08/38] fix: locate heredoc bodies that follow other heredocs,
 skip tabs before the terminator

---
 src/lexer/parse_heredoc.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index cf4f595..333d909 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -117,6 +117,7 @@ impl Lexer {
             StrTerm::HeredocLiteral(h) => h.clone(),
         };
         self.lval_start = Some(self.buffer.pcur);
+        let pbeg = self.buffer.pbeg;
 
         let mut ptr;
         let mut ptr_end;
@@ -133,6 +134,10 @@ impl Lexer {
         if c.is_eof() {
             return self.here_document_error(&here, eos, len);
         }
+        if self.buffer.pbeg != pbeg {
+            // the body may start after the bodies of other heredocs
+            self.lval_start = Some(self.buffer.pbeg);
+        }
         let bol = self.buffer.was_bol();
         if !bol {
             /* not beginning of line, cannot be the terminator */
@@ -285,7 +290,9 @@ impl Lexer {
     fn compute_heredoc_end(&self) -> HeredocEnd {
         let start = self.buffer.pbeg;
         let mut end_starts_at = start;
-        while self.buffer.byte_at(end_starts_at) == b' ' {
+        while self.buffer.byte_at(end_starts_at) == b' '
+            || self.buffer.byte_at(end_starts_at) == b'\t'
+        {
             end_starts_at += 1;
         }
         let mut end = end_starts_at;
-- 
2.43.0


From 44be057add526aaf751dbb0fed9b73e7d39763fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:23 +0000
Subject: [PATCH 09/38] fix: give an empty heredoc an empty body location

---
 src/builder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 029fd8c..b8d6873 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -4095,7 +4095,11 @@ impl Builder {
         let begin_t = begin_t.as_ref().expect("bug: begin_t must be Some");
         let end_t = end_t.as_ref().expect("heredoc must have end_t");
 
-        let heredoc_body_l = collection_expr(parts).unwrap_or_else(|| self.loc(end_t));
+        let heredoc_body_l = collection_expr(parts).unwrap_or_else(|| {
+            // an empty body
+            let end_l = self.loc(end_t);
+            end_l.with_end(end_l.begin)
+        });
         let expression_l = self.loc(begin_t);
         let heredoc_end_l = self.loc(end_t);
 
-- 
2.43.0


From dba4a0bc9a99156695375299b70bd10702575af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:09 +0000
Subject: [PATCH 10/38] fix: "\8" and "\9" are the digits themselves, not octal
 escapes

---
 src/lexer/parse_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index ed83777..251b993 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -663,7 +663,7 @@ impl Lexer {
             Some(b'e') => MaybeByte::new(0x1b_u8),
 
             Some(b'0') | Some(b'1') | Some(b'2') | Some(b'3') | Some(b'4') | Some(b'5')
-            | Some(b'6') | Some(b'7') | Some(b'8') | Some(b'9') => {
+            | Some(b'6') | Some(b'7') => {
                 self.buffer.pushback(c);
                 let c = self.scan_oct(self.buffer.pcur, 3, &mut numlen);
                 self.buffer.pcur += numlen;
-- 
2.43.0


From afd0541765cfe6e51c145acf0ea23f8b1d40dade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:09 +0000
Subject: [PATCH 11/38] fix: do not duplicate a backslash before a non-ASCII
 character in raw strings

---
 src/lexer/parse_string.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index 251b993..72c3c88 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -314,6 +314,7 @@ impl Lexer {
                         if !c.is_ascii() && (func & STR_FUNC_EXPAND) == 0 {
                             self.tokadd(b'\\');
                             self.tokadd(c);
+                            continue;
                         }
                         if (func & STR_FUNC_REGEXP) != 0 {
                             match c {
-- 
2.43.0


From 68942e35ea7b08e8d7ac755e4b46f562f063eac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:09 +0000
Subject: [PATCH 12/38] fix: control escapes in regexps become two-digit hex
 escapes

---
 src/lexer/parse_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index 72c3c88..bddb65b 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -325,7 +325,7 @@ impl Lexer {
                                     c = self.read_escape(0);
 
                                     let mut escbuf = [0_u8; 5];
-                                    write!(&mut escbuf[..], "\\x{:X}", c.expect("bug")).unwrap();
+                                    write!(&mut escbuf[..], "\\x{:02X}", c.expect("bug")).unwrap();
                                     for byte in escbuf.iter().take(4) {
                                         self.tokadd(MaybeByte::Some(*byte));
                                     }
-- 
2.43.0


From c04f2f9eedacfc58115dfcce0aa20a811a261fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:52 +0000
Subject: [PATCH 13/38] fix: a number cut off after its point or exponent at
 the end of input is an error

---
 src/lexer/parse_numeric.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/lexer/parse_numeric.rs b/src/lexer/parse_numeric.rs
index 477cb3c..b3d53cd 100644
--- a/src/lexer/parse_numeric.rs
+++ b/src/lexer/parse_numeric.rs
@@ -205,12 +205,10 @@ impl Lexer {
                     if seen_point.is_some() || seen_e {
                         return self.decode_num(c, nondigit, is_float, seen_e);
                     } else {
-                        let c0 = self.nextc();
-                        if c.is_eof() || !c0.is_digit() {
-                            self.buffer.pushback(c0);
+                        if !self.buffer.peekc().is_digit() {
                             return self.decode_num(c, nondigit, is_float, seen_e);
                         }
-                        c = c0;
+                        c = self.nextc();
                     }
                     seen_point = Some(self.toklen());
                     self.tokadd(b'.');
@@ -228,13 +226,12 @@ impl Lexer {
                     if seen_e {
                         return self.decode_num(c, nondigit, is_float, seen_e);
                     }
-                    nondigit = Some(c);
-                    c = self.nextc();
-                    if c != b'-' && c != b'+' && !c.is_digit() {
-                        self.buffer.pushback(c);
-                        nondigit = None;
+                    let c0 = self.buffer.peekc();
+                    if c0 != b'-' && c0 != b'+' && !c0.is_digit() {
                         return self.decode_num(c, nondigit, is_float, seen_e);
                     }
+                    nondigit = Some(c);
+                    c = self.nextc();
                     self.tokadd(nondigit.expect("nondigit must be set"));
                     seen_e = true;
                     is_float = true;
-- 
2.43.0


From c532365f8886f691e884dee5623f26dc937bc446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:12 +0000
Subject: [PATCH 14/38] fix: the sign of a prefixed number comes before its 0

---
 src/lexer/parse_numeric.rs | 10 ++--------
 src/token_buf.rs           |  6 ------
 2 files changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/lexer/parse_numeric.rs b/src/lexer/parse_numeric.rs
index b3d53cd..63781ea 100644
--- a/src/lexer/parse_numeric.rs
+++ b/src/lexer/parse_numeric.rs
@@ -26,6 +26,7 @@ impl Lexer {
             c = self.nextc();
         }
         if c == b'0' {
+            self.tokadd(c);
             let start = self.toklen();
             c = self.nextc();
             if c == b'x' || c == b'X' {
@@ -67,7 +68,6 @@ impl Lexer {
                 }
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
                 let mut tok = self.tokenbuf.take();
-                tok.prepend(b"0");
                 return self.set_integer_literal(&mut tok, suffix);
             }
             if c == b'b' || c == b'B' {
@@ -109,7 +109,6 @@ impl Lexer {
                 }
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
                 let mut tok = self.tokenbuf.take();
-                tok.prepend(b"0");
                 return self.set_integer_literal(&mut tok, suffix);
             }
             if c == b'd' || c == b'D' {
@@ -151,7 +150,6 @@ impl Lexer {
                 }
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
                 let mut tok = self.tokenbuf.take();
-                tok.prepend(b"0");
                 return self.set_integer_literal(&mut tok, suffix);
             }
             if c == b'_' {
@@ -178,14 +176,11 @@ impl Lexer {
             }
             if c > b'7' && c <= b'9' {
                 self.invalid_octal();
-            } else if c == b'.' || c == b'e' || c == b'E' {
-                self.tokadd(b'0');
-            } else {
+            } else if c != b'.' && c != b'e' && c != b'E' {
                 self.buffer.pushback(c);
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
 
                 let mut tok = self.tokenbuf.take();
-                tok.push(b'0');
                 return self.set_integer_literal(&mut tok, suffix);
             }
         }
@@ -301,7 +296,6 @@ impl Lexer {
             }
             let suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
             let mut tok = self.tokenbuf.take();
-            tok.prepend(b"0");
             return Some(self.set_integer_literal(&mut tok, suffix));
         }
         if let Some(MaybeByte::Some(byte)) = nondigit {
diff --git a/src/token_buf.rs b/src/token_buf.rs
index b8f7159..a6bab32 100644
--- a/src/token_buf.rs
+++ b/src/token_buf.rs
@@ -26,12 +26,6 @@ impl TokenBuf {
         }
     }
 
-    pub(crate) fn prepend(&mut self, part: &[u8]) {
-        let mut tmp = part.to_vec();
-        tmp.extend(self.bytes.as_raw().iter());
-        self.bytes.set_raw(tmp);
-    }
-
     pub(crate) fn borrow_string(&self) -> Result<&str, &[u8]> {
         match std::str::from_utf8(self.bytes.as_raw()) {
             Ok(s) => Ok(s),
-- 
2.43.0


From 39fe4482bba04dca75410b3fb33124827da4985b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:08 +0000
Subject: [PATCH 15/38] fix: a carriage return in the middle of a line is a
 space, as the warning says

---
 src/lexer/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index eda131d..9b74f6a 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -225,6 +225,8 @@ impl Lexer {
                             self.current_loc(),
                         );
                     }
+                    space_seen = true;
+                    continue 'retrying;
                 }
 
                 Some(b' ') | Some(b'\t') | Some(Self::LF_CHAR) | Some(Self::VTAB_CHAR) => {
-- 
2.43.0


From 510222fc3738db9c6b26ea9aa1fa7ea8482a7bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:25 +0000
Subject: [PATCH 16/38] fix: `$-` without a name is an invalid global variable,
 not a character literal

---
 src/lexer/parse_gvar.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lexer/parse_gvar.rs b/src/lexer/parse_gvar.rs
index bad12eb..3a05edb 100644
--- a/src/lexer/parse_gvar.rs
+++ b/src/lexer/parse_gvar.rs
@@ -54,8 +54,7 @@ impl Lexer {
                     if self.tokadd_mbchar(c).is_err() { return Self::END_OF_INPUT }
                 } else {
                     self.buffer.pushback(c);
-                    self.buffer.pushback(b'-');
-                    return Self::tCHAR;
+                    self.compile_error(DiagnosticMessage::InvalidGvarName { c: b'-' }, self.current_loc());
                 }
                 return Self::tGVAR;
             },
-- 
2.43.0


From e4059c53d77a6f6f29ee984c327242e1fee8c6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:10 +0000
Subject: [PATCH 17/38] fix: find the identifier of a heredoc on the line of a
 byte-order mark

---
 src/lexer/parse_heredoc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 333d909..4b13020 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -14,7 +14,9 @@ impl Lexer {
          * term_len is length of `<<"END"` except `END`,
          * in this case term_len is 4 (<, <, " and ").
          */
-        let mut offset = self.buffer.pcur - self.buffer.pbeg;
+        // pbeg of the first line is past the BOM (if any), offset includes it
+        let line_start = self.buffer.input.line_at(self.buffer.lastline).start;
+        let mut offset = self.buffer.pcur - line_start;
         let mut c = self.nextc();
         let term;
         let mut func = 0;
@@ -83,7 +85,7 @@ impl Lexer {
             self.buffer.pushback(c);
         }
 
-        let len = self.buffer.pcur - (self.buffer.pbeg + offset) - quote;
+        let len = self.buffer.pcur - (line_start + offset) - quote;
 
         let id = self
             .buffer
-- 
2.43.0


From 2dcd4b4623bbc74c3b3ae2ac4f8ee63680f3e25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:53 +0000
Subject: [PATCH 18/38] fix: keep the source when it cannot be decoded

---
 src/source/decoded_input.rs | 4 ----
 src/source/input.rs         | 3 ++-
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/source/decoded_input.rs b/src/source/decoded_input.rs
index 2889130..9beca55 100644
--- a/src/source/decoded_input.rs
+++ b/src/source/decoded_input.rs
@@ -31,10 +31,6 @@ impl DecodedInput {
         self.bytes
     }
 
-    pub(crate) fn take_bytes(&mut self) -> Vec<u8> {
-        std::mem::take(&mut self.bytes)
-    }
-
     /// Populates `Input` with a given byte array
     pub fn update_bytes(&mut self, bytes: Vec<u8>) {
         let mut line = SourceLine {
diff --git a/src/source/input.rs b/src/source/input.rs
index a124351..ae33ffd 100644
--- a/src/source/input.rs
+++ b/src/source/input.rs
@@ -63,8 +63,9 @@ impl Input {
     }
 
     pub(crate) fn set_encoding(&mut self, encoding: &str) -> Result<(), InputError> {
+        // keep the source: it's what a decoding error is reported for
         let new_input = decode_input(
-            self.decoded.take_bytes(),
+            self.as_shared_bytes().to_vec(),
             String::from(encoding),
             &mut self.decoder,
         )
-- 
2.43.0


From 2bb9e1ca84557a3f3ee44298f6e55092bfcdd0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:42 +0000
Subject: [PATCH 19/38] fix: a regexp or range in the condition of a ternary is
 a match or flip-flop

---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index b8d6873..d780c86 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -2606,7 +2606,7 @@ impl Builder {
         let colon_l = self.loc(&colon_t);
 
         Box::new(Node::IfTernary(IfTernary {
-            cond,
+            cond: Self::check_condition(cond),
             if_true,
             if_false,
             question_l,
-- 
2.43.0


From f7e618f3ea92df0607f8a16f50006c28b3e26fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:52 +0000
Subject: [PATCH 20/38] fix: keep the blanks between an interpolation and the
 text after it in squiggly heredocs

---
 src/builder.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index d780c86..cc13f86 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -461,6 +461,8 @@ impl Builder {
             .expect("dedent_level must be positive");
 
         let dedent_heredoc_parts = |parts: Vec<Node>| -> Vec<Node> {
+            // text after an interpolation is not at the beginning of its line
+            let mut at_line_begin = true;
             parts
                 .into_iter()
                 .filter_map(|part| match part {
@@ -470,7 +472,12 @@ impl Builder {
                         end_l,
                         expression_l,
                     }) => {
-                        let value = Self::dedent_string(value, dedent_level);
+                        let value = if at_line_begin {
+                            Self::dedent_string(value, dedent_level)
+                        } else {
+                            value
+                        };
+                        at_line_begin = true;
                         if value.is_empty() {
                             None
                         } else {
@@ -487,7 +494,10 @@ impl Builder {
                     | Node::BackRef(_)
                     | Node::NthRef(_)
                     | Node::Ivar(_)
-                    | Node::Cvar(_) => Some(part),
+                    | Node::Cvar(_) => {
+                        at_line_begin = false;
+                        Some(part)
+                    }
                     other => {
                         unreachable!("unsupported heredoc child {}", other.str_type())
                     }
-- 
2.43.0


From e87b4c9aaca20ad655493c707e5d141b4980439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:35 +0000
Subject: [PATCH 21/38] fix: the indentation of a blank line does not add to
 the next line of a squiggly heredoc

---
 src/lexer/parse_heredoc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 4b13020..a3df006 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -400,6 +400,9 @@ impl Lexer {
                 self.buffer.heredoc_indent = self.buffer.heredoc_line_indent
             }
             self.buffer.heredoc_line_indent = -1;
+        } else {
+            // the indentation of a blank line does not count for the next line
+            self.buffer.heredoc_line_indent = 0;
         }
         true
     }
-- 
2.43.0


From 70775e81cec7b5ed811e55d678ee0074d32bcbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:50 +0000
Subject: [PATCH 22/38] fix: a vertical tab may indent the terminator of a
 heredoc

---
 src/source/buffer.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/source/buffer.rs b/src/source/buffer.rs
index 7cd46c5..a0f2689 100644
--- a/src/source/buffer.rs
+++ b/src/source/buffer.rs
@@ -265,10 +265,7 @@ impl Buffer {
         let len = eos.len();
 
         if indent > 0 {
-            while let Some(c) = self.input.byte_at(ptr) {
-                if !c.is_ascii_whitespace() {
-                    break;
-                }
+            while self.byte_at(ptr).is_space() {
                 ptr += 1;
             }
         }
-- 
2.43.0


From 08b94cb1e76911685346262a6f11477e41983606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:48 +0000
Subject: [PATCH 23/38] fix: no panic on duplicate parameters with a non-ASCII
 name

---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index cc13f86..5a868ae 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3901,7 +3901,7 @@ impl Builder {
     }
 
     pub(crate) fn arg_name_collides(&self, this_name: &str, that_name: &str) -> bool {
-        &this_name[0..1] != "_" && this_name == that_name
+        !this_name.starts_with('_') && this_name == that_name
     }
 
     pub(crate) fn check_lvar_name(&self, name: &str, loc: &Loc) -> Result<(), ()> {
-- 
2.43.0


From b4a974017e777683e990739679dc34b5c03968da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:53 +0000
Subject: [PATCH 24/38] fix: names that do not start with an upper-case letter
 are local variables, also as labels and in patterns

---
 src/builder.rs     | 21 ++++++++++++---------
 src/parser/parse.y |  2 +-
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 5a868ae..a4202af 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -825,12 +825,12 @@ impl Builder {
         let value_l = key_l.adjust_end(-1);
 
         let label = value(key_t.clone());
-        let value = if label
+        let is_const = label
             .chars()
             .next()
             .expect("bug: label can't be empty")
-            .is_lowercase()
-        {
+            .is_uppercase();
+        let value = if !is_const || label.ends_with(&['?', '!'][..]) {
             Box::new(Node::Lvar(Lvar {
                 name: label,
                 expression_l: value_l,
@@ -3905,13 +3905,16 @@ impl Builder {
     }
 
     pub(crate) fn check_lvar_name(&self, name: &str, loc: &Loc) -> Result<(), ()> {
-        let mut all_chars = name.chars();
-        let first = all_chars
-            .next()
-            .expect("local variable name can't be empty");
-        let mut rest = all_chars;
+        let is_ident_char = |c: char| c.is_ascii_alphanumeric() || c == '_' || !c.is_ascii();
+
+        let is_valid = match name.chars().next() {
+            Some(first) => {
+                !first.is_uppercase() && !first.is_ascii_digit() && name.chars().all(is_ident_char)
+            }
+            None => false,
+        };
 
-        if (first.is_lowercase() || first == '_') && rest.all(|c| c.is_alphanumeric() || c == '_') {
+        if is_valid {
             Ok(())
         } else {
             self.error(DiagnosticMessage::KeyMustBeValidAsLocalVariable {}, loc);
diff --git a/src/parser/parse.y b/src/parser/parse.y
index e889a9c..18d5f1c 100644
--- a/src/parser/parse.y
+++ b/src/parser/parse.y
@@ -7025,7 +7025,7 @@ impl Parser {
     fn check_kwarg_name(&self, ident_t: &Token) -> Result<(), ()> {
         let name = clone_value(ident_t);
         let first_char = name.as_str().chars().next().expect("kwarg name can't be empty");
-        if first_char.is_lowercase() || first_char == '_' {
+        if !first_char.is_uppercase() {
             Ok(())
         } else {
             let loc = ident_t.loc;
-- 
2.43.0


From 8249b73f50cb7b25e2971e7eec12a75fd7e0e8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:19 +0000
Subject: [PATCH 25/38] fix: a value-less key of a hash pattern counts for
 duplicate keys

---
 src/builder.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index a4202af..a01445e 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3620,9 +3620,21 @@ impl Builder {
 
     pub(crate) fn match_label(&self, p_kw_label: PKwLabel) -> Result<Box<Node>, ()> {
         match p_kw_label {
-            PKwLabel::PlainLabel(label_t) => self.match_hash_var(label_t),
+            PKwLabel::PlainLabel(label_t) => {
+                let key = clone_value(&label_t);
+                let key_l = self.loc(&label_t);
+                let match_var = self.match_hash_var(label_t)?;
+                self.check_duplicate_pattern_key(key.as_str(), &key_l)?;
+                Ok(match_var)
+            }
             PKwLabel::QuotedLabel((begin_t, parts, end_t)) => {
-                self.match_hash_var_from_str(begin_t, parts, end_t)
+                let key = Self::static_string(&parts);
+                let key_l = self.loc(&begin_t).join(&self.loc(&end_t));
+                let match_var = self.match_hash_var_from_str(begin_t, parts, end_t)?;
+                if let Some(key) = key {
+                    self.check_duplicate_pattern_key(&key, &key_l)?;
+                }
+                Ok(match_var)
             }
         }
     }
-- 
2.43.0


From a4198cc11f3d69bb6f37e4d4c798692173dd31f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:44 +0000
Subject: [PATCH 26/38] fix: a block argument and a block given to super or an
 index is an error

---
 src/builder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index a01445e..d226f68 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -2117,9 +2117,12 @@ impl Builder {
             Node::Send(Send { args, .. }) => {
                 validate_block_and_block_arg(args)?;
             }
-            Node::CSend(CSend { args, .. }) => {
+            Node::CSend(CSend { args, .. }) | Node::Super(Super { args, .. }) => {
                 validate_block_and_block_arg(args)?;
             }
+            Node::Index(Index { indexes, .. }) => {
+                validate_block_and_block_arg(indexes)?;
+            }
             _ => {}
         }
 
-- 
2.43.0


From 03b52d1e69ab18c5a40ef4285cb2076c2244a58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:44 +0000
Subject: [PATCH 27/38] fix: numbered parameters used in an outer or inner
 block are rejected

---
 src/builder.rs            |  7 ++++++-
 src/max_numparam_stack.rs | 28 +++++++++++++++++++++++++++-
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index d226f68..eedd2a6 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -4277,7 +4277,8 @@ impl Builder {
         match name.as_bytes()[..] {
             [b'_', n]
                 if (b'1'..=b'9').contains(&n)
-                    && !self.static_env.is_declared(name)
+                    && (!self.static_env.is_declared(name)
+                        || self.max_numparam_stack.has_numparams_in_blocks())
                     && self.context.is_in_dynamic_block() =>
             {
                 if true {
@@ -4287,6 +4288,10 @@ impl Builder {
                         self.error(DiagnosticMessage::OrdinaryParamDefined {}, loc);
                     }
 
+                    if self.max_numparam_stack.has_inner_numparams() {
+                        self.error(DiagnosticMessage::NumparamUsed {}, loc);
+                    }
+
                     let mut raw_max_numparam_stack = self.max_numparam_stack.inner_clone();
 
                     /* ignore current block scope */
diff --git a/src/max_numparam_stack.rs b/src/max_numparam_stack.rs
index cd36938..f077b21 100644
--- a/src/max_numparam_stack.rs
+++ b/src/max_numparam_stack.rs
@@ -5,6 +5,7 @@ use std::rc::Rc;
 pub(crate) struct StackItem {
     pub(crate) value: i32,
     pub(crate) is_static: bool,
+    pub(crate) has_inner_numparams: bool,
 }
 
 #[derive(Debug, Clone, Default)]
@@ -37,6 +38,24 @@ impl MaxNumparamStack {
         self.top() > 0
     }
 
+    /// true if the current block or a block around it uses numbered parameters
+    pub(crate) fn has_numparams_in_blocks(&self) -> bool {
+        self.stack
+            .borrow()
+            .iter()
+            .rev()
+            .take_while(|item| !item.is_static)
+            .any(|item| item.value > 0)
+    }
+
+    /// true if a block inside of the current one uses numbered parameters
+    pub(crate) fn has_inner_numparams(&self) -> bool {
+        match self.stack.borrow().last() {
+            Some(item) => item.has_inner_numparams,
+            None => false,
+        }
+    }
+
     pub(crate) fn register(&self, numparam: i32) {
         self.set(std::cmp::max(self.top(), numparam))
     }
@@ -53,11 +72,18 @@ impl MaxNumparamStack {
         self.stack.borrow_mut().push(StackItem {
             value: 0,
             is_static,
+            has_inner_numparams: false,
         })
     }
 
     pub(crate) fn pop(&self) {
-        self.stack.borrow_mut().pop();
+        let mut stack = self.stack.borrow_mut();
+        if let Some(item) = stack.pop() {
+            if let Some(outer) = stack.last_mut() {
+                let has_numparams = item.value > 0 || item.has_inner_numparams;
+                outer.has_inner_numparams |= has_numparams && !item.is_static;
+            }
+        }
     }
 
     fn set(&self, value: i32) {
-- 
2.43.0


From 2ab59b52dc3deb5298a68dce50d389782cfb2af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:49 +0000
Subject: [PATCH 28/38] fix: the body of a def, class or module inside of a
 block is not in that block

---
 src/builder.rs            | 4 ++--
 src/context.rs            | 4 ----
 src/max_numparam_stack.rs | 8 ++++++++
 src/parser/parse.y        | 2 +-
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index eedd2a6..91a6f11 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3858,7 +3858,7 @@ impl Builder {
     }
 
     pub(crate) fn check_assignment_to_numparam(&self, name: &str, loc: &Loc) -> Result<(), ()> {
-        let assigning_to_numparam = self.context.is_in_dynamic_block()
+        let assigning_to_numparam = self.max_numparam_stack.is_in_dynamic_block()
             && matches!(
                 name,
                 "_1" | "_2" | "_3" | "_4" | "_5" | "_6" | "_7" | "_8" | "_9"
@@ -4279,7 +4279,7 @@ impl Builder {
                 if (b'1'..=b'9').contains(&n)
                     && (!self.static_env.is_declared(name)
                         || self.max_numparam_stack.has_numparams_in_blocks())
-                    && self.context.is_in_dynamic_block() =>
+                    && self.max_numparam_stack.is_in_dynamic_block() =>
             {
                 if true {
                     /* definitely an implicit param */
diff --git a/src/context.rs b/src/context.rs
index 8458fc6..0e3743d 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -62,10 +62,6 @@ impl SharedContext {
         *self.value.borrow()
     }
 
-    pub(crate) fn is_in_dynamic_block(&self) -> bool {
-        self.in_block() || self.in_lambda()
-    }
-
     pub(crate) fn is_empty(&self) -> bool {
         self.value.borrow().is_empty()
     }
diff --git a/src/max_numparam_stack.rs b/src/max_numparam_stack.rs
index f077b21..ad4e6db 100644
--- a/src/max_numparam_stack.rs
+++ b/src/max_numparam_stack.rs
@@ -38,6 +38,14 @@ impl MaxNumparamStack {
         self.top() > 0
     }
 
+    /// true if the current scope is a block or a lambda
+    pub(crate) fn is_in_dynamic_block(&self) -> bool {
+        match self.stack.borrow().last() {
+            Some(item) => !item.is_static,
+            None => false,
+        }
+    }
+
     /// true if the current block or a block around it uses numbered parameters
     pub(crate) fn has_numparams_in_blocks(&self) -> bool {
         self.stack
diff --git a/src/parser/parse.y b/src/parser/parse.y
index 18d5f1c..449d5b3 100644
--- a/src/parser/parse.y
+++ b/src/parser/parse.y
@@ -3590,7 +3590,7 @@ use crate::Loc;
 
         k_return: kRETURN
                     {
-                        if self.context.in_class() && !self.context.in_def() && !(self.context.in_block() || self.context.in_lambda()) {
+                        if self.context.in_class() && !self.context.in_def() && !self.max_numparam_stack.is_in_dynamic_block() {
                             return self.yyerror(@1, DiagnosticMessage::InvalidReturnInClassOrModuleBody {});
                         }
                         $$ = $1;
-- 
2.43.0


From 365de40193cd2310c1e7963ab52c94df9ea25793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:52 +0000
Subject: [PATCH 29/38] fix: numbered parameters are reserved in all places of
 a pattern

---
 src/builder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 91a6f11..a4dc634 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3308,6 +3308,7 @@ impl Builder {
         let name = value(name_t);
 
         self.check_lvar_name(name.as_str(), &name_l)?;
+        self.check_reserved_for_numparam(name.as_str(), &name_l)?;
         self.check_duplicate_pattern_variable(name.as_str(), &name_l)?;
         self.static_env.declare(name.as_str());
 
@@ -3325,6 +3326,7 @@ impl Builder {
         let name = value(name_t);
 
         self.check_lvar_name(name.as_str(), &name_l)?;
+        self.check_reserved_for_numparam(name.as_str(), &name_l)?;
         self.check_duplicate_pattern_variable(name.as_str(), &name_l)?;
         self.static_env.declare(name.as_str());
 
@@ -3360,6 +3362,7 @@ impl Builder {
                 let mut name_l = expression_l;
 
                 self.check_lvar_name(name.as_str(), &name_l)?;
+                self.check_reserved_for_numparam(name.as_str(), &name_l)?;
                 self.check_duplicate_pattern_variable(name.as_str(), &name_l)?;
 
                 self.static_env.declare(name.as_str());
-- 
2.43.0


From cff646f6d092002ad8aef4e63589b1854609d661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:59 +0000
Subject: [PATCH 30/38] fix: the location of an error in a unicode escape at
 the end of the input stays inside of it

---
 src/lexer/parse_string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index bddb65b..ad2db91 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -381,7 +381,7 @@ impl Lexer {
         self.token_flush();
         self.yyerror1(
             DiagnosticMessage::UnterminatedUnicodeEscape {},
-            self.loc(self.buffer.ptok, self.buffer.pcur + 1),
+            self.loc(self.buffer.ptok, self.buffer.pend.min(self.buffer.pcur + 1)),
         );
     }
 
@@ -464,7 +464,7 @@ impl Lexer {
         } {
             self.yyerror1(
                 DiagnosticMessage::InvalidUnicodeEscape {},
-                self.loc(self.buffer.pcur, self.buffer.pcur + 1),
+                self.loc(self.buffer.pcur, self.buffer.pend.min(self.buffer.pcur + 1)),
             );
             return wide && numlen > 0;
         }
-- 
2.43.0


From e74b4fa5849d48a336b195a1b41b9d3745a024cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:49 +0000
Subject: [PATCH 31/38] fix: no argument-prefix warning for &:symbol

---
 src/lexer/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index 9b74f6a..d2b227b 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -596,7 +596,7 @@ impl Lexer {
                         if c != b':'
                             || {
                                 c = self.buffer.peekc_n(1);
-                                !c.is_eof()
+                                c.is_eof()
                             }
                             || !(c == b'\''
                                 || c == b'"'
-- 
2.43.0


From 63084fa92c72fe0687e99e82fb32cad4f981926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:49 +0000
Subject: [PATCH 32/38] fix: name the % operator in the ambiguity warning

---
 src/lexer/parse_percent.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_percent.rs b/src/lexer/parse_percent.rs
index 49ccaf8..e663045 100644
--- a/src/lexer/parse_percent.rs
+++ b/src/lexer/parse_percent.rs
@@ -145,7 +145,7 @@ impl Lexer {
         self.buffer.pushback(c);
         self.warn_balanced(
             Self::tPERCENT,
-            "%%",
+            "%",
             "string literal",
             c,
             space_seen,
-- 
2.43.0


From 90c025e1d6ec5e804a3494cad761fac5d28fc0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:49 +0000
Subject: [PATCH 33/38] fix: suggest the escaped character, not its code, in
 the character syntax warning

---
 src/lexer/parse_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index ad2db91..9e17db7 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -773,7 +773,7 @@ impl Lexer {
     pub(crate) fn warn_space_char(&mut self, c: u8, prefix: &'static str) {
         self.warn(
             DiagnosticMessage::InvalidCharacterSyntax {
-                suggestion: format!("{}\\{}", prefix, c),
+                suggestion: format!("{}\\{}", prefix, char::from(c)),
             },
             self.current_loc(),
         )
-- 
2.43.0


From 2a62faa02baced209ccc56b67e5368f95c31e55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:49 +0000
Subject: [PATCH 34/38] fix: warn once about each duplicated hash key

---
 src/builder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/builder.rs b/src/builder.rs
index a4dc634..7830489 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -946,6 +946,7 @@ impl Builder {
 
                 if do_warn {
                     self.warn(DiagnosticMessage::DuplicateHashKey {}, key2.expression());
+                    break;
                 }
             }
         }
-- 
2.43.0


From deaf1ecf25d760c746085c24136373884e4a1164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:06 +0000
Subject: [PATCH 35/38] fix: warn about a duplicated regexp key that has
 options

The options of two regexps were compared as nodes, locations included, so
that no two keys with options were ever equal.
---
 src/builder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 7830489..5e289ac 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -880,6 +880,13 @@ impl Builder {
                     continue;
                 };
 
+                fn regopts(options: &Option<Box<Node>>) -> Option<&str> {
+                    match options.as_deref() {
+                        Some(Node::RegOpt(RegOpt { options, .. })) => options.as_deref(),
+                        _ => None,
+                    }
+                }
+
                 fn keys_are_equal(left: &Node, right: &Node) -> bool {
                     match (left, right) {
                         // sym
@@ -930,7 +937,7 @@ impl Builder {
                                 options: options2,
                                 ..
                             }),
-                        ) if options1 == options2 => {
+                        ) if regopts(options1) == regopts(options2) => {
                             parts1.len() == parts2.len()
                                 && parts1
                                     .iter()
-- 
2.43.0


From c62bf990abbfe9f6cf6f66bf0478e0bb3fa8d795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:18 +0000
Subject: [PATCH 36/38] fix: keep parentheses around the only statement of
 begin/end

begin_keyword() unwraps the synthesized (begin) node of a list of statements;
it also unwrapped one that comes from parentheses in the source.
---
 src/builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 5e289ac..48f6943 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3166,7 +3166,12 @@ impl Builder {
         if let Some(body) = body {
             let body = *body;
             match body {
-                Node::Begin(Begin { statements, .. }) => {
+                Node::Begin(Begin {
+                    statements,
+                    begin_l: None,
+                    end_l: None,
+                    ..
+                }) => {
                     // Synthesized (begin) from compstmt "a; b".
                     Box::new(Node::KwBegin(KwBegin {
                         statements,
-- 
2.43.0


From be483b329c13739dac21050646f815df34270fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:51 +0000
Subject: [PATCH 37/38] fix: names that start with a title case letter are
 constants

---
 src/builder.rs           | 12 ++++++------
 src/lexer/mod.rs         |  1 +
 src/lexer/parse_ident.rs | 20 ++++++++++++++++++++
 src/parser/parse.y       |  2 +-
 4 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 48f6943..e7b063f 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -825,11 +825,8 @@ impl Builder {
         let value_l = key_l.adjust_end(-1);
 
         let label = value(key_t.clone());
-        let is_const = label
-            .chars()
-            .next()
-            .expect("bug: label can't be empty")
-            .is_uppercase();
+        let first_char = label.chars().next().expect("bug: label can't be empty");
+        let is_const = first_char.is_uppercase() || crate::lexer::is_titlecase(first_char);
         let value = if !is_const || label.ends_with(&['?', '!'][..]) {
             Box::new(Node::Lvar(Lvar {
                 name: label,
@@ -3940,7 +3937,10 @@ impl Builder {
 
         let is_valid = match name.chars().next() {
             Some(first) => {
-                !first.is_uppercase() && !first.is_ascii_digit() && name.chars().all(is_ident_char)
+                !first.is_uppercase()
+                    && !crate::lexer::is_titlecase(first)
+                    && !first.is_ascii_digit()
+                    && name.chars().all(is_ident_char)
             }
             None => false,
         };
diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index d2bb753..560dc87 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -21,4 +21,5 @@ mod tokadd;
 mod yylval;
 
 pub use main::Lexer;
+pub(crate) use parse_ident::is_titlecase;
 pub(crate) use tokadd::TokAdd;
diff --git a/src/lexer/parse_ident.rs b/src/lexer/parse_ident.rs
index 8bd4b32..7a590fb 100644
--- a/src/lexer/parse_ident.rs
+++ b/src/lexer/parse_ident.rs
@@ -5,8 +5,28 @@ use crate::reserved_word;
 use crate::source::buffer::*;
 use crate::DiagnosticMessage;
 
+// Title case letters (like `ǅ`) start a constant in the same way as upper case letters do
+pub(crate) fn is_titlecase(c: char) -> bool {
+    matches!(
+        c,
+        '\u{1c5}'
+            | '\u{1c8}'
+            | '\u{1cb}'
+            | '\u{1f2}'
+            | '\u{1f88}'..='\u{1f8f}'
+            | '\u{1f98}'..='\u{1f9f}'
+            | '\u{1fa8}'..='\u{1faf}'
+            | '\u{1fbc}'
+            | '\u{1fcc}'
+            | '\u{1ffc}'
+    )
+}
+
 fn is_var_name(ident: &str) -> bool {
     if let Some(first_char) = ident.chars().next() {
+        if is_titlecase(first_char) {
+            return false;
+        }
         return !first_char.is_uppercase();
     }
     false
diff --git a/src/parser/parse.y b/src/parser/parse.y
index 449d5b3..3f82c41 100644
--- a/src/parser/parse.y
+++ b/src/parser/parse.y
@@ -7025,7 +7025,7 @@ impl Parser {
     fn check_kwarg_name(&self, ident_t: &Token) -> Result<(), ()> {
         let name = clone_value(ident_t);
         let first_char = name.as_str().chars().next().expect("kwarg name can't be empty");
-        if !first_char.is_uppercase() {
+        if !first_char.is_uppercase() && !crate::lexer::is_titlecase(first_char) {
             Ok(())
         } else {
             let loc = ident_t.loc;
-- 
2.43.0


From cb8b83622507b76b9a6063fe5ab0fe7497559aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:38 +0000
Subject: [PATCH 38/38] fix: names of magic comments are case-insensitive

---
 src/lexer/parse_magic_comment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_magic_comment.rs b/src/lexer/parse_magic_comment.rs
index 537d21e..c47ef9d 100644
--- a/src/lexer/parse_magic_comment.rs
+++ b/src/lexer/parse_magic_comment.rs
@@ -316,7 +316,7 @@ impl Lexer {
 
             let name_to_compare = name.replace('-', "_");
             for (name, kind) in MAGIC_COMMENTS.iter() {
-                if &name_to_compare == name {
+                if name_to_compare.eq_ignore_ascii_case(name) {
                     if kind == &MagicCommentKind::Encoding && self.comment_at_top() {
                         let encoding = match String::from_utf8(
                             self.buffer
-- 
2.43.0

