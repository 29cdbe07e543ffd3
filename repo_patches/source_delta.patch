From 163fbc096f1d5bf1ab3ae0b6a81f7e9cb4e7cfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:37 +0000
Subject: [PATCH 01/84] fix: do not slice inside a multi-byte character when
 looking ahead

---
 src/scanner/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index c756673..755e69b 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -821,6 +821,7 @@ impl<'a> Scanner<'a> {
     fn peeks_ahead(&self, count: usize) -> &str {
         if self.is_at_end()
             || self.current + count > self.source.len()
+            || !self.source.is_char_boundary(self.current)
             || !self.source.is_char_boundary(self.current + count)
         {
             return "\0";
-- 
2.43.0


From e895d0296e64eaac7e5c5062eecef30bd2f887a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:55 +0000
Subject: [PATCH 02/84] fix: treat unterminated bracket macros as text instead
 of scanning past the end

---
 src/scanner/mod.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 755e69b..1fc0585 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -507,27 +507,36 @@ impl<'a> Scanner<'a> {
 
     /// Adds the block image, consuming the target as well as any attributes
     fn add_block_image(&mut self) -> Result<Token, ScannerError> {
-        while self.peek() != ']' {
+        while self.peek() != ']' && !self.is_at_end() {
             self.current += 1
         }
+        if self.is_at_end() {
+            return self.add_unterminated_as_text();
+        }
         self.current += 1; // consume the ']' char
         self.add_token(TokenType::BlockImageMacro, true, 0)
     }
 
     /// Adds the block image, consuming the target as well as any attributes
     fn add_inline_image(&mut self) -> Result<Token, ScannerError> {
-        while self.peek() != ']' {
+        while self.peek() != ']' && !self.is_at_end() {
             self.current += 1
         }
+        if self.is_at_end() {
+            return self.add_unterminated_as_text();
+        }
         self.current += 1; // consume the ']' char
         self.add_token(TokenType::InlineImageMacro, true, 0)
     }
 
     /// Adds the include image, consuming the target as well as any attributes
     fn add_include(&mut self) -> Result<Token, ScannerError> {
-        while self.peek() != ']' {
+        while self.peek() != ']' && !self.is_at_end() {
             self.current += 1
         }
+        if self.is_at_end() {
+            return self.add_unterminated_as_text();
+        }
         self.current += 1; // consume the ']' char
         self.add_token(TokenType::Include, true, 0)
     }
@@ -578,9 +587,12 @@ impl<'a> Scanner<'a> {
     }
 
     fn add_inline_style(&mut self) -> Result<Token, ScannerError> {
-        while self.peek() != ']' {
+        while self.peek() != ']' && !self.is_at_end() {
             self.current += 1
         }
+        if self.is_at_end() {
+            return self.add_unterminated_as_text();
+        }
         self.current += 1; // consume the ']' char
         self.add_token(TokenType::InlineStyle, true, 0)
     }
@@ -603,6 +615,12 @@ impl<'a> Scanner<'a> {
         self.add_token(TokenType::BlockAnchor, true, 0)
     }
 
+    /// Falls back to plain text when a macro, reference, etc. is never closed
+    fn add_unterminated_as_text(&mut self) -> Result<Token, ScannerError> {
+        self.current = self.start + 1;
+        self.add_text_until_next_markup()
+    }
+
     fn add_text_until_next_markup(&mut self) -> Result<Token, ScannerError> {
         // "inline" chars that could be markup; the newline condition prevents
         // capturing significant block markup chars
-- 
2.43.0


From a6cd6e593bb651ff6ca83dcd81e5941b92e0116c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:57 +0000
Subject: [PATCH 03/84] fix: treat unterminated cross references and block
 anchors as text

---
 src/scanner/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 1fc0585..32263b2 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -602,6 +602,9 @@ impl<'a> Scanner<'a> {
         while self.peeks_ahead(2) != ">>" && !self.is_at_end() {
             self.current += 1
         }
+        if self.is_at_end() {
+            return self.add_unterminated_as_text();
+        }
         self.current += 2; // consume the '>>' chars
         self.add_token(TokenType::CrossReference, true, 0)
     }
@@ -611,6 +614,9 @@ impl<'a> Scanner<'a> {
         while self.peeks_ahead(3) != "]]\n" && !self.is_at_end() {
             self.current += 1
         }
+        if self.is_at_end() {
+            return self.add_unterminated_as_text();
+        }
         self.current += 2; // consume the ']]' chars, NOT newline
         self.add_token(TokenType::BlockAnchor, true, 0)
     }
-- 
2.43.0


From 316146b9fbe2ee8a5c39cca42919d9a679b8f339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:59 +0000
Subject: [PATCH 04/84] fix: do not index past the end when checking attributes
 and references

---
 src/scanner/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 32263b2..4269e6b 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -697,7 +697,7 @@ impl<'a> Scanner<'a> {
         while ![' ', '\n', ':'].contains(&self.peek()) && !self.is_at_end() {
             self.current += 1
         }
-        let check = self.source.as_bytes()[self.current] as char == ':';
+        let check = self.peek() == ':';
         self.current = current_placeholder;
         check
     }
@@ -716,7 +716,7 @@ impl<'a> Scanner<'a> {
         while (self.peek().is_alphanumeric() || self.peek() == '-') && !self.is_at_end() {
             self.current += 1
         }
-        let check = self.source.as_bytes()[self.current] as char == '}';
+        let check = self.peek() == '}';
         self.current = current_placeholder;
         check
     }
@@ -727,7 +727,7 @@ impl<'a> Scanner<'a> {
         while self.peek().is_alphanumeric() && !self.is_at_end() {
             self.current += 1
         }
-        let check = self.source.as_bytes()[self.current] as char == ';';
+        let check = self.peek() == ';';
         self.current = current_placeholder;
         check
     }
-- 
2.43.0


From c1486578288c54749eba31e0ce74e2c5bf9fecdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:01 +0000
Subject: [PATCH 05/84] fix: end a document attribute at the end of the file

---
 src/scanner/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 4269e6b..a9005b9 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -264,7 +264,7 @@ impl<'a> Scanner<'a> {
             }
             ':' => {
                 if self.starts_new_line() && self.starts_attr() {
-                    while self.peek() != '\n' {
+                    while self.peek() != '\n' && !self.is_at_end() {
                         // TK line continuation
                         self.current += 1
                     }
-- 
2.43.0


From 5828a6a068e0a2d8358cf31f9b3f625e75ee540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:03 +0000
Subject: [PATCH 06/84] fix: only treat equals signs followed by a space as a
 heading

---
 src/scanner/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index a9005b9..b9a36a3 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -487,6 +487,9 @@ impl<'a> Scanner<'a> {
         while self.peek() == '=' {
             self.current += 1
         }
+        if self.peek() != ' ' {
+            return self.add_unterminated_as_text();
+        }
         self.current += 1; // add the space to the lexeme, but remove from count
         match self.source.as_bytes()[self.start..self.current - 1].len() {
             1 => self.add_token(TokenType::Heading1, false, 0),
-- 
2.43.0


From cca37b3349b24234b4abfef6a5962dd9b10ba75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:05 +0000
Subject: [PATCH 07/84] fix: keep multi-byte characters in table cells

---
 src/scanner/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index b9a36a3..95b0366 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -546,7 +546,7 @@ impl<'a> Scanner<'a> {
 
     /// Adds contents into a TableCell token, regardless of other formatting (simpler to re-scan later)
     fn add_table_cell(&mut self) -> Result<Token, ScannerError> {
-        while !['\n', '\0', '|'].contains(&self.peek()) {
+        while !['\n', '|'].contains(&self.peek()) && !self.is_at_end() {
             self.current += 1
         }
         // if the delimiter is |
-- 
2.43.0


From 5678028eeb18c1322fd7a91360f5f9861fb58c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:07 +0000
Subject: [PATCH 08/84] fix: end hyperlinks at a newline and allow multi-byte
 characters in them

---
 src/scanner/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 95b0366..369b004 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -560,19 +560,22 @@ impl<'a> Scanner<'a> {
     /// Adds the link, consuming the target but not any attributes
     fn add_link(&mut self) -> Result<Token, ScannerError> {
         let hyperlink_allowed_punctuation = ['.', '#', ':', '/', '?', '=', '&'];
-        while !['\0', ' '].contains(&self.peek()) && !self.peek().is_ascii_punctuation() {
+        while ![' ', '\n'].contains(&self.peek())
+            && !self.peek().is_ascii_punctuation()
+            && !self.is_at_end()
+        {
             self.current += 1
         }
         // it's an attribute-styled link
         if self.peek() == '[' {
             self.current += 1; // consume the '[' char
             self.add_token(TokenType::LinkMacro, true, 0)
-        } else if ['\0', ' '].contains(&self.peek()) {
+        } else if ['\0', ' ', '\n'].contains(&self.peek()) {
             self.add_token(TokenType::Hyperlink, true, 0)
         } else if hyperlink_allowed_punctuation.contains(&self.peek()) {
             // if it's at the end of a sentence
             if let Some(second_char) = self.peeks_ahead(2).chars().last() {
-                if ['\0', ' '].contains(&second_char) {
+                if ['\0', ' ', '\n'].contains(&second_char) {
                     self.add_token(TokenType::Hyperlink, true, 0)
                 } else {
                     // otherwise it contains an allowed url punctuation character
-- 
2.43.0


From 6cf403e5e816a60a1517c671cd7ab575c9d0f006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:31 +0000
Subject: [PATCH 09/84] fix: find tag directives without skipping past the line
 or the end of the file

---
 src/scanner/mod.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 369b004..5b52fd8 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -651,22 +651,29 @@ impl<'a> Scanner<'a> {
 
     fn add_tag(&mut self) -> Result<Token, ScannerError> {
         let tag_type: TokenType;
+        let (start_placeholder, startcol_placeholder) = (self.start, self.startcol);
         if self.expecting_tag_end {
-            while self.peek() != 'e' {
+            self.current = self.start;
+            while !["tag::", "end::"].contains(&self.peeks_ahead(5)) && !self.is_at_end() {
                 self.current += 1;
             }
+            self.startcol += self.current - self.start;
             self.start = self.current;
-            self.startcol = self.start;
         }
-        while ![']'].contains(&self.peek()) && !self.is_at_end() {
+        while ![']', '\n'].contains(&self.peek()) && !self.is_at_end() {
             self.current += 1;
         }
+        if self.peek() != ']' {
+            self.start = start_placeholder;
+            self.startcol = startcol_placeholder;
+            return self.add_unterminated_as_text();
+        }
         self.current += 1; // consume the ']' char
 
-        if (self.source[self.start..self.current]).contains("tag") {
+        if (self.source[self.start..self.current]).starts_with("tag::") {
             tag_type = TokenType::StartTag;
             self.expecting_tag_end = true;
-        } else if (self.source[self.start..self.current]).contains("end") {
+        } else if (self.source[self.start..self.current]).starts_with("end::") {
             tag_type = TokenType::EndTag;
             self.expecting_tag_end = false;
         } else {
-- 
2.43.0


From c4376017ab366e021851569d57817d682fd2ba54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:33 +0000
Subject: [PATCH 10/84] fix: only count the line after a tag directive when
 there is one

---
 src/scanner/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 5b52fd8..cfb56d1 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -681,13 +681,15 @@ impl<'a> Scanner<'a> {
                 self.source[self.start..self.current].to_string(),
             ));
         }
-        let result = self.add_token(tag_type, true, 1);
+        let result = self.add_token(tag_type, true, 0);
         // move to the end of the line
         while self.peek() != '\n' && !self.is_at_end() {
             self.current += 1
         }
         if self.peek() == '\n' {
-            self.current += 1
+            self.current += 1;
+            self.line += 1;
+            self.startcol = 1;
         }
         result
     }
-- 
2.43.0


From 9fd0b59171cd0836c269b60bd90fecac5ae07dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:35 +0000
Subject: [PATCH 11/84] fix: do not assume the shape of the tag directive when
 extracting its name

---
 src/scanner/tokens.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner/tokens.rs b/src/scanner/tokens.rs
index 1057bc2..eac29f4 100644
--- a/src/scanner/tokens.rs
+++ b/src/scanner/tokens.rs
@@ -154,7 +154,8 @@ impl Token {
     /// otherwise return None
     pub fn tag(&self) -> Option<String> {
         if matches!(self.token_type(), TokenType::StartTag | TokenType::EndTag) {
-            return Some((self.lexeme[5..self.lexeme.len() - 2]).to_string());
+            let name = self.lexeme.get(5..)?; // skip the "tag::" or "end::"
+            return Some(name.trim_end_matches(']').trim_end_matches('[').to_string());
         }
         None
     }
-- 
2.43.0


From defa2f2976c633572269e2df6404f063f49bfe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:34 +0000
Subject: [PATCH 12/84] fix: keep line numbers and columns right after tokens
 that span lines

---
 src/scanner/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index cfb56d1..157cd0f 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -477,6 +477,15 @@ impl<'a> Scanner<'a> {
                 startcol: token_start,
                 endcol: token_start + text.len() - 1, // to account for the start char
                 file_stack: self.file_stack.clone(),
+            };
+            // the text itself may span lines (description list markers count as part of their line)
+            if token_type != TokenType::DescriptionListMarker {
+                for idx in 0..text.len() {
+                    if text.as_bytes()[idx] == b'\n' {
+                        self.line += 1;
+                        self.startcol = text.len() - idx;
+                    }
+                }
             }
         }
         token.validate();
-- 
2.43.0


From 9f3aac5158df2e92676a082ee6dcb7c0895f291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:33 +0000
Subject: [PATCH 13/84] fix: recognise thematic and page breaks only at the
 start of a line

---
 src/scanner/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 157cd0f..96c4b1f 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -72,7 +72,7 @@ impl<'a> Scanner<'a> {
             '\'' => {
                 if self.starts_end_tag_line() {
                     self.add_tag()
-                } else if self.starts_repeated_char_line(c, 3) {
+                } else if self.starts_new_line() && self.starts_repeated_char_line(c, 3) {
                     self.current += 2;
                     self.add_token(TokenType::ThematicBreak, false, 0)
                 } else if ['\0', ' ', '\n'].contains(&self.peek_back()) && self.peek() == '`' {
@@ -90,7 +90,7 @@ impl<'a> Scanner<'a> {
             '<' => {
                 if self.starts_end_tag_line() {
                     self.add_tag()
-                } else if self.starts_repeated_char_line(c, 3) {
+                } else if self.starts_new_line() && self.starts_repeated_char_line(c, 3) {
                     self.current += 2;
                     self.add_token(TokenType::PageBreak, false, 0)
                 } else if ['-', '='].contains(&self.peek()) {
-- 
2.43.0


From 4f451fa625243b9c21878d23a667eaf8fa2d193c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:46 +0000
Subject: [PATCH 14/84] fix: recognise a delimiter line that ends the file
 without a newline

---
 src/scanner/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 96c4b1f..ffe9e0c 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -709,6 +709,10 @@ impl<'a> Scanner<'a> {
 
     fn starts_repeated_char_line(&self, c: char, delimiter_len: usize) -> bool {
         let mut expected_block = String::from(c).repeat(delimiter_len - 1);
+        // the last line may end without a newline
+        if self.current + delimiter_len == self.source.len() + 1 {
+            return self.peeks_ahead(delimiter_len - 1) == expected_block;
+        }
         expected_block.push('\n');
 
         self.current + delimiter_len <= self.source.len()
-- 
2.43.0


From e08350d152b65daa67cf11511f00a53c5d2530d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:49 +0000
Subject: [PATCH 15/84] fix: leave the read position alone when a line is not a
 callout list item

---
 src/scanner/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index ffe9e0c..eddba8e 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -820,15 +820,22 @@ impl<'a> Scanner<'a> {
     }
 
     fn starts_code_callout_list_item(&mut self) -> bool {
+        let current_placeholder = self.current;
         while self.peek() != '>' {
             if self.peek().is_ascii_digit() {
                 self.current += 1;
             } else {
+                self.current = current_placeholder;
                 return false;
             }
         }
         self.current += 1;
-        self.peek() == ' ' // next must be a space
+        if self.peek() == ' ' {
+            // next must be a space
+            return true;
+        }
+        self.current = current_placeholder;
+        false
     }
 
     fn starts_code_callout(&mut self) -> bool {
-- 
2.43.0


From dd1df6c35d526f9c38b119bb204db7b961294804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:29 +0000
Subject: [PATCH 16/84] fix: take an admonition label only at the start of a
 line

---
 src/scanner/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index eddba8e..12edcbf 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -337,7 +337,7 @@ impl<'a> Scanner<'a> {
                 }
             }
             'N' => {
-                if self.peeks_ahead(5) == "OTE: " {
+                if self.starts_new_line() && self.peeks_ahead(5) == "OTE: " {
                     self.current += 5;
                     self.add_token(TokenType::NotePara, true, 0)
                 } else {
@@ -345,7 +345,7 @@ impl<'a> Scanner<'a> {
                 }
             }
             'T' => {
-                if self.peeks_ahead(4) == "IP: " {
+                if self.starts_new_line() && self.peeks_ahead(4) == "IP: " {
                     self.current += 4;
                     self.add_token(TokenType::TipPara, true, 0)
                 } else {
@@ -353,7 +353,7 @@ impl<'a> Scanner<'a> {
                 }
             }
             'I' => {
-                if self.peeks_ahead(10) == "MPORTANT: " {
+                if self.starts_new_line() && self.peeks_ahead(10) == "MPORTANT: " {
                     self.current += 10;
                     self.add_token(TokenType::ImportantPara, true, 0)
                 } else {
@@ -361,7 +361,7 @@ impl<'a> Scanner<'a> {
                 }
             }
             'C' => {
-                if self.peeks_ahead(8) == "AUTION: " {
+                if self.starts_new_line() && self.peeks_ahead(8) == "AUTION: " {
                     self.current += 8;
                     self.add_token(TokenType::CautionPara, true, 0)
                 } else {
@@ -369,7 +369,7 @@ impl<'a> Scanner<'a> {
                 }
             }
             'W' => {
-                if self.peeks_ahead(8) == "ARNING: " {
+                if self.starts_new_line() && self.peeks_ahead(8) == "ARNING: " {
                     self.current += 8;
                     self.add_token(TokenType::WarningPara, true, 0)
                 } else {
-- 
2.43.0


From b420e41bb739ce07e6282dd6d5d1c0d1b259cc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:43 +0000
Subject: [PATCH 17/84] fix: take only the five admonition names as admonition
 labels

---
 src/scanner/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 12edcbf..907c217 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -219,12 +219,12 @@ impl<'a> Scanner<'a> {
                 if self.starts_new_line() && self.peek() == '[' {
                     self.add_block_anchor()
                 } else if self.starts_attribution_line() {
-                    match self.source.as_bytes()[self.start + 1] as char {
-                        'N' => self.add_token(TokenType::NotePara, true, 0),
-                        'T' => self.add_token(TokenType::TipPara, true, 0),
-                        'I' => self.add_token(TokenType::ImportantPara, true, 0),
-                        'C' => self.add_token(TokenType::CautionPara, true, 0),
-                        'W' => self.add_token(TokenType::WarningPara, true, 0),
+                    match &self.source[self.start..self.current] {
+                        "[NOTE]" => self.add_token(TokenType::NotePara, true, 0),
+                        "[TIP]" => self.add_token(TokenType::TipPara, true, 0),
+                        "[IMPORTANT]" => self.add_token(TokenType::ImportantPara, true, 0),
+                        "[CAUTION]" => self.add_token(TokenType::CautionPara, true, 0),
+                        "[WARNING]" => self.add_token(TokenType::WarningPara, true, 0),
                         _ => self.add_token(TokenType::ElementAttributes, true, 0),
                     }
                 } else if self.peek() == '.' {
-- 
2.43.0


From af6542462080f65c03b7baf43883e88cc3c52f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:31 +0000
Subject: [PATCH 18/84] fix: do not glue the words of neighbouring blocks
 together when counting

The text of a document is the text of its blocks one after the other. No
separator was written between a title and its body, between list items, or
between paragraphs, so the last word of one and the first word of the next
were counted as a single word.
---
 src/graph/blocks.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index a433ad8..ca78ae9 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -739,6 +739,7 @@ impl Block {
                 for inline in block.title() {
                     block_text.push_str(&inline.extract_values_to_string())
                 }
+                block_text.push('\n');
 
                 for block in block.blocks.iter() {
                     block_text.push_str(&block.block_text())
@@ -753,6 +754,7 @@ impl Block {
                 for inline in block.principal.iter() {
                     block_text.push_str(&inline.extract_values_to_string())
                 }
+                block_text.push('\n');
 
                 for block in block.blocks.iter() {
                     block_text.push_str(&block.block_text())
@@ -767,6 +769,7 @@ impl Block {
                 for inline in block.principal.iter() {
                     block_text.push_str(&inline.extract_values_to_string())
                 }
+                block_text.push('\n');
 
                 for block in block.blocks.iter() {
                     block_text.push_str(&block.block_text())
@@ -777,11 +780,13 @@ impl Block {
                 for inline in block.caption.iter() {
                     block_text.push_str(&inline.extract_values_to_string())
                 }
+                block_text.push('\n');
             }
             Block::LeafBlock(block) => {
                 for inline in block.inlines.iter() {
                     block_text.push_str(&inline.extract_values_to_string())
                 }
+                block_text.push('\n');
             }
             Block::ParentBlock(block) => {
                 for block in block.blocks.iter() {
@@ -793,6 +798,7 @@ impl Block {
                 for inline in block.inlines.iter() {
                     block_text.push_str(&inline.extract_values_to_string())
                 }
+                block_text.push('\n');
             }
             _ => todo!(),
         }
-- 
2.43.0


From a075fc1cd2335ce1bb4dced9f93df7a26c589057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:54 +0000
Subject: [PATCH 19/84] fix: count the words of description list terms and of
 block titles

Both are shown in the output, but were left out of the text of the document.
---
 src/graph/blocks.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index ca78ae9..dfeb2f1 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -766,6 +766,10 @@ impl Block {
                 }
             }
             Block::DListItem(block) => {
+                for inline in block.terms.iter() {
+                    block_text.push_str(&inline.extract_values_to_string())
+                }
+                block_text.push('\n');
                 for inline in block.principal.iter() {
                     block_text.push_str(&inline.extract_values_to_string())
                 }
@@ -789,6 +793,10 @@ impl Block {
                 block_text.push('\n');
             }
             Block::ParentBlock(block) => {
+                for inline in block.title.iter() {
+                    block_text.push_str(&inline.extract_values_to_string())
+                }
+                block_text.push('\n');
                 for block in block.blocks.iter() {
                     block_text.push_str(&block.block_text())
                 }
-- 
2.43.0


From 3947f28336484cc61ee00fb8c8c7bc00bd8f6793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:57 +0000
Subject: [PATCH 20/84] fix: number footnotes through the whole document

A section, list or delimited block started its numbering again from what it
had gathered itself and ignored the footnotes that came before it. Two
footnotes of one document could get the same number and the same anchors.
---
 src/graph/blocks.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index dfeb2f1..a194ccf 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -397,7 +397,7 @@ impl Block {
             Block::Section(block) => {
                 for child in block.blocks.iter_mut() {
                     let child_footnoes =
-                        child.extract_footnote_definitions(extracted.len(), document_id)?;
+                        child.extract_footnote_definitions(local_count, document_id)?;
                     local_count += child_footnoes.len();
                     extracted.extend(child_footnoes);
                 }
@@ -405,7 +405,7 @@ impl Block {
             Block::ParentBlock(block) => {
                 for child in block.blocks.iter_mut() {
                     let child_footnoes =
-                        child.extract_footnote_definitions(extracted.len(), document_id)?;
+                        child.extract_footnote_definitions(local_count, document_id)?;
                     local_count += child_footnoes.len();
                     extracted.extend(child_footnoes);
                 }
@@ -413,7 +413,7 @@ impl Block {
             Block::List(block) => {
                 for child in block.items.iter_mut() {
                     let child_footnoes =
-                        child.extract_footnote_definitions(extracted.len(), document_id)?;
+                        child.extract_footnote_definitions(local_count, document_id)?;
                     local_count += child_footnoes.len();
                     extracted.extend(child_footnoes);
                 }
@@ -421,16 +421,17 @@ impl Block {
             Block::DList(block) => {
                 for child in block.items.iter_mut() {
                     let child_footnoes =
-                        child.extract_footnote_definitions(extracted.len(), document_id)?;
+                        child.extract_footnote_definitions(local_count, document_id)?;
+                    local_count += child_footnoes.len();
                     extracted.extend(child_footnoes);
                 }
             }
             Block::ListItem(block) => {
-                let child_footnotes = block.extract_footnotes(extracted.len(), document_id)?;
+                let child_footnotes = block.extract_footnotes(local_count, document_id)?;
                 extracted.extend(child_footnotes);
             }
             Block::DListItem(block) => {
-                let child_footnotes = block.extract_footnotes(extracted.len(), document_id)?;
+                let child_footnotes = block.extract_footnotes(local_count, document_id)?;
                 extracted.extend(child_footnotes);
             }
             // nonparents
-- 
2.43.0


From 81b4072154f2032862802bff7dcf6a3150f69be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:01 +0000
Subject: [PATCH 21/84] fix: gather footnotes from documents with breaks,
 images or tables

Gathering the footnotes panicked on the first block of these kinds.
---
 src/graph/blocks.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index a194ccf..f8411d6 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -458,8 +458,7 @@ impl Block {
                     }
                 }
             }
-            _ => todo!(), // placeholder; probably this is a list of panics that should never be
-                          // reached
+            _ => {} // remaining blocks don't have footnotes
         }
 
         Ok(extracted)
-- 
2.43.0


From 5d8fb35f60675bd644afd885280d935111098cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:04 +0000
Subject: [PATCH 22/84] fix: keep the roles given to an image above its macro

Merging the two attribute lists added the options to the roles instead of
adding the roles.
---
 src/graph/metadata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index 7838a82..cd361a3 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -167,7 +167,7 @@ impl ElementMetadata {
         }
         // combine options and roles
         self.options.extend(incoming.options.clone());
-        self.roles.extend(incoming.options.clone());
+        self.roles.extend(incoming.roles.clone());
     }
 
     pub fn process_attributes(&mut self, mut attributes: Vec<String>) {
-- 
2.43.0


From 20d8af74049be7ca5d2a53e62e990ea43b8dfa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:11 +0000
Subject: [PATCH 23/84] fix: do not put a section into the closed block before
 it

---
 src/graph/asg.rs    | 2 +-
 src/graph/blocks.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph/asg.rs b/src/graph/asg.rs
index 35e5f7d..e8009aa 100644
--- a/src/graph/asg.rs
+++ b/src/graph/asg.rs
@@ -87,7 +87,7 @@ impl Asg {
         self.document_id_hash.extend(block.id_hashes());
         if block.is_section() {
             if let Some(possible_section) = self.blocks.last_mut() {
-                if possible_section.takes_block_of_type(&block) {
+                if possible_section.is_section() && possible_section.takes_block_of_type(&block) {
                     possible_section.push_block(block)?;
                 } else {
                     self.blocks.push(block);
diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index f8411d6..d70efb7 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -72,7 +72,7 @@ impl Block {
             Block::Section(section) => {
                 if block.is_section() {
                     if let Some(possible_section) = section.blocks.last_mut() {
-                        if possible_section.takes_block_of_type(&block) {
+                        if possible_section.is_section() && possible_section.takes_block_of_type(&block) {
                             possible_section.push_block(block)?;
                         } else {
                             section.blocks.push(block);
-- 
2.43.0


From 7dc32fa9fa35216ec443d5e320b1014abd265145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:23 +0000
Subject: [PATCH 24/84] fix: do not put the text after a bare link into the
 link

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index b4b4a51..cd1f1e1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -875,6 +875,8 @@ impl Parser {
     fn parse_hyperlink(&mut self, token: Token) -> Result<(), ParserError> {
         self.inline_stack
             .push_back(Inline::InlineRef(InlineRef::new_link_from_token(token)));
+        // the link is complete: text that follows is not a part of it
+        self.close_parent_after_push = true;
         Ok(())
     }
 
-- 
2.43.0


From b9e22ecfb023bd3cc1a708f72d56bfe30c44b585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:26 +0000
Subject: [PATCH 25/84] fix: keep the blocks after a reference in their section

---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index cd1f1e1..5d13f66 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -475,8 +475,11 @@ impl Parser {
                     // check for dangling list items
                     if !last_block.is_section() && self.open_delimited_block_lines.is_empty() {
                         self.add_to_block_stack_or_graph(asg, last_block)?;
-                        if self.close_parent_after_push && !self.block_stack.is_empty() {
-                            self.add_last_to_block_stack_or_graph(asg)?;
+                        if self.close_parent_after_push {
+                            // only an admonition paragraph is closed by the empty line after it
+                            if let Some(Block::ParentBlock(_)) = self.block_stack.last() {
+                                self.add_last_to_block_stack_or_graph(asg)?;
+                            }
                             self.close_parent_after_push = false;
                         }
                     } else {
-- 
2.43.0


From bce968af8613634c6c2ff7ca77b7a549f8a97022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:21 +0000
Subject: [PATCH 26/84] fix: close a delimited block that has another one in it

---
 src/parser.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5d13f66..0d77280 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1123,12 +1123,12 @@ impl Parser {
             self.block_title = None;
         }
 
-        // check for any prior parents in reverse
-        if let Some(parent_block_idx) = self
-            .block_stack
-            .iter()
-            .rposition(|parent_block| matches!(parent_block, Block::ParentBlock(_)))
-        {
+        // check for the innermost parent that is still open, in reverse
+        let open_line = self.open_delimited_block_lines.last().copied();
+        if let Some(parent_block_idx) = self.block_stack.iter().rposition(|parent_block| {
+            matches!(parent_block, Block::ParentBlock(open)
+                if open_line.is_some() && open.opening_line().ok() == open_line)
+        }) {
             let matched_block = self.block_stack.remove(parent_block_idx);
             let Block::ParentBlock(mut matched) = matched_block else {
                 return Err(ParserError::ParentBlock(delimiter_line));
-- 
2.43.0


From 8831f224c0e9b2a8b72255968736bcd9b4670528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:31 +0000
Subject: [PATCH 27/84] fix: attach continued blocks to their list item

---
 src/parser.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0d77280..cedc49b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -487,7 +487,9 @@ impl Parser {
                     }
                 } // if Some(last_block)
             }
-        } else if self.in_block_continuation || self.last_token_type.clears_newline_after() {
+        } else if self.last_token_type == TokenType::BlockContinuation
+            || self.last_token_type.clears_newline_after()
+        {
             // don't add a newline ahead of text in these cases
             self.dangling_newline = None;
         } else {
@@ -821,6 +823,11 @@ impl Parser {
     }
 
     fn parse_block_continuation(&mut self, _token: Token) -> Result<(), ParserError> {
+        // text ahead of the first continuation belongs to the list item itself
+        if let Some(Block::ListItem(_) | Block::DListItem(_)) = self.block_stack.last() {
+            self.force_new_block =
+                self.in_block_continuation && self.open_delimited_block_lines.is_empty();
+        }
         self.add_inlines_to_block_stack()?;
         self.in_block_continuation = true;
         self.force_new_block = true;
@@ -1105,7 +1112,10 @@ impl Parser {
         } else {
             self.open_parse_after_as_text_type = Some(token.token_type());
             let block = LeafBlock::new_from_token(token)?;
+            // a continued block is attached to its list item once it is closed
+            let in_block_continuation = std::mem::take(&mut self.in_block_continuation);
             self.push_block_to_stack(Block::LeafBlock(block))?;
+            self.in_block_continuation = in_block_continuation;
             // note that we're to just add
             self.force_new_block = false;
             Ok(())
@@ -1400,6 +1410,7 @@ impl Parser {
                 return Err(ParserError::BlockContinuation);
             };
             last_block.push_block(para_block)?;
+            self.in_block_continuation = false;
             return Ok(());
         }
 
@@ -1436,10 +1447,12 @@ impl Parser {
     }
 
     fn add_last_list_item_to_list(&mut self) -> Result<(), ParserError> {
-        // clear out any forced new blocks
-        self.force_new_block = false;
+        // clear out any forced new blocks, unless the inlines are a block attached to the item
+        self.force_new_block =
+            self.in_block_continuation && self.open_delimited_block_lines.is_empty();
         // add the inlines to the list item
         self.add_inlines_to_block_stack()?;
+        self.force_new_block = false;
         // then add it to the list
         let last_item = self.block_stack.pop().unwrap();
         // if the last thing is a list item, add it to the list
-- 
2.43.0


From 675806d0bb8e807e9da17079bf3809c428c26dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:10 +0000
Subject: [PATCH 28/84] fix: keep the paragraph under a block title

---
 src/parser.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index cedc49b..d8b9569 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -444,13 +444,16 @@ impl Parser {
     /// such the parse function is a little complicated.
     fn parse_new_line_char(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
         // newline exits a title, TK line continuation
-        self.in_block_line = false;
+        let in_block_line = std::mem::replace(&mut self.in_block_line, false);
 
-        // if there is a block title, add the inline stack to the title
+        // if this is the end of a block title, add the inline stack to the title
         if let Some(ref mut title_stack) = self.block_title {
-            while !self.inline_stack.is_empty() {
-                let inline = self.inline_stack.pop_front().unwrap();
-                title_stack.push(inline);
+            if in_block_line && title_stack.is_empty() {
+                while !self.inline_stack.is_empty() {
+                    let inline = self.inline_stack.pop_front().unwrap();
+                    title_stack.push(inline);
+                }
+                return Ok(());
             }
         }
 
@@ -1225,6 +1228,8 @@ impl Parser {
             }
             self.block_stack.push(block)
         }
+        // a title belongs to the block right after it, even if that is one that doesn't show it
+        self.block_title = None;
         Ok(())
     }
 
-- 
2.43.0


From 5ea8fbf70fe073cb4b7e500e12453275d68e440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:26 +0000
Subject: [PATCH 29/84] fix: do not start a paragraph with the line break after
 its anchor

---
 src/scanner/tokens.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scanner/tokens.rs b/src/scanner/tokens.rs
index eac29f4..a19eb1c 100644
--- a/src/scanner/tokens.rs
+++ b/src/scanner/tokens.rs
@@ -330,6 +330,7 @@ impl TokenType {
         matches!(
             self,
             TokenType::ElementAttributes
+                | TokenType::BlockAnchor
                 | TokenType::SidebarBlock
                 | TokenType::OpenBlock
                 | TokenType::QuoteVerseBlock
-- 
2.43.0


From cdb6fdfc7963c94aefe79b41e9398bd8ee305613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:22 +0000
Subject: [PATCH 30/84] fix: keep admonitions inside of delimited blocks

---
 src/parser.rs | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d8b9569..98b32b2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -18,7 +18,7 @@ use crate::{
 use crate::{
     graph::{
         asg::Asg,
-        blocks::{Block, BlockMacro, Break, LeafBlock, ParentBlock, Section, TableCell},
+        blocks::{Block, BlockMacro, Break, LeafBlock, ParentBlock, ParentBlockName, Section, TableCell},
         inlines::{Inline, InlineLiteral, InlineLiteralName, InlineRef, InlineSpan, LineBreak},
         lists::{DList, DListItem, List, ListItem, ListVariant},
         metadata::{AttributeType, ElementMetadata},
@@ -486,7 +486,8 @@ impl Parser {
                             self.close_parent_after_push = false;
                         }
                     } else {
-                        self.push_block_to_stack(last_block)?
+                        self.push_block_to_stack(last_block)?;
+                        self.close_admonition_paragraph()?
                     }
                 } // if Some(last_block)
             }
@@ -825,6 +826,26 @@ impl Parser {
         Ok(())
     }
 
+    /// Inside of delimited blocks, where empty lines don't close anything, puts the paragraph (or the
+    /// delimited block) of an admonition into it
+    fn close_admonition_paragraph(&mut self) -> Result<(), ParserError> {
+        if let [.., Block::ParentBlock(parent), last_block] = self.block_stack.as_slice() {
+            let open_line = self.open_delimited_block_lines.last().copied();
+            if parent.name == ParentBlockName::Admonition
+                && parent.blocks.is_empty()
+                && (matches!(last_block, Block::LeafBlock(_))
+                    || matches!(last_block, Block::ParentBlock(last) if last.opening_line().ok() != open_line))
+            {
+                let paragraph = self.block_stack.pop().ok_or(ParserError::BlockStack)?;
+                if let Some(admonition) = self.block_stack.last_mut() {
+                    admonition.push_block(paragraph)?;
+                }
+                self.close_parent_after_push = false;
+            }
+        }
+        Ok(())
+    }
+
     fn parse_block_continuation(&mut self, _token: Token) -> Result<(), ParserError> {
         // text ahead of the first continuation belongs to the list item itself
         if let Some(Block::ListItem(_) | Block::DListItem(_)) = self.block_stack.last() {
@@ -1140,15 +1161,16 @@ impl Parser {
         let open_line = self.open_delimited_block_lines.last().copied();
         if let Some(parent_block_idx) = self.block_stack.iter().rposition(|parent_block| {
             matches!(parent_block, Block::ParentBlock(open)
-                if open_line.is_some() && open.opening_line().ok() == open_line)
+                if open_line.is_some() && open.opening_line().ok() == open_line && *open == block)
         }) {
+            // close any dangling inlines BEFORE opening the delimited block lines
+            self.add_inlines_to_block_stack()?;
+            self.close_admonition_paragraph()?;
             let matched_block = self.block_stack.remove(parent_block_idx);
             let Block::ParentBlock(mut matched) = matched_block else {
                 return Err(ParserError::ParentBlock(delimiter_line));
             };
             if matched == block {
-                // close any dangling inlines BEFORE opening the delimited block lines
-                self.add_inlines_to_block_stack()?;
                 // remove the open delimiter line from the count and confirm we're nested properly
                 let Some(line) = self.open_delimited_block_lines.pop() else {
                     return Err(ParserError::DelimitedBlock);
-- 
2.43.0


From 55b1de4e8e5a0c9c2f3d9191b7cef4de7bbd7f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:25 +0000
Subject: [PATCH 31/84] fix: keep the text of a list item that ends its block
 in the item

---
 src/parser.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 98b32b2..609e234 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -713,8 +713,10 @@ impl Parser {
             }
             self.push_block_to_stack(Block::List(list))?;
         }
-        // either way, add the new list item
-        self.push_block_to_stack(Block::ListItem(list_item))
+        // either way, add the new list item, which then takes the text that follows
+        self.push_block_to_stack(Block::ListItem(list_item))?;
+        self.force_new_block = false;
+        Ok(())
     }
     //
     fn parse_unordered_list_item(&mut self, token: Token) -> Result<(), ParserError> {
@@ -734,8 +736,10 @@ impl Parser {
                 token.locations().clone(),
             )))?;
         }
-        // either way, add the new list item
-        self.push_block_to_stack(Block::ListItem(list_item))
+        // either way, add the new list item, which then takes the text that follows
+        self.push_block_to_stack(Block::ListItem(list_item))?;
+        self.force_new_block = false;
+        Ok(())
     }
 
     //fn parse_block_label(&mut self, token: Token, asg: &mut Asg) {}
-- 
2.43.0


From e480b135495637964235e8ee08ed5571c7c84756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:01 +0000
Subject: [PATCH 32/84] fix: attach continued blocks inside of delimited blocks

---
 src/parser.rs | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 609e234..42c40ed 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -63,8 +63,8 @@ pub struct Parser {
     /// designates whether new literal text should be added to the last span
     in_inline_span: bool,
     /// designates whether, despite newline last_tokens_types, we should append the current block
-    /// to the next
-    in_block_continuation: bool,
+    /// to the next; counts the delimited blocks that are open around each such continuation
+    block_continuations: Vec<usize>,
     /// forces a new block when we add inlines; helps distinguish between adding to section.title
     /// and section.blocks
     force_new_block: bool,
@@ -116,7 +116,7 @@ impl Parser {
             level_offset: 0,
             in_block_line: false,
             in_inline_span: false,
-            in_block_continuation: false,
+            block_continuations: vec![],
             preserve_newline_text: false,
             open_parse_after_as_text_type: None,
             force_new_block: false,
@@ -853,15 +853,23 @@ impl Parser {
     fn parse_block_continuation(&mut self, _token: Token) -> Result<(), ParserError> {
         // text ahead of the first continuation belongs to the list item itself
         if let Some(Block::ListItem(_) | Block::DListItem(_)) = self.block_stack.last() {
-            self.force_new_block =
-                self.in_block_continuation && self.open_delimited_block_lines.is_empty();
+            self.force_new_block = self.in_block_continuation();
         }
         self.add_inlines_to_block_stack()?;
-        self.in_block_continuation = true;
+        if !self.in_block_continuation() {
+            self.block_continuations
+                .push(self.open_delimited_block_lines.len());
+        }
         self.force_new_block = true;
         Ok(())
     }
 
+    /// Whether the next block at this depth is to be attached to the last one; a block inside of
+    /// a delimited block that was opened after the continuation is not
+    fn in_block_continuation(&self) -> bool {
+        self.block_continuations.last() == Some(&self.open_delimited_block_lines.len())
+    }
+
     /// Generic parser for inline spans that close themselves
     fn parse_inline_span(&mut self, mut inline: Inline) -> Result<(), ParserError> {
         if let Some(last_inline) = self.inline_stack.back_mut() {
@@ -1141,9 +1149,9 @@ impl Parser {
             self.open_parse_after_as_text_type = Some(token.token_type());
             let block = LeafBlock::new_from_token(token)?;
             // a continued block is attached to its list item once it is closed
-            let in_block_continuation = std::mem::take(&mut self.in_block_continuation);
+            let block_continuations = std::mem::take(&mut self.block_continuations);
             self.push_block_to_stack(Block::LeafBlock(block))?;
-            self.in_block_continuation = in_block_continuation;
+            self.block_continuations = block_continuations;
             // note that we're to just add
             self.force_new_block = false;
             Ok(())
@@ -1195,9 +1203,11 @@ impl Parser {
                 if delimited_block.is_table() {
                     delimited_block.consolidate_table_info()?;
                 }
+                // close any continuations inside of the block
+                let open_blocks = self.open_delimited_block_lines.len();
+                self.block_continuations
+                    .retain(|continuation| *continuation <= open_blocks);
                 self.push_block_to_stack(delimited_block)?;
-                // close any continuations
-                self.in_block_continuation = false;
                 return Ok(());
             } else {
                 self.block_stack
@@ -1239,14 +1249,14 @@ impl Parser {
     }
 
     fn push_block_to_stack(&mut self, mut block: Block) -> Result<(), ParserError> {
-        // we only want to push on continue if we're not in an open delimited block (which will
-        // close itself, emptying the open_delimited_block_lines)
-        if self.in_block_continuation && self.open_delimited_block_lines.is_empty() {
+        // we only want to push on continue if we're not in a delimited block opened since (which
+        // will close itself)
+        if self.in_block_continuation() {
             let Some(last_block) = self.block_stack.last_mut() else {
                 return Err(ParserError::BlockContinuation);
             };
             last_block.push_block(block)?;
-            self.in_block_continuation = false;
+            self.block_continuations.pop();
         } else {
             if self.metadata.is_some() {
                 block.add_metadata(self.metadata.as_ref().unwrap().clone())?;
@@ -1436,12 +1446,12 @@ impl Parser {
                 para_block.push_inline(inline)?
             }
         }
-        if self.in_block_continuation && self.open_delimited_block_lines.is_empty() {
+        if self.in_block_continuation() {
             let Some(last_block) = self.block_stack.last_mut() else {
                 return Err(ParserError::BlockContinuation);
             };
             last_block.push_block(para_block)?;
-            self.in_block_continuation = false;
+            self.block_continuations.pop();
             return Ok(());
         }
 
@@ -1479,8 +1489,7 @@ impl Parser {
 
     fn add_last_list_item_to_list(&mut self) -> Result<(), ParserError> {
         // clear out any forced new blocks, unless the inlines are a block attached to the item
-        self.force_new_block =
-            self.in_block_continuation && self.open_delimited_block_lines.is_empty();
+        self.force_new_block = self.in_block_continuation();
         // add the inlines to the list item
         self.add_inlines_to_block_stack()?;
         self.force_new_block = false;
-- 
2.43.0


From 2d16027ea222c9f314078cd2b4860d9d2f5ad0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:50 +0000
Subject: [PATCH 33/84] fix: do not crash on formatted text after a footnote

---
 src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 42c40ed..3095736 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -985,6 +985,10 @@ impl Parser {
             }
             // update the locations
             inline_macro.consolidate_locations_from_token(token);
+            // a footnote is complete, unlike a span that still waits for its closing mark
+            if inline_macro.is_footnote() {
+                inline_macro.close();
+            }
             // add it back to the stack
             self.inline_stack.push_back(inline_macro);
             // note that we're now closed
-- 
2.43.0


From 1e78c929819b1544bd73f26d1cf2f137a8574ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:53 +0000
Subject: [PATCH 34/84] fix: keep a mark that opens a span but never closes it
 as text

---
 src/graph/inlines.rs | 17 ++++++++---------
 src/parser.rs        |  6 +++++-
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index ce7e3d7..156abe2 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -171,7 +171,7 @@ impl Inline {
                     InlineSpanVariant::Code => "`".to_string(),
                     InlineSpanVariant::Superscript => "^".to_string(),
                     InlineSpanVariant::Subscript => "~".to_string(),
-                    InlineSpanVariant::Footnote => todo!(), // not applicable
+                    InlineSpanVariant::Footnote => return "footnote:[".to_string(),
                 };
                 if span.node_form == InlineSpanForm::Unconstrained {
                     literal = literal
@@ -424,15 +424,14 @@ impl InlineSpan {
                 let mut working_inline = inline.clone();
                 let open_span_literal = working_inline.produce_literal_from_self();
                 let mut inline_children = working_inline.extract_child_inlines();
-                if let Some(inline) = inline_children.front_mut() {
-                    match inline {
-                        Inline::InlineLiteral(literal) => {
-                            literal.prepend_to_value(open_span_literal, literal.location.clone());
-                        }
-                        _ => todo!(),
-                    }
+                if let Some(Inline::InlineLiteral(literal)) = inline_children.front_mut() {
+                    literal.prepend_to_value(open_span_literal, literal.location.clone());
                 } else {
-                    todo!()
+                    inline_children.push_front(Inline::InlineLiteral(InlineLiteral::new(
+                        InlineLiteralName::Text,
+                        open_span_literal,
+                        working_inline.locations(),
+                    )));
                 }
                 children.extend(inline_children);
             } else {
diff --git a/src/parser.rs b/src/parser.rs
index 3095736..008b30d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1360,7 +1360,11 @@ impl Parser {
                     Inline::InlineLiteral(literal) => {
                         literal.prepend_to_value(open_span_literal, open_span.locations());
                     }
-                    _ => todo!(),
+                    _ => children.push_front(Inline::InlineLiteral(InlineLiteral::new(
+                        InlineLiteralName::Text,
+                        open_span_literal,
+                        open_span.locations(),
+                    ))),
                 }
                 // put any appended inlines into the stack at the relevant position
                 while children.len() > 0 {
-- 
2.43.0


From dfcdffacacf5e44283ca8f07f1c65eb9a1028a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:29 +0000
Subject: [PATCH 35/84] fix: do not crash on a macro without an attribute list

---
 src/utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 58b08f0..39933d9 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -48,7 +48,10 @@ pub fn target_and_attrs_from_token(token: &Token) -> (String, Option<ElementMeta
 
     let target: String = target_and_attrs.chars().take_while(|c| c != &'[').collect();
     // get rid of the "[]" chars
-    let attributes = target_and_attrs[target.len() + 1..target_and_attrs.len() - 1].to_string();
+    let attributes = target_and_attrs
+        .get(target.len() + 1..target_and_attrs.len().saturating_sub(1))
+        .unwrap_or_default()
+        .to_string();
     let mut metadata: Option<ElementMetadata> = None;
     if !attributes.is_empty() {
         let mut token_metadata = ElementMetadata {
-- 
2.43.0


From d4477301bbdbc7a2446f345fe83b410716637514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:31 +0000
Subject: [PATCH 36/84] fix: do not crash on attribute lists with stray quotes,
 other letters or many values

---
 src/graph/metadata.rs | 15 ++++++---------
 src/utils.rs          |  2 +-
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index cd361a3..c19f270 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -184,7 +184,7 @@ impl ElementMetadata {
                 }
                 Err(_) => {
                     if idx == 0 && attribute.len() >= 2 {
-                        match &attribute[..2] {
+                        match attribute.get(..2).unwrap_or_default() {
                             "so" | "qu" | "ve" => {
                                 self.declared_type = AttributeType::from_str(attribute);
                                 continue;
@@ -214,16 +214,13 @@ impl ElementMetadata {
                 } else if idx == 2 {
                     self.attributes
                         .insert(String::from("citation"), String::from(attribute.trim()));
-                } else {
-                    todo!(); // or panic?
                 }
+                // there is nothing else to say about quotes
             }
-            Some(AttributeType::Lines) => {
-                // need to figure out how to
-                todo!()
-            }
+            // nothing declares this type yet
+            Some(AttributeType::Lines) => {}
             _ => {
-                if attribute.starts_with('"') {
+                if attribute.starts_with('"') && attribute.ends_with('"') && attribute.len() > 1 {
                     *attribute = attribute[1..attribute.len() - 1].to_string()
                 }
                 self.attributes
@@ -240,7 +237,7 @@ impl ElementMetadata {
                     "cols".to_string(),
                     format!("{}", cols_value.split(',').collect::<Vec<&str>>().len()),
                 );
-            } else if cols_value.len() == 2 && cols_value[1..] == *"*" {
+            } else if cols_value.len() == 2 && cols_value.ends_with('*') {
                 self.attributes
                     .insert("cols".to_string(), cols_value[..1].to_string());
             }
diff --git a/src/utils.rs b/src/utils.rs
index 39933d9..22bdb9e 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -16,7 +16,7 @@ pub fn key_values_from_named_attribute(
         Some(captures) => {
             let (_, [named, mut values_str]) = captures.extract();
             // remove quotes values
-            if values_str.starts_with('"') {
+            if values_str.starts_with('"') && values_str.ends_with('"') && values_str.len() > 1 {
                 values_str = &values_str[1..values_str.len() - 1]
             }
             Ok((
-- 
2.43.0


From ce8aec86df1f2c3c8e4b2781fc3980ad731a1c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:00 +0000
Subject: [PATCH 37/84] fix: count the columns of a table that has its cells on
 separate lines

---
 src/graph/blocks.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index d70efb7..2a73391 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -229,27 +229,27 @@ impl Block {
                         table.metadata = Some(metadata)
                     }
                 }
-                // count for implicit column designation
-                let cols = table
-                    .blocks
-                    .iter()
-                    .fold(0usize, |acc, block| match block.line() {
-                        Ok(line) => acc + (line == first_cell_line) as usize,
-                        Err(_) => acc, // shouldn't ever happen
-                    });
-                if let Some(ref mut metadata) = table.metadata {
-                    if !metadata.attributes.contains_key("cols") {
-                        metadata
-                            .attributes
-                            .insert("cols".to_string(), format!("{cols}"));
-                    }
-                } else {
-                    let mut metadata = ElementMetadata::default();
+            }
+            // count for implicit column designation
+            let cols = table
+                .blocks
+                .iter()
+                .fold(0usize, |acc, block| match block.line() {
+                    Ok(line) => acc + (line == first_cell_line) as usize,
+                    Err(_) => acc, // shouldn't ever happen
+                });
+            if let Some(ref mut metadata) = table.metadata {
+                if !metadata.attributes.contains_key("cols") {
                     metadata
                         .attributes
                         .insert("cols".to_string(), format!("{cols}"));
-                    table.metadata = Some(metadata)
                 }
+            } else {
+                let mut metadata = ElementMetadata::default();
+                metadata
+                    .attributes
+                    .insert("cols".to_string(), format!("{cols}"));
+                table.metadata = Some(metadata)
             }
             // FOR NOW, make the cols an integer for easier templating.
             let Some(ref mut metadata) = table.metadata else {
-- 
2.43.0


From 709c8e806fa320514a1c8c0c4de02bf1397b8e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:26 +0000
Subject: [PATCH 38/84] fix: count the columns of a table that has a single
 cell or none

---
 src/graph/blocks.rs | 68 +++++++++++++++++++--------------------------
 1 file changed, 29 insertions(+), 39 deletions(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index 2a73391..2a33354 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -1,4 +1,4 @@
-use log::{error, warn};
+use log::warn;
 use std::{collections::HashMap, fmt::Display};
 
 use serde::Serialize;
@@ -213,51 +213,41 @@ impl Block {
         let Block::ParentBlock(table) = self else {
             return Err(BlockError::IncorrectCall);
         };
+        // if the cells in the first row are on the same line, either serves as cols
+        // designation
+        let mut first_cell_line = 0;
+        if let Some(first_cell) = table.blocks.first() {
+            first_cell_line = first_cell.line()?;
+        }
         // check if there is an implicit header
-        if table.blocks.len() >= 2 {
-            // if the cells in the first row are on the same line, either serves as cols
-            // designation
-            let first_cell_line = table.blocks[0].line()?;
-            if first_cell_line == table.blocks[1].line()? {
-                // check for an implicit header
-                if first_cell_line == table.location[0].line + 1 {
-                    if let Some(ref mut metadata) = table.metadata {
-                        metadata.options.push("header".to_string());
-                    } else {
-                        let mut metadata = ElementMetadata::default();
-                        metadata.options.push("header".to_string());
-                        table.metadata = Some(metadata)
-                    }
-                }
-            }
-            // count for implicit column designation
-            let cols = table
-                .blocks
-                .iter()
-                .fold(0usize, |acc, block| match block.line() {
-                    Ok(line) => acc + (line == first_cell_line) as usize,
-                    Err(_) => acc, // shouldn't ever happen
-                });
+        if table.blocks.len() >= 2
+            && first_cell_line == table.blocks[1].line()?
+            && first_cell_line == table.location[0].line + 1
+        {
             if let Some(ref mut metadata) = table.metadata {
-                if !metadata.attributes.contains_key("cols") {
-                    metadata
-                        .attributes
-                        .insert("cols".to_string(), format!("{cols}"));
-                }
+                metadata.options.push("header".to_string());
             } else {
                 let mut metadata = ElementMetadata::default();
-                metadata
-                    .attributes
-                    .insert("cols".to_string(), format!("{cols}"));
+                metadata.options.push("header".to_string());
                 table.metadata = Some(metadata)
             }
-            // FOR NOW, make the cols an integer for easier templating.
-            let Some(ref mut metadata) = table.metadata else {
-                error!("Error creating table at Line: {}", first_cell_line);
-                std::process::exit(1)
-            };
-            metadata.simplify_cols();
         }
+        // count for implicit column designation
+        let cols = table
+            .blocks
+            .iter()
+            .fold(0usize, |acc, block| match block.line() {
+                Ok(line) => acc + (line == first_cell_line) as usize,
+                Err(_) => acc, // shouldn't ever happen
+            });
+        let metadata = table.metadata.get_or_insert_with(ElementMetadata::default);
+        if !metadata.attributes.contains_key("cols") {
+            metadata
+                .attributes
+                .insert("cols".to_string(), format!("{cols}"));
+        }
+        // FOR NOW, make the cols an integer for easier templating.
+        metadata.simplify_cols();
         Ok(())
     }
 
-- 
2.43.0


From bfd40a2d97676df155dbebdaa0a29fbf34f4ca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:45 +0000
Subject: [PATCH 39/84] fix: put the cells of a one-column table into rows of
 their own

---
 templates/htmlbook/tables.html.tera | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/htmlbook/tables.html.tera b/templates/htmlbook/tables.html.tera
index 9d3c056..f6a6354 100644
--- a/templates/htmlbook/tables.html.tera
+++ b/templates/htmlbook/tables.html.tera
@@ -22,7 +22,7 @@
         {% for idx in range(start=body_start, end=num_cells) -%}
             {%- set cell = block.blocks | nth(n=idx) -%}
                 {{ self::process_table_cell(cell=cell, tag="td") -}}
-        {% if idx > 0 and (idx + 1) % cols == 0 and idx+1 != num_cells %}
+        {% if (idx + 1) % cols == 0 and idx+1 != num_cells %}
         </tr>
         <tr>{%- endif %}
         {% endfor %}</tr>
-- 
2.43.0


From 4c680548c72c471da205853e13498155f283fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:37 +0000
Subject: [PATCH 40/84] fix: report an include that cannot be read instead of
 ending the process

---
 src/parser.rs | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 008b30d..9bce041 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2,9 +2,8 @@
 use std::{
     collections::{HashMap, VecDeque},
     env,
-    fmt::Debug,
     fs,
-    path::{Path, PathBuf},
+    path::PathBuf,
     str::FromStr,
 };
 
@@ -578,8 +577,10 @@ impl Parser {
         }
 
         // now parse the file
-        for result in Scanner::new_with_stack(&open_file(resolved_target), self.file_stack.clone())
-        {
+        let Ok(contents) = fs::read_to_string(&resolved_target) else {
+            return Err(ParserError::TargetResolution(token.line, target));
+        };
+        for result in Scanner::new_with_stack(&contents, self.file_stack.clone()) {
             match result {
                 Ok(token) => {
                     // lines
@@ -1601,16 +1602,3 @@ impl Parser {
         }
     }
 }
-
-fn open_file<P>(filename: P) -> String
-where
-    P: AsRef<Path> + Into<PathBuf> + Debug,
-{
-    match fs::read_to_string(&filename) {
-        Ok(file_string) => file_string,
-        Err(e) => {
-            warn!("Unable to read file {:?}: {e}", filename);
-            std::process::exit(1)
-        }
-    }
-}
-- 
2.43.0


From 12009372c081a5d7ef793b4488df95e266f28e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:20 +0000
Subject: [PATCH 41/84] fix: keep document attribute values that contain a
 colon or repeat the name

---
 src/parser.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9bce041..39b9de2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -366,19 +366,15 @@ impl Parser {
 
     fn parse_attribute(&mut self, token: Token) -> Result<(), ParserError> {
         let binding = token.text();
-        let mut attr_components: Vec<&str> = binding.split_terminator(':').collect();
-        attr_components.remove(0); // throw away initial "" in the list
-        if attr_components.is_empty() {
+        // throw away initial "" in the list; the value may have colons of its own
+        let mut attr_components = binding.splitn(3, ':').skip(1);
+        let Some(key) = attr_components.next() else {
             warn!("Empty attributes list at line: {}", token.line);
             return Ok(());
-        }
-        let key = attr_components.first().unwrap();
+        };
         // values should be trimmed
-        let mut value = attr_components.last().unwrap().trim();
-        if key == &value {
-            value = ""
-        }
-        match *key {
+        let value = attr_components.next().unwrap_or("").trim();
+        match key {
             "leveloffset" => self.parse_level_offset(value),
             _ => {
                 self.document_attributes
-- 
2.43.0


From fd8513c4b611ff8bb385f0f826a80f1a157eb9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:23 +0000
Subject: [PATCH 42/84] fix: add up relative level offsets and refuse those
 that are too large

---
 src/parser.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 39b9de2..2c4f932 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -385,21 +385,21 @@ impl Parser {
     }
 
     fn parse_level_offset(&mut self, value: &str) -> Result<(), ParserError> {
-        if let Ok(value) = value.parse::<usize>() {
-            self.level_offset = value as i8;
-            Ok(())
-        } else {
-            match value.parse::<i8>() {
-                // absolute value
-                Ok(value) => {
-                    self.level_offset += value;
-                    Ok(())
-                }
-                // relative value, or error
-                Err(_) => Err(ParserError::InternalError(
-                    "Error parsing level offset".to_string(),
-                )),
+        let offset = match value.parse::<i8>() {
+            // relative value
+            Ok(offset) if value.starts_with(['+', '-']) => self.level_offset.checked_add(offset),
+            // absolute value
+            Ok(offset) => Some(offset),
+            Err(_) => None,
+        };
+        match offset {
+            Some(offset) => {
+                self.level_offset = offset;
+                Ok(())
             }
+            None => Err(ParserError::InternalError(
+                "Error parsing level offset".to_string(),
+            )),
         }
     }
 
@@ -791,10 +791,10 @@ impl Parser {
     fn get_heading_level(&self, token: &Token) -> Result<usize, ParserError> {
         let level: i8 = match token.token_type() {
             TokenType::Heading1 => self.level_offset,
-            TokenType::Heading2 => 1 + self.level_offset,
-            TokenType::Heading3 => 2 + self.level_offset,
-            TokenType::Heading4 => 3 + self.level_offset,
-            TokenType::Heading5 => 4 + self.level_offset,
+            TokenType::Heading2 => self.level_offset.saturating_add(1),
+            TokenType::Heading3 => self.level_offset.saturating_add(2),
+            TokenType::Heading4 => self.level_offset.saturating_add(3),
+            TokenType::Heading5 => self.level_offset.saturating_add(4),
             _ => {
                 return Err(ParserError::InternalError(
                     "Inavlid token given to parse_section_headings".to_string(),
-- 
2.43.0


From 83448a0a9c40ea07b13bfc8946c2bf5cd4a0dce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:26 +0000
Subject: [PATCH 43/84] fix: end the level offset of an include with the
 included text

---
 src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2c4f932..90f834b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -532,9 +532,11 @@ impl Parser {
         let mut current_tag: Option<String> = None;
 
         let (target, meta) = target_and_attrs_from_token(&token);
-        // check for level offsets in the include
+        // check for level offsets in the include, which are good for the included text only
+        let mut level_offset_after = None;
         if let Some(metadata) = meta {
             if let Some(value) = metadata.attributes.get("leveloffset") {
+                level_offset_after = Some(self.level_offset);
                 match self.parse_level_offset(value) {
                     Ok(_) => {}
                     Err(e) => return Err(e),
@@ -638,6 +640,9 @@ impl Parser {
         }
         // ...then pop the file off the stack
         self.file_stack.pop();
+        if let Some(level_offset) = level_offset_after {
+            self.level_offset = level_offset;
+        }
         Ok(())
     }
 
-- 
2.43.0


From a7e2bf6df6189c28e7b55712e779d5ba8bf31767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:28 +0000
Subject: [PATCH 44/84] fix: do not crash on code callouts when icons are on

---
 src/parser.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 90f834b..4834d72 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1032,14 +1032,7 @@ impl Parser {
     }
 
     fn parse_code_callout(&mut self, token: Token) -> Result<(), ParserError> {
-        if let Some(value) = self.document_attributes.get("icons") {
-            if value == "true" {
-                if let Some(_last_inline) = self.inline_stack.back_mut() {
-                    // handle deleting comment markup, IF we're handling icons
-                    todo!();
-                }
-            }
-        }
+        // TODO handle deleting comment markup, IF we're handling icons
         self.inline_stack
             .push_back(Inline::InlineSpan(InlineSpan::inline_span_from_token(
                 token,
-- 
2.43.0


From c4e4bb7eded82b4fa3dec49e3010f75309ee1982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:37 +0000
Subject: [PATCH 45/84] fix: keep the stanzas of a verse together

---
 src/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4834d72..ebe3966 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -452,7 +452,14 @@ impl Parser {
             }
         }
 
-        if [TokenType::NewLineChar, TokenType::Eof].contains(&self.last_token_type) {
+        if self.last_token_type == TokenType::NewLineChar
+            && self.open_parse_after_as_text_type == Some(TokenType::QuoteVerseBlock)
+        {
+            // an empty line between stanzas doesn't end the verse
+            if let Some(newline_token) = self.dangling_newline.replace(token) {
+                self.add_text_to_last_inline(newline_token);
+            }
+        } else if [TokenType::NewLineChar, TokenType::Eof].contains(&self.last_token_type) {
             // clear any dangling newline
             self.dangling_newline = None;
             if self.document_header.is_some() {
-- 
2.43.0


From 4aaded10cb3b7586333061b56a21f1f67568931c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:26 +0000
Subject: [PATCH 46/84] fix: keep roles of inline spans apart from block
 attributes

---
 src/parser.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ebe3966..1220ca7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -49,6 +49,8 @@ pub struct Parser {
     block_title: Option<Vec<Inline>>,
     /// holding ground for block metadata, to be applied to the subsequent block
     metadata: Option<ElementMetadata>,
+    /// holding ground for inline metadata, to be applied to the subsequent span
+    inline_metadata: Option<ElementMetadata>,
     /// counts in/out delimited blocks by line reference; allows us to warn/error if they are
     /// unclosed at the end of the document
     open_delimited_block_lines: Vec<usize>,
@@ -111,6 +113,7 @@ impl Parser {
             file_stack: vec![],
             block_title: None,
             metadata: None,
+            inline_metadata: None,
             open_delimited_block_lines: vec![],
             level_offset: 0,
             in_block_line: false,
@@ -416,8 +419,7 @@ impl Parser {
         Ok(())
     }
     fn parse_inline_element_attributes(&mut self, token: Token) -> Result<(), ParserError> {
-        self.metadata = Some(ElementMetadata::new_inline_meta_from_token(token));
-        self.force_new_block = true;
+        self.inline_metadata = Some(ElementMetadata::new_inline_meta_from_token(token));
         Ok(())
     }
 
@@ -909,9 +911,8 @@ impl Parser {
         // check for any other dangling spans (otherwise they disappear!)
         self.handle_dangling_spans();
         // add any metadata to new inline
-        if self.metadata.is_some() {
-            inline.add_metadata(self.metadata.as_ref().unwrap().clone());
-            self.metadata = None;
+        if let Some(metadata) = self.inline_metadata.take() {
+            inline.add_metadata(metadata);
         }
         self.inline_stack.push_back(inline);
 
-- 
2.43.0


From eed7aea35635d86967c1a0ad36fd47ba017bdbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:44 +0000
Subject: [PATCH 47/84] fix: keep roles of spans inside of spans

---
 src/parser.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1220ca7..b11411c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -894,12 +894,14 @@ impl Parser {
                     if inline == *last_internal_inline {
                         last_internal_inline.reconcile_locations(inline.locations());
                         last_internal_inline.close();
-                    } else {
-                        last_span.add_inline(inline);
+                        return Ok(());
                     }
-                } else {
-                    last_span.add_inline(inline);
                 }
+                // add any metadata to new inline
+                if let Some(metadata) = self.inline_metadata.take() {
+                    inline.add_metadata(metadata);
+                }
+                last_span.add_inline(inline);
                 return Ok(());
             }
         }
-- 
2.43.0


From 8f16fac5d611851047aa863a3b1f32a2e550d1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:13 +0000
Subject: [PATCH 48/84] fix: do not reopen inline spans that are closed

---
 src/graph/inlines.rs | 17 +++++++++++++++++
 src/parser.rs        | 11 ++++-------
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index 156abe2..1e8e47b 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -403,6 +403,23 @@ impl InlineSpan {
         }
     }
 
+    /// Closes the open span inside of this one, at any depth, that the given mark belongs to;
+    /// returns false if there is none
+    pub fn close_inner_span(&mut self, mark: &Inline) -> bool {
+        let Some(last_inline) = self.inlines.last_mut().filter(|last| last.is_open()) else {
+            return false;
+        };
+        if mark == last_inline {
+            last_inline.reconcile_locations(mark.locations());
+            last_inline.close();
+            return true;
+        }
+        match last_inline {
+            Inline::InlineSpan(last_span) => last_span.close_inner_span(mark),
+            _ => false,
+        }
+    }
+
     fn new_footnote_ref(footnote_ref: InlineRef) -> Self {
         let mut footnote = InlineSpan::new(
             InlineSpanVariant::Superscript,
diff --git a/src/parser.rs b/src/parser.rs
index b11411c..0377906 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -883,19 +883,16 @@ impl Parser {
 
     /// Generic parser for inline spans that close themselves
     fn parse_inline_span(&mut self, mut inline: Inline) -> Result<(), ParserError> {
-        if let Some(last_inline) = self.inline_stack.back_mut() {
+        // a span that is closed already takes no further marks
+        if let Some(last_inline) = self.inline_stack.back_mut().filter(|last| last.is_open()) {
             if inline == *last_inline {
                 last_inline.reconcile_locations(inline.locations());
                 last_inline.close();
                 self.in_inline_span = false;
                 return Ok(());
             } else if let Inline::InlineSpan(last_span) = last_inline {
-                if let Some(last_internal_inline) = last_span.inlines.last_mut() {
-                    if inline == *last_internal_inline {
-                        last_internal_inline.reconcile_locations(inline.locations());
-                        last_internal_inline.close();
-                        return Ok(());
-                    }
+                if last_span.close_inner_span(&inline) {
+                    return Ok(());
                 }
                 // add any metadata to new inline
                 if let Some(metadata) = self.inline_metadata.take() {
-- 
2.43.0


From 793e80a9c8026690bb9ecbf62981804ef3a0589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:40 +0000
Subject: [PATCH 49/84] fix: keep breaks and images inside of their delimited
 block

---
 src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0377906..275db04 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1533,7 +1533,12 @@ impl Parser {
             block.add_metadata(self.metadata.as_ref().unwrap().clone())?;
             self.metadata = None;
         }
-        asg.push_block(block)?;
+        if self.open_delimited_block_lines.is_empty() {
+            asg.push_block(block)?;
+        } else {
+            // stays with the blocks ahead of it until the delimited block is closed
+            self.block_stack.push(block);
+        }
         Ok(())
     }
 
-- 
2.43.0


From 443d0e6d26fd21dd1b97118bcef21553b5f3dabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:27:07 +0000
Subject: [PATCH 50/84] fix: end a paragraph where another block starts

---
 src/parser.rs | 56 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 13 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 275db04..cd0333f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -227,6 +227,7 @@ impl Parser {
 
             // block titles, metadata, etc.
             TokenType::BlockLabel => {
+                self.close_paragraph(asg)?;
                 // open the block title
                 self.block_title = Some(Vec::new());
                 self.in_block_line = true;
@@ -290,7 +291,7 @@ impl Parser {
             TokenType::SidebarBlock
             | TokenType::OpenBlock
             | TokenType::ExampleBlock
-            | TokenType::Table => self.parse_delimited_parent_block(token),
+            | TokenType::Table => self.parse_delimited_parent_block(token, asg),
 
             // table cells -- note that we just create the cells; up to the backend/template to handle the
             // column-making (for now, so we can just reuse ParentBlock)
@@ -300,30 +301,30 @@ impl Parser {
                 // check if it's verse
                 if let Some(metadata) = &self.metadata {
                     if metadata.declared_type == Some(AttributeType::Verse) {
-                        self.parse_delimited_leaf_block(token)?;
+                        self.parse_delimited_leaf_block(token, asg)?;
                         return Ok(());
                     }
                 } else if self.open_parse_after_as_text_type.is_some() {
-                    self.parse_delimited_leaf_block(token)?;
+                    self.parse_delimited_leaf_block(token, asg)?;
                     return Ok(());
                 }
 
-                self.parse_delimited_parent_block(token)?;
+                self.parse_delimited_parent_block(token, asg)?;
                 Ok(())
             }
 
             // the following should probably be consumed into the above
             TokenType::PassthroughBlock | TokenType::LiteralBlock => {
-                self.parse_delimited_leaf_block(token)
+                self.parse_delimited_leaf_block(token, asg)
             }
-            TokenType::SourceBlock => self.parse_delimited_leaf_block(token),
+            TokenType::SourceBlock => self.parse_delimited_leaf_block(token, asg),
             TokenType::CodeCallout => self.parse_code_callout(token),
 
             // block macros
             TokenType::BlockImageMacro => self.parse_block_image(token, asg),
 
             // lists
-            TokenType::UnorderedListItem => self.parse_unordered_list_item(token),
+            TokenType::UnorderedListItem => self.parse_unordered_list_item(token, asg),
             TokenType::CodeCalloutListItem | // for now, match here (until we need to do more)
             TokenType::OrderedListItem => self.parse_ordered_list_item(token, asg),
             TokenType::DescriptionListMarker => self.parse_description_list_term(token),
@@ -333,7 +334,7 @@ impl Parser {
             | TokenType::TipPara
             | TokenType::ImportantPara
             | TokenType::CautionPara
-            | TokenType::WarningPara => self.parse_admonition_para_syntax(token),
+            | TokenType::WarningPara => self.parse_admonition_para_syntax(token, asg),
 
             // block continuation... I think does nothing, parser-wise, since it simply prevents
             // the double newline
@@ -353,7 +354,7 @@ impl Parser {
                     }
                     Ok(())
                 } else {
-                    self.parse_delimited_leaf_block(token)
+                    self.parse_delimited_leaf_block(token, asg)
                 }
             }
 
@@ -507,6 +508,7 @@ impl Parser {
     }
 
     fn parse_thematic_break(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
+        self.close_paragraph(asg)?;
         self.add_to_block_stack_or_graph(
             asg,
             Block::Break(Break::new(
@@ -517,6 +519,7 @@ impl Parser {
     }
 
     fn parse_page_break(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
+        self.close_paragraph(asg)?;
         self.add_to_block_stack_or_graph(
             asg,
             Block::Break(Break::new(
@@ -709,6 +712,7 @@ impl Parser {
         {
             self.add_last_list_item_to_list()?
         } else {
+            self.close_paragraph(asg)?;
             // we need to create the list first
             let mut list = List::new(ListVariant::Ordered, token.locations().clone());
             if token.token_type() == TokenType::CodeCalloutListItem {
@@ -730,7 +734,7 @@ impl Parser {
         Ok(())
     }
     //
-    fn parse_unordered_list_item(&mut self, token: Token) -> Result<(), ParserError> {
+    fn parse_unordered_list_item(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
         // clear any dangling newlines
         self.dangling_newline = None;
         let list_item = ListItem::new(token.lexeme.clone(), token.locations());
@@ -741,6 +745,7 @@ impl Parser {
         {
             self.add_last_list_item_to_list()?
         } else {
+            self.close_paragraph(asg)?;
             // we need to create the list first
             self.push_block_to_stack(Block::List(List::new(
                 ListVariant::Unordered,
@@ -775,6 +780,7 @@ impl Parser {
 
     fn parse_section_headings(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
         let level = self.get_heading_level(&token)?;
+        self.close_paragraph(asg)?;
 
         // if the last section is at the same level, we need to push that up, otherwise the
         // accordion effect gets screwy with section levels
@@ -834,7 +840,8 @@ impl Parser {
         }
     }
 
-    fn parse_admonition_para_syntax(&mut self, token: Token) -> Result<(), ParserError> {
+    fn parse_admonition_para_syntax(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
+        self.close_paragraph(asg)?;
         self.block_stack
             .push(Block::ParentBlock(ParentBlock::new_from_token(token)?));
         self.close_parent_after_push = true;
@@ -938,6 +945,7 @@ impl Parser {
     fn parse_block_image(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
         let (target, metadata) = target_and_attrs_from_token(&token);
         self.check_target(token.line, &target)?;
+        self.close_paragraph(asg)?;
         let mut image_block = BlockMacro::new_image_block(target, metadata, token.locations());
         if let Some(metadata) = &self.metadata {
             // TODO see if there is a cleaner way to manage the borrowing here.
@@ -1138,7 +1146,7 @@ impl Parser {
         Ok(())
     }
 
-    fn parse_delimited_leaf_block(&mut self, token: Token) -> Result<(), ParserError> {
+    fn parse_delimited_leaf_block(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
         if self.open_parse_after_as_text_type.is_some() {
             // ensure inlines are added appropriately
             self.add_inlines_to_block_stack()?;
@@ -1152,6 +1160,7 @@ impl Parser {
                 None => Err(ParserError::OpenParse(token.line)),
             }
         } else {
+            self.close_paragraph(asg)?;
             self.open_parse_after_as_text_type = Some(token.token_type());
             let block = LeafBlock::new_from_token(token)?;
             // a continued block is attached to its list item once it is closed
@@ -1164,7 +1173,7 @@ impl Parser {
         }
     }
 
-    fn parse_delimited_parent_block(&mut self, token: Token) -> Result<(), ParserError> {
+    fn parse_delimited_parent_block(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
         let delimiter_line = token.first_location().line;
         let mut block = ParentBlock::new_from_token(token)?;
         // clear the dangling newline
@@ -1220,6 +1229,7 @@ impl Parser {
                     .insert(parent_block_idx, Block::ParentBlock(matched));
             }
         }
+        self.close_paragraph(asg)?;
         // note the open block line
         self.open_delimited_block_lines.push(delimiter_line);
         self.push_block_to_stack(Block::ParentBlock(block))
@@ -1487,6 +1497,26 @@ impl Parser {
         self.push_block_to_stack(para_block)
     }
 
+    /// Ends the paragraph that the start of another block follows without an empty line in between
+    fn close_paragraph(&mut self, asg: &mut Asg) -> Result<(), ParserError> {
+        if self.inline_stack.is_empty() || self.document_header.is_some() {
+            return Ok(());
+        }
+        // these are for the block that starts
+        let metadata = self.metadata.take();
+        let block_title = self.block_title.take();
+        self.dangling_newline = None;
+        self.add_inlines_to_block_stack()?;
+        self.metadata = metadata;
+        self.block_title = block_title;
+        if let Some(Block::LeafBlock(_)) = self.block_stack.last() {
+            if self.open_delimited_block_lines.is_empty() {
+                self.add_last_to_block_stack_or_graph(asg)?;
+            }
+        }
+        Ok(())
+    }
+
     /// Adds data to an existing ElementMetadata object, or creates one
     fn add_metadata_from_token(&mut self, token: Token) {
         match self.metadata {
-- 
2.43.0


From f1de517823d7f5475c9139827e7698cbe47b0f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:11 +0000
Subject: [PATCH 51/84] fix: keep what follows a delimited block out of it

---
 src/parser.rs         | 23 +++++++++++++++++++++--
 src/scanner/tokens.rs |  8 ++++++++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index cd0333f..198c8d1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1155,7 +1155,7 @@ impl Parser {
                     open_leaf.add_locations(token.locations().clone());
                     self.push_block_to_stack(open_leaf)?;
                     self.open_parse_after_as_text_type = None;
-                    Ok(())
+                    self.close_delimited_block(asg)
                 }
                 None => Err(ParserError::OpenParse(token.line)),
             }
@@ -1223,7 +1223,7 @@ impl Parser {
                 self.block_continuations
                     .retain(|continuation| *continuation <= open_blocks);
                 self.push_block_to_stack(delimited_block)?;
-                return Ok(());
+                return self.close_delimited_block(asg);
             } else {
                 self.block_stack
                     .insert(parent_block_idx, Block::ParentBlock(matched));
@@ -1235,6 +1235,25 @@ impl Parser {
         self.push_block_to_stack(Block::ParentBlock(block))
     }
 
+    /// Puts a delimited block that is complete where it belongs, so that what follows it doesn't get
+    /// into it
+    fn close_delimited_block(&mut self, asg: &mut Asg) -> Result<(), ParserError> {
+        self.force_new_block = true;
+        if !self.open_delimited_block_lines.is_empty() {
+            return self.close_admonition_paragraph();
+        }
+        if let Some(Block::LeafBlock(_) | Block::ParentBlock(_)) = self.block_stack.last() {
+            self.add_last_to_block_stack_or_graph(asg)?;
+            if self.close_parent_after_push {
+                if let Some(Block::ParentBlock(_)) = self.block_stack.last() {
+                    self.add_last_to_block_stack_or_graph(asg)?;
+                }
+                self.close_parent_after_push = false;
+            }
+        }
+        Ok(())
+    }
+
     fn parse_table_cell(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
         // take the token text, which begins with a `|`, and then use everything after
         let cell_contents = token.text()[1..].to_string();
diff --git a/src/scanner/tokens.rs b/src/scanner/tokens.rs
index a19eb1c..f660deb 100644
--- a/src/scanner/tokens.rs
+++ b/src/scanner/tokens.rs
@@ -335,6 +335,14 @@ impl TokenType {
                 | TokenType::OpenBlock
                 | TokenType::QuoteVerseBlock
                 | TokenType::ExampleBlock
+                | TokenType::Table
+                | TokenType::SourceBlock
+                | TokenType::LiteralBlock
+                | TokenType::PassthroughBlock
+                | TokenType::CommentBlock
+                | TokenType::BlockImageMacro
+                | TokenType::ThematicBreak
+                | TokenType::PageBreak
         )
     }
 }
-- 
2.43.0


From 30ca542089ea9ad3a35229a9ad90645f95a60947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:35 +0000
Subject: [PATCH 52/84] fix: keep formatted text together that goes on in the
 next line of a description

---
 src/parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 198c8d1..6be371c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -474,6 +474,7 @@ impl Parser {
                 } else if let Some(Block::DListItem(_)) = self.block_stack.last() {
                     self.add_last_list_item_to_list()?;
                 }
+                self.preserve_newline_text = false;
                 // clear out any inlines
                 self.in_inline_span = false;
                 self.add_inlines_to_block_stack()?;
@@ -1057,7 +1058,7 @@ impl Parser {
 
     fn parse_text(&mut self, token: Token) -> Result<(), ParserError> {
         if let Some(newline_token) = self.dangling_newline.clone() {
-            if self.preserve_newline_text {
+            if self.preserve_newline_text && !self.in_inline_span {
                 // add the newline as such
                 self.inline_stack.push_back(Inline::InlineLiteral(
                     InlineLiteral::new_text_from_token(&newline_token),
@@ -1080,7 +1081,7 @@ impl Parser {
 
     fn pass_text_through(&mut self, token: Token) -> Result<(), ParserError> {
         if let Some(newline_token) = self.dangling_newline.clone() {
-            if self.preserve_newline_text {
+            if self.preserve_newline_text && !self.in_inline_span {
                 // add the newline as such
                 self.inline_stack.push_back(Inline::InlineLiteral(
                     InlineLiteral::new_text_from_token(&newline_token),
@@ -1104,7 +1105,7 @@ impl Parser {
     fn parse_charref(&mut self, token: Token) -> Result<(), ParserError> {
         let inline_literal = Inline::InlineLiteral(InlineLiteral::new_charref_from_token(&token));
         if let Some(newline_token) = self.dangling_newline.clone() {
-            if self.preserve_newline_text {
+            if self.preserve_newline_text && !self.in_inline_span {
                 // add the newline as such
                 self.inline_stack.push_back(Inline::InlineLiteral(
                     InlineLiteral::new_text_from_token(&newline_token),
-- 
2.43.0


From dd2614cefb4cf37842a23836aa7371d33f5b8c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:43 +0000
Subject: [PATCH 53/84] fix: go back to the outer list after a list nested in
 it

---
 src/parser.rs | 58 ++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6be371c..3b9c7a4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -469,11 +469,7 @@ impl Parser {
                 self.check_and_move_header(asg)?;
             } else {
                 // consolidate any dangling list items
-                if let Some(Block::ListItem(_)) = self.block_stack.last() {
-                    self.add_last_list_item_to_list()?;
-                } else if let Some(Block::DListItem(_)) = self.block_stack.last() {
-                    self.add_last_list_item_to_list()?;
-                }
+                self.close_list_items(0)?;
                 self.preserve_newline_text = false;
                 // clear out any inlines
                 self.in_inline_span = false;
@@ -687,6 +683,11 @@ impl Parser {
             let inline = self.inline_stack.pop_front().unwrap();
             dlist_item.push_term(inline);
         }
+        let sibling = self
+            .block_stack
+            .iter()
+            .rposition(|block| block.is_definition_list_item());
+        self.close_nested_lists(sibling)?;
         if self.block_stack.last().is_some()
             && self.block_stack.last().unwrap().is_definition_list_item()
         {
@@ -708,6 +709,11 @@ impl Parser {
         let list_item = ListItem::new(token.lexeme.clone(), token.locations());
         // if there is an appropriate list, we push this onto the open_blocks so inlines can be
         // added
+        let sibling = self
+            .block_stack
+            .iter()
+            .rposition(|block| block.is_ordered_list_item());
+        self.close_nested_lists(sibling)?;
         if self.block_stack.last().is_some()
             && self.block_stack.last().unwrap().is_ordered_list_item()
         {
@@ -741,6 +747,11 @@ impl Parser {
         let list_item = ListItem::new(token.lexeme.clone(), token.locations());
         // if there is an appropriate list, we push this onto the open_blocks so inlines can be
         // added
+        let sibling = self
+            .block_stack
+            .iter()
+            .rposition(|block| block.is_unordered_list_item());
+        self.close_nested_lists(sibling)?;
         if self.block_stack.last().is_some()
             && self.block_stack.last().unwrap().is_unordered_list_item()
         {
@@ -1568,6 +1579,43 @@ impl Parser {
         Ok(())
     }
 
+    /// Closes list items, putting their list into the list item it is nested in, as long as there
+    /// are more open blocks than wanted
+    fn close_list_items(&mut self, open_blocks: usize) -> Result<(), ParserError> {
+        while self.block_stack.len() > open_blocks {
+            let Some(Block::ListItem(_) | Block::DListItem(_)) = self.block_stack.last() else {
+                break;
+            };
+            self.add_last_list_item_to_list()?;
+            let [.., Block::ListItem(_) | Block::DListItem(_), Block::List(_) | Block::DList(_)] =
+                self.block_stack.as_slice()
+            else {
+                break;
+            };
+            let list = self.block_stack.pop().ok_or(ParserError::BlockStack)?;
+            if let Some(list_item) = self.block_stack.last_mut() {
+                list_item.push_block(list)?;
+            }
+        }
+        Ok(())
+    }
+
+    /// Goes back to the list of an earlier item, if only lists were opened since
+    fn close_nested_lists(&mut self, sibling: Option<usize>) -> Result<(), ParserError> {
+        let Some(sibling) = sibling else {
+            return Ok(());
+        };
+        for block in self.block_stack.iter().skip(sibling) {
+            if !matches!(
+                block,
+                Block::List(_) | Block::ListItem(_) | Block::DList(_) | Block::DListItem(_)
+            ) {
+                return Ok(());
+            }
+        }
+        self.close_list_items(sibling + 1)
+    }
+
     fn add_to_block_stack_or_graph(
         &mut self,
         asg: &mut Asg,
-- 
2.43.0


From 3fe416196fcc9b322c371e2d4e29325c1614cf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:41 +0000
Subject: [PATCH 54/84] fix: put a list that continues a list item into the
 item

---
 src/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 3b9c7a4..44d9ddf 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -693,6 +693,7 @@ impl Parser {
         {
             self.add_last_list_item_to_list()?
         } else {
+            self.close_list_continuation();
             // we need to create the list first
             self.push_block_to_stack(Block::DList(DList::new(dlist_item.locations().clone())))?;
         }
@@ -720,6 +721,7 @@ impl Parser {
             self.add_last_list_item_to_list()?
         } else {
             self.close_paragraph(asg)?;
+            self.close_list_continuation();
             // we need to create the list first
             let mut list = List::new(ListVariant::Ordered, token.locations().clone());
             if token.token_type() == TokenType::CodeCalloutListItem {
@@ -758,6 +760,7 @@ impl Parser {
             self.add_last_list_item_to_list()?
         } else {
             self.close_paragraph(asg)?;
+            self.close_list_continuation();
             // we need to create the list first
             self.push_block_to_stack(Block::List(List::new(
                 ListVariant::Unordered,
@@ -894,6 +897,13 @@ impl Parser {
         Ok(())
     }
 
+    /// A list goes into the item it continues once it is complete, as any nested list does
+    fn close_list_continuation(&mut self) {
+        if self.in_block_continuation() {
+            self.block_continuations.pop();
+        }
+    }
+
     /// Whether the next block at this depth is to be attached to the last one; a block inside of
     /// a delimited block that was opened after the continuation is not
     fn in_block_continuation(&self) -> bool {
-- 
2.43.0


From 2841f7d85e3dd8d0432ab2d793781d404f263785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:34:16 +0000
Subject: [PATCH 55/84] fix: keep breaks out of the blocks ahead of them

---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 44d9ddf..7296624 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1631,8 +1631,12 @@ impl Parser {
         asg: &mut Asg,
         mut block: Block,
     ) -> Result<(), ParserError> {
+        let open_line = self.open_delimited_block_lines.last().copied();
         if let Some(last_block) = self.block_stack.last_mut() {
-            if last_block.takes_block_of_type(&block) {
+            // a block that is complete stays as it is
+            let complete = matches!(last_block, Block::ParentBlock(parent)
+                if open_line.is_some() && parent.opening_line().ok() != open_line);
+            if !complete && last_block.takes_block_of_type(&block) {
                 last_block.push_block(block)?;
                 return Ok(());
             }
-- 
2.43.0


From 96c0fc11f0d8c9feddddb0c7893f9e9b3ad46bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:39 +0000
Subject: [PATCH 56/84] fix: do not take text in brackets for the text of a
 macro that is complete

---
 src/graph/inlines.rs | 19 ++++++++++++++++++-
 src/parser.rs        |  8 +++-----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index 1e8e47b..776db0f 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -97,6 +97,15 @@ impl Inline {
         }
     }
 
+    /// Whether this is a macro that still waits for its closing bracket
+    pub fn is_open_macro(&self) -> bool {
+        match self {
+            Inline::InlineRef(iref) => iref.open,
+            Inline::InlineSpan(span) => span.open && span.variant == InlineSpanVariant::Footnote,
+            _ => false,
+        }
+    }
+
     pub fn is_passthrough(&self) -> bool {
         match self {
             Inline::InlineRef(iref) => iref.variant == InlineRefVariant::Link,
@@ -240,6 +249,7 @@ impl Inline {
     pub fn close(&mut self) {
         match self {
             Inline::InlineSpan(span) => span.open = false,
+            Inline::InlineRef(iref) => iref.open = false,
             _ => panic!("Invalid action: this inline does not take metadata"),
         }
     }
@@ -536,6 +546,8 @@ pub struct InlineRef {
     #[serde(skip_serializing_if = "Option::is_none")]
     pub metadata: Option<ElementMetadata>,
     location: Vec<Location>,
+    #[serde(skip)]
+    open: bool,
 }
 
 impl InlineRef {
@@ -548,6 +560,7 @@ impl InlineRef {
             inlines: vec![],
             metadata: None,
             location,
+            open: false,
         }
     }
 
@@ -571,6 +584,7 @@ impl InlineRef {
             inlines: vec![numbering],
             metadata,
             location,
+            open: false,
         }
     }
 
@@ -582,7 +596,9 @@ impl InlineRef {
     pub fn new_link_from_macro_token(token: Token) -> Self {
         let mut target = token.text();
         target.pop(); // remove trailing '['
-        InlineRef::new(InlineRefVariant::Link, target, token.locations())
+        let mut link = InlineRef::new(InlineRefVariant::Link, target, token.locations());
+        link.open = true;
+        link
     }
 
     pub fn new_link_from_token(token: Token) -> Self {
@@ -604,6 +620,7 @@ impl InlineRef {
                 inlines: vec![],
                 metadata,
                 location,
+                open: false,
             }
         } else {
             InlineRef::new(InlineRefVariant::Image, target, location)
diff --git a/src/parser.rs b/src/parser.rs
index 7296624..c9efa07 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1014,7 +1014,7 @@ impl Parser {
         } else if let Some(inline_macro_idx) = self
             .inline_stack
             .iter()
-            .rposition(|inline| inline.is_macro())
+            .rposition(|inline| inline.is_open_macro())
         {
             // consolidate into the inline macro
             let mut inline_macro = self.inline_stack.remove(inline_macro_idx).unwrap();
@@ -1024,10 +1024,8 @@ impl Parser {
             }
             // update the locations
             inline_macro.consolidate_locations_from_token(token);
-            // a footnote is complete, unlike a span that still waits for its closing mark
-            if inline_macro.is_footnote() {
-                inline_macro.close();
-            }
+            // the macro is complete
+            inline_macro.close();
             // add it back to the stack
             self.inline_stack.push_back(inline_macro);
             // note that we're now closed
-- 
2.43.0


From 4daca5bcb307ca5e63aef1f132650613099e08a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:37:04 +0000
Subject: [PATCH 57/84] fix: keep references and macros inside of the formatted
 text they are in

---
 src/graph/inlines.rs |  5 +++++
 src/parser.rs        | 23 +++++++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index 776db0f..122cec0 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -255,6 +255,11 @@ impl Inline {
     }
 
     pub fn attempt_xref_standardization(&mut self, id_hash: &HashMap<String, Vec<Inline>>) {
+        if let Inline::InlineSpan(span) = self {
+            for inline in span.inlines.iter_mut() {
+                inline.attempt_xref_standardization(id_hash);
+            }
+        }
         if let Inline::InlineRef(iref) = self {
             if matches!(iref.variant, InlineRefVariant::Xref) {
                 if let Some(ref_text) = id_hash.get(&iref.target) {
diff --git a/src/parser.rs b/src/parser.rs
index c9efa07..0030b2c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -931,6 +931,29 @@ impl Parser {
                 return Ok(());
             }
         }
+        // a span that was opened ahead of a reference, a macro, or a line break
+        if let Some(open_span_idx) = self
+            .inline_stack
+            .iter()
+            .rposition(|other| other.is_open_macro() || (other.is_open() && *other == inline))
+            .filter(|idx| !self.inline_stack[*idx].is_open_macro())
+        {
+            if let Some(newline_token) = self.dangling_newline.take() {
+                self.add_text_to_last_inline(newline_token);
+            }
+            let children = self.inline_stack.split_off(open_span_idx + 1);
+            if let Some(Inline::InlineSpan(open_span)) = self.inline_stack.back_mut() {
+                for child in children {
+                    open_span.add_inline(child);
+                }
+            }
+            if let Some(open_span) = self.inline_stack.back_mut() {
+                open_span.reconcile_locations(inline.locations());
+                open_span.close();
+            }
+            self.in_inline_span = false;
+            return Ok(());
+        }
         // handle newline tokens prior to constrained spans
         if let Some(newline_token) = self.dangling_newline.clone() {
             self.add_text_to_last_inline(newline_token);
-- 
2.43.0


From 15c52319e80b99257b2b24df43fcece8197399fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:40:56 +0000
Subject: [PATCH 58/84] fix: keep the title of a section that ends the document

---
 src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 0030b2c..6eaa3a4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -155,6 +155,12 @@ impl Parser {
             }
         }
 
+        // a heading may end with the document
+        if let Some(Block::Section(_)) = self.block_stack.last() {
+            if self.block_title.is_none() {
+                self.in_block_line = false;
+            }
+        }
         // add any dangling inlines
         self.add_inlines_to_block_stack()?;
         // add any dangling blocks (most often sections)
-- 
2.43.0


From ed4504474d7dc477029cba13c4c8872d616c95dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:10 +0000
Subject: [PATCH 59/84] fix: keep the line end ahead of a reference or macro

---
 src/parser.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 6eaa3a4..faeada4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -978,6 +978,7 @@ impl Parser {
     }
 
     fn parse_link_macro(&mut self, token: Token) -> Result<(), ParserError> {
+        self.add_dangling_newline();
         self.inline_stack
             .push_back(Inline::InlineRef(InlineRef::new_link_from_macro_token(
                 token,
@@ -986,6 +987,7 @@ impl Parser {
     }
 
     fn parse_hyperlink(&mut self, token: Token) -> Result<(), ParserError> {
+        self.add_dangling_newline();
         self.inline_stack
             .push_back(Inline::InlineRef(InlineRef::new_link_from_token(token)));
         // the link is complete: text that follows is not a part of it
@@ -1013,6 +1015,7 @@ impl Parser {
     fn parse_inline_image_macro(&mut self, token: Token) -> Result<(), ParserError> {
         let (target, metadata) = target_and_attrs_from_token(&token);
         let _ = self.check_target(token.line, &target);
+        self.add_dangling_newline();
         self.inline_stack
             .push_back(Inline::InlineRef(InlineRef::new_inline_image(
                 target,
@@ -1024,6 +1027,7 @@ impl Parser {
     }
 
     fn parse_footnote_macro(&mut self, token: Token) -> Result<(), ParserError> {
+        self.add_dangling_newline();
         self.inline_stack
             .push_back(Inline::InlineSpan(InlineSpan::inline_span_from_token(
                 token,
@@ -1089,6 +1093,7 @@ impl Parser {
     }
 
     fn parse_cross_reference(&mut self, token: Token) -> Result<(), ParserError> {
+        self.add_dangling_newline();
         self.inline_stack
             .push_back(Inline::InlineRef(InlineRef::new_xref_from_token(token)));
         self.close_parent_after_push = true;
@@ -1353,6 +1358,15 @@ impl Parser {
         Ok(())
     }
 
+    /// Keeps the line end between a line of text and a reference or macro that starts the next line
+    fn add_dangling_newline(&mut self) {
+        if let Some(newline_token) = self.dangling_newline.take() {
+            if !self.inline_stack.is_empty() {
+                self.add_text_to_last_inline(newline_token);
+            }
+        }
+    }
+
     fn add_text_to_last_inline(&mut self, token: Token) {
         let inline_literal = Inline::InlineLiteral(InlineLiteral::new_text_from_token(&token));
         if let Some(last_inline) = self.inline_stack.back_mut() {
-- 
2.43.0


From d2bad54edc0e2c9adbbe44f80666141424768cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:56 +0000
Subject: [PATCH 60/84] fix: take only its own line for a description list term

---
 src/parser.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index faeada4..9da967d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -673,7 +673,7 @@ impl Parser {
         if let Some(newline_idx) = self
             .inline_stack
             .iter()
-            .position(|inline| inline.is_newline())
+            .rposition(|inline| inline.is_newline())
         {
             // remove the inlines that ought to constitute the next term
             let mut next_terms: VecDeque<Inline> = self.inline_stack.drain(newline_idx..).collect();
@@ -961,10 +961,7 @@ impl Parser {
             return Ok(());
         }
         // handle newline tokens prior to constrained spans
-        if let Some(newline_token) = self.dangling_newline.clone() {
-            self.add_text_to_last_inline(newline_token);
-            self.dangling_newline = None;
-        }
+        self.add_dangling_newline();
         // check for any other dangling spans (otherwise they disappear!)
         self.handle_dangling_spans();
         // add any metadata to new inline
@@ -1361,7 +1358,14 @@ impl Parser {
     /// Keeps the line end between a line of text and a reference or macro that starts the next line
     fn add_dangling_newline(&mut self) {
         if let Some(newline_token) = self.dangling_newline.take() {
-            if !self.inline_stack.is_empty() {
+            if self.inline_stack.is_empty() {
+                return;
+            }
+            if self.preserve_newline_text && !self.in_inline_span {
+                self.inline_stack.push_back(Inline::InlineLiteral(
+                    InlineLiteral::new_text_from_token(&newline_token),
+                ));
+            } else {
                 self.add_text_to_last_inline(newline_token);
             }
         }
-- 
2.43.0


From 3106d5b6a74d77e920209cf58d478c04bab18ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:12 +0000
Subject: [PATCH 61/84] fix: keep the last item of a description list that ends
 its block in the list

---
 src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.rs b/src/parser.rs
index 9da967d..6d83790 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1244,6 +1244,7 @@ impl Parser {
             // close any dangling inlines BEFORE opening the delimited block lines
             self.add_inlines_to_block_stack()?;
             self.close_admonition_paragraph()?;
+            self.close_list_items(parent_block_idx + 1)?;
             let matched_block = self.block_stack.remove(parent_block_idx);
             let Block::ParentBlock(mut matched) = matched_block else {
                 return Err(ParserError::ParentBlock(delimiter_line));
-- 
2.43.0


From d1885288ceea024851d97c3dafdd54cd13bc8594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:26 +0000
Subject: [PATCH 62/84] fix: end the title of a section with its line

---
 src/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 6d83790..b0c5f71 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -461,6 +461,15 @@ impl Parser {
             }
         }
 
+        // a heading ends with its line
+        if in_block_line && self.document_header.is_none() && !self.inline_stack.is_empty() {
+            if let Some(Block::Section(_)) = self.block_stack.last() {
+                self.add_inlines_to_block_stack()?;
+                self.force_new_block = true;
+                return Ok(());
+            }
+        }
+
         if self.last_token_type == TokenType::NewLineChar
             && self.open_parse_after_as_text_type == Some(TokenType::QuoteVerseBlock)
         {
-- 
2.43.0


From d665009d5d768de564e6e8fcc1212c609d1c7e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:52 +0000
Subject: [PATCH 63/84] fix: keep the marks of unclosed formatted text where
 they are

---
 src/graph/inlines.rs |  7 ++++++-
 src/parser.rs        | 14 +++++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index 122cec0..6233f59 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -248,7 +248,11 @@ impl Inline {
 
     pub fn close(&mut self) {
         match self {
-            Inline::InlineSpan(span) => span.open = false,
+            Inline::InlineSpan(span) => {
+                // what is still open inside of the span is not going to be closed
+                span.inlines = span.extract_span_inlines().into();
+                span.open = false
+            }
             Inline::InlineRef(iref) => iref.open = false,
             _ => panic!("Invalid action: this inline does not take metadata"),
         }
@@ -389,6 +393,7 @@ impl InlineSpan {
                         format!("({})", &token.text()[1..token.text().len() - 1]),
                         token.locations(),
                     )));
+                code_span.open = false;
                 code_span
             }
             _ => {
diff --git a/src/parser.rs b/src/parser.rs
index b0c5f71..0039628 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -971,8 +971,6 @@ impl Parser {
         }
         // handle newline tokens prior to constrained spans
         self.add_dangling_newline();
-        // check for any other dangling spans (otherwise they disappear!)
-        self.handle_dangling_spans();
         // add any metadata to new inline
         if let Some(metadata) = self.inline_metadata.take() {
             inline.add_metadata(metadata);
@@ -1497,6 +1495,15 @@ impl Parser {
                     }
                 }
                 self.inline_stack = temp_stack.into();
+            } else if open_span_idx < self.inline_stack.len() {
+                self.inline_stack.insert(
+                    open_span_idx,
+                    Inline::InlineLiteral(InlineLiteral::new(
+                        InlineLiteralName::Text,
+                        open_span_literal,
+                        open_span.locations(),
+                    )),
+                );
             } else {
                 // ... or if there are no children, add the token to the back of the last one; this
                 // is a little hacky, but it is cleaner compared to the rest of the code just to
@@ -1524,9 +1531,10 @@ impl Parser {
         }
 
         // dangling inlines
-        if self.in_inline_span {
+        while self.inline_stack.iter().any(|inline| inline.is_open()) {
             self.handle_dangling_spans();
         }
+        self.in_inline_span = false;
 
         if let Some(header) = &mut self.document_header {
             while !self.inline_stack.is_empty() {
-- 
2.43.0


From 25c6ce5b6304166bc09368c8005f9aa95d51fcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:45:41 +0000
Subject: [PATCH 64/84] fix: keep references inside of nested formatted text

---
 src/parser.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0039628..d1539f9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -992,8 +992,7 @@ impl Parser {
 
     fn parse_hyperlink(&mut self, token: Token) -> Result<(), ParserError> {
         self.add_dangling_newline();
-        self.inline_stack
-            .push_back(Inline::InlineRef(InlineRef::new_link_from_token(token)));
+        self.push_complete_inline(Inline::InlineRef(InlineRef::new_link_from_token(token)));
         // the link is complete: text that follows is not a part of it
         self.close_parent_after_push = true;
         Ok(())
@@ -1020,12 +1019,11 @@ impl Parser {
         let (target, metadata) = target_and_attrs_from_token(&token);
         let _ = self.check_target(token.line, &target);
         self.add_dangling_newline();
-        self.inline_stack
-            .push_back(Inline::InlineRef(InlineRef::new_inline_image(
-                target,
-                metadata,
-                token.locations(),
-            )));
+        self.push_complete_inline(Inline::InlineRef(InlineRef::new_inline_image(
+            target,
+            metadata,
+            token.locations(),
+        )));
         self.close_parent_after_push = true;
         Ok(())
     }
@@ -1098,8 +1096,7 @@ impl Parser {
 
     fn parse_cross_reference(&mut self, token: Token) -> Result<(), ParserError> {
         self.add_dangling_newline();
-        self.inline_stack
-            .push_back(Inline::InlineRef(InlineRef::new_xref_from_token(token)));
+        self.push_complete_inline(Inline::InlineRef(InlineRef::new_xref_from_token(token)));
         self.close_parent_after_push = true;
         Ok(())
     }
@@ -1363,6 +1360,14 @@ impl Parser {
         Ok(())
     }
 
+    /// Adds an inline that takes nothing of what follows it, inside of the span that is open
+    fn push_complete_inline(&mut self, inline: Inline) {
+        match self.inline_stack.back_mut() {
+            Some(Inline::InlineSpan(span)) if span.open => span.add_inline(inline),
+            _ => self.inline_stack.push_back(inline),
+        }
+    }
+
     /// Keeps the line end between a line of text and a reference or macro that starts the next line
     fn add_dangling_newline(&mut self) {
         if let Some(newline_token) = self.dangling_newline.take() {
-- 
2.43.0


From b1c53898dc6103bf922385bdf8469dee55037aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:23 +0000
Subject: [PATCH 65/84] fix: keep a paragraph attached to a description apart
 from it

---
 src/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d1539f9..2a22ea6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -675,9 +675,6 @@ impl Parser {
     fn parse_description_list_term(&mut self, token: Token) -> Result<(), ParserError> {
         // create the list item
         let mut dlist_item = DListItem::new_from_token(token);
-        // ensure we're not forcing a new block, given that all sorts of things can follow
-        self.force_new_block = false;
-
         // check for splits
         if let Some(newline_idx) = self
             .inline_stack
@@ -688,11 +685,14 @@ impl Parser {
             let mut next_terms: VecDeque<Inline> = self.inline_stack.drain(newline_idx..).collect();
             // remove the newline, since we don't care about that anymore
             next_terms.pop_front();
-            // add the other inlines
+            // add the other inlines, which may be a block attached to the item
+            self.force_new_block = self.in_block_continuation();
             self.add_inlines_to_block_stack()?;
             // then add the next terms back
             self.inline_stack.append(&mut next_terms);
         }
+        // ensure we're not forcing a new block, given that all sorts of things can follow
+        self.force_new_block = false;
         // collect the inlines
         while !self.inline_stack.is_empty() {
             let inline = self.inline_stack.pop_front().unwrap();
-- 
2.43.0


From b8ed0e4fcd2b520f1c2c3696cec445d9871791fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:20 +0000
Subject: [PATCH 66/84] fix: know the next description list term after a block
 with empty lines

---
 src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 2a22ea6..af8cfe5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1295,6 +1295,11 @@ impl Parser {
     /// into it
     fn close_delimited_block(&mut self, asg: &mut Asg) -> Result<(), ParserError> {
         self.force_new_block = true;
+        // empty lines inside of the block don't end the list it is in
+        self.preserve_newline_text = self
+            .block_stack
+            .iter()
+            .any(|block| block.is_definition_list_item());
         if !self.open_delimited_block_lines.is_empty() {
             return self.close_admonition_paragraph();
         }
-- 
2.43.0


From 7a873dda919c2e9516982e512e8ed491ac7d218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:16 +0000
Subject: [PATCH 67/84] fix: take attribute names with underscores for
 references

---
 src/scanner/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 907c217..54991c5 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -394,7 +394,8 @@ impl<'a> Scanner<'a> {
             }
             '{' => {
                 if self.starts_attribute_reference() {
-                    while (self.peek().is_alphanumeric() || self.peek() == '-') && !self.is_at_end()
+                    while (self.peek().is_alphanumeric() || ['-', '_'].contains(&self.peek()))
+                        && !self.is_at_end()
                     {
                         self.current += 1
                     }
@@ -741,7 +742,7 @@ impl<'a> Scanner<'a> {
     /// * only contain word characters and hyphens.
     fn starts_attribute_reference(&mut self) -> bool {
         let current_placeholder = self.current;
-        while (self.peek().is_alphanumeric() || self.peek() == '-') && !self.is_at_end() {
+        while (self.peek().is_alphanumeric() || ['-', '_'].contains(&self.peek())) && !self.is_at_end() {
             self.current += 1
         }
         let check = self.peek() == '}';
-- 
2.43.0


From 3d876db146bf800e35f3c8c6a0911bd0df5a7d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:28:57 +0000
Subject: [PATCH 68/84] fix: replace references and quotes that start the text
 of a link

---
 src/graph/inlines.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index 6233f59..8f5447f 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -650,7 +650,10 @@ impl InlineRef {
     }
 
     fn text_from_token(&mut self, token: Token, pass: bool) {
-        let inline_literal = Inline::InlineLiteral(InlineLiteral::new_text_from_token_pass(&token));
+        let inline_literal = Inline::InlineLiteral(match pass {
+            true => InlineLiteral::new_text_from_token_pass(&token),
+            false => InlineLiteral::new_text_from_token(&token),
+        });
         if let Some(last_inline) = self.inlines.last_mut() {
             match last_inline {
                 Inline::InlineSpan(span) => span.add_inline(inline_literal),
-- 
2.43.0


From 90a2f23097d619cb3603c18afee69d2679e94619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:22 +0000
Subject: [PATCH 69/84] fix: attach admonitions to the list item they continue

---
 src/parser.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index af8cfe5..7c032c9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -489,6 +489,8 @@ impl Parser {
                 // clear out any inlines
                 self.in_inline_span = false;
                 self.add_inlines_to_block_stack()?;
+                // an admonition in a list item may just have ended, and so does the item
+                self.close_list_items(0)?;
                 // and then force a new block hereafter
                 self.force_new_block = true;
                 if let Some(last_block) = self.block_stack.pop() {
@@ -898,6 +900,22 @@ impl Parser {
         Ok(())
     }
 
+    /// Puts an admonition that continues a list item into the item, once it has its block
+    fn attach_admonition(&mut self) -> Result<(), ParserError> {
+        if let [.., Block::ListItem(_) | Block::DListItem(_), Block::ParentBlock(parent)] =
+            self.block_stack.as_slice()
+        {
+            if parent.name == ParentBlockName::Admonition {
+                let admonition = self.block_stack.pop().ok_or(ParserError::BlockStack)?;
+                if let Some(list_item) = self.block_stack.last_mut() {
+                    list_item.push_block(admonition)?;
+                }
+                self.close_parent_after_push = false;
+            }
+        }
+        Ok(())
+    }
+
     fn parse_block_continuation(&mut self, _token: Token) -> Result<(), ParserError> {
         // text ahead of the first continuation belongs to the list item itself
         if let Some(Block::ListItem(_) | Block::DListItem(_)) = self.block_stack.last() {
@@ -1353,6 +1371,7 @@ impl Parser {
             };
             last_block.push_block(block)?;
             self.block_continuations.pop();
+            self.attach_admonition()?;
         } else {
             if self.metadata.is_some() {
                 block.add_metadata(self.metadata.as_ref().unwrap().clone())?;
@@ -1586,7 +1605,7 @@ impl Parser {
             };
             last_block.push_block(para_block)?;
             self.block_continuations.pop();
-            return Ok(());
+            return self.attach_admonition();
         }
 
         if let Some(ref block_metadata) = self.metadata {
@@ -1688,6 +1707,12 @@ impl Parser {
         let Some(sibling) = sibling else {
             return Ok(());
         };
+        // an admonition that continues a list item ends with the item
+        if let Some(Block::ParentBlock(_)) = self.block_stack.last() {
+            if self.in_block_continuation() {
+                self.add_inlines_to_block_stack()?;
+            }
+        }
         for block in self.block_stack.iter().skip(sibling) {
             if !matches!(
                 block,
-- 
2.43.0


From 4f852568740f8ab6d76dc3f3d97bce38286fa611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:02 +0000
Subject: [PATCH 70/84] fix: keep quotes, links, references and notes in the
 title of the document

---
 src/parser.rs         |  5 ++++-
 src/scanner/tokens.rs | 24 ++++++++++++++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7c032c9..94b655b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -174,7 +174,10 @@ impl Parser {
 
     fn token_into(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
         // if we are not starting with a document-heading acceptable token, get out
-        if self.document_header.is_some() && !token.can_be_in_document_header() {
+        if self.document_header.is_some()
+            && !token.can_be_in_document_header()
+            && !(self.in_block_line && token.can_be_in_title())
+        {
             self.check_and_move_header(asg)?;
         }
 
diff --git a/src/scanner/tokens.rs b/src/scanner/tokens.rs
index f660deb..c1e6181 100644
--- a/src/scanner/tokens.rs
+++ b/src/scanner/tokens.rs
@@ -150,6 +150,30 @@ impl Token {
         ) || self.is_inline()
     }
 
+    /// Whether the token belongs to the title of the document, if it is on the same line
+    pub fn can_be_in_title(&self) -> bool {
+        self.is_inline()
+            || matches!(
+                self.token_type(),
+                TokenType::Superscript
+                    | TokenType::Subscript
+                    | TokenType::Literal
+                    | TokenType::UnconstrainedLiteral
+                    | TokenType::OpenDoubleQuote
+                    | TokenType::CloseDoubleQuote
+                    | TokenType::OpenSingleQuote
+                    | TokenType::CloseSingleQuote
+                    | TokenType::AttributeReference
+                    | TokenType::CrossReference
+                    | TokenType::FootnoteMacro
+                    | TokenType::LinkMacro
+                    | TokenType::Hyperlink
+                    | TokenType::InlineImageMacro
+                    | TokenType::PassthroughInlineMacro
+                    | TokenType::LineContinuation
+            )
+    }
+
     /// If the token is a TokenType::StartTag or TokenType::EndTag, return the tag value,
     /// otherwise return None
     pub fn tag(&self) -> Option<String> {
-- 
2.43.0


From 94488a732f89eda30a4a7e2e201d747374a598c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:14:23 +0000
Subject: [PATCH 71/84] fix: unclosed marks inside link and note text stay text

A mark that was opened inside the text of a link or a footnote and never
closed became formatted text. It is kept as the mark and what follows.
---
 src/graph/inlines.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index 8f5447f..7acc5a5 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -165,7 +165,7 @@ impl Inline {
 
     pub fn extract_child_inlines(&mut self) -> VecDeque<Inline> {
         match &self {
-            Inline::InlineSpan(span) => span.extract_span_inlines(),
+            Inline::InlineSpan(span) => InlineSpan::extract_span_inlines(&span.inlines),
             _ => todo!(),
         }
     }
@@ -250,10 +250,13 @@ impl Inline {
         match self {
             Inline::InlineSpan(span) => {
                 // what is still open inside of the span is not going to be closed
-                span.inlines = span.extract_span_inlines().into();
+                span.inlines = InlineSpan::extract_span_inlines(&span.inlines).into();
                 span.open = false
             }
-            Inline::InlineRef(iref) => iref.open = false,
+            Inline::InlineRef(iref) => {
+                iref.inlines = InlineSpan::extract_span_inlines(&iref.inlines).into();
+                iref.open = false
+            }
             _ => panic!("Invalid action: this inline does not take metadata"),
         }
     }
@@ -453,9 +456,9 @@ impl InlineSpan {
 
     // extracts the inlines inside the span, closing any open (dangling) spans that may be
     // inside of it
-    fn extract_span_inlines(&self) -> VecDeque<Inline> {
+    fn extract_span_inlines(inlines: &[Inline]) -> VecDeque<Inline> {
         let mut children = VecDeque::new();
-        for inline in self.inlines.iter() {
+        for inline in inlines.iter() {
             // handle any open spans
             if inline.is_open() {
                 let mut working_inline = inline.clone();
-- 
2.43.0


From d1565c6aab7fae816724f4e38a5e32d17cf6c4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:23:44 +0000
Subject: [PATCH 72/84] fix: a mark closes the span opened ahead of a link
 although another mark is open

With a link or a footnote in the span and an unclosed mark behind it, the
closing mark started a span of its own.
---
 src/parser.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 94b655b..3850311 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -948,6 +948,12 @@ impl Parser {
 
     /// Generic parser for inline spans that close themselves
     fn parse_inline_span(&mut self, mut inline: Inline) -> Result<(), ParserError> {
+        // a span that was opened ahead of a reference, a macro, or a line break
+        let opened_before = self
+            .inline_stack
+            .iter()
+            .rposition(|other| other.is_open_macro() || (other.is_open() && *other == inline))
+            .filter(|idx| !self.inline_stack[*idx].is_open_macro());
         // a span that is closed already takes no further marks
         if let Some(last_inline) = self.inline_stack.back_mut().filter(|last| last.is_open()) {
             if inline == *last_inline {
@@ -959,21 +965,17 @@ impl Parser {
                 if last_span.close_inner_span(&inline) {
                     return Ok(());
                 }
-                // add any metadata to new inline
-                if let Some(metadata) = self.inline_metadata.take() {
-                    inline.add_metadata(metadata);
+                if opened_before.is_none() {
+                    // add any metadata to new inline
+                    if let Some(metadata) = self.inline_metadata.take() {
+                        inline.add_metadata(metadata);
+                    }
+                    last_span.add_inline(inline);
+                    return Ok(());
                 }
-                last_span.add_inline(inline);
-                return Ok(());
             }
         }
-        // a span that was opened ahead of a reference, a macro, or a line break
-        if let Some(open_span_idx) = self
-            .inline_stack
-            .iter()
-            .rposition(|other| other.is_open_macro() || (other.is_open() && *other == inline))
-            .filter(|idx| !self.inline_stack[*idx].is_open_macro())
-        {
+        if let Some(open_span_idx) = opened_before {
             if let Some(newline_token) = self.dangling_newline.take() {
                 self.add_text_to_last_inline(newline_token);
             }
-- 
2.43.0


From 13cb7687885bb433650996762ef52f678d0f8752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:32:17 +0000
Subject: [PATCH 73/84] fix: keep an unclosed mark out of the closed span ahead
 of it

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 3850311..37ab1ef 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1553,6 +1553,8 @@ impl Parser {
                     endcol,
                     file_stack: self.file_stack.clone(),
                 };
+                // the span that this mark would have opened is not there anymore
+                self.in_inline_span = false;
                 self.add_text_to_last_inline(reconstituted_token)
             }
         }
-- 
2.43.0


From 7b92c2f61e5e36549bda9c9c608b21665cc982a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:32:17 +0000
Subject: [PATCH 74/84] fix: keep unclosed marks of block titles and
 description list terms as text

---
 src/parser.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 37ab1ef..abeaa8b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -453,6 +453,9 @@ impl Parser {
         // newline exits a title, TK line continuation
         let in_block_line = std::mem::replace(&mut self.in_block_line, false);
 
+        if in_block_line && self.block_title.is_some() {
+            self.close_dangling_spans();
+        }
         // if this is the end of a block title, add the inline stack to the title
         if let Some(ref mut title_stack) = self.block_title {
             if in_block_line && title_stack.is_empty() {
@@ -699,6 +702,7 @@ impl Parser {
         // ensure we're not forcing a new block, given that all sorts of things can follow
         self.force_new_block = false;
         // collect the inlines
+        self.close_dangling_spans();
         while !self.inline_stack.is_empty() {
             let inline = self.inline_stack.pop_front().unwrap();
             dlist_item.push_term(inline);
@@ -1560,6 +1564,14 @@ impl Parser {
         }
     }
 
+    /// Turns the marks that nothing has closed back into text
+    fn close_dangling_spans(&mut self) {
+        while self.inline_stack.iter().any(|inline| inline.is_open()) {
+            self.handle_dangling_spans();
+        }
+        self.in_inline_span = false;
+    }
+
     fn add_inlines_to_block_stack(&mut self) -> Result<(), ParserError> {
         // guard
         if self.inline_stack.is_empty() {
@@ -1567,10 +1579,7 @@ impl Parser {
         }
 
         // dangling inlines
-        while self.inline_stack.iter().any(|inline| inline.is_open()) {
-            self.handle_dangling_spans();
-        }
-        self.in_inline_span = false;
+        self.close_dangling_spans();
 
         if let Some(header) = &mut self.document_header {
             while !self.inline_stack.is_empty() {
-- 
2.43.0


From fe9d83ee99f4dbd893d6bd1931a15a58493e0e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:32:17 +0000
Subject: [PATCH 75/84] fix: keep the line end ahead of a nested span outside
 of it

---
 src/parser.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index abeaa8b..af86fed 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -952,6 +952,8 @@ impl Parser {
 
     /// Generic parser for inline spans that close themselves
     fn parse_inline_span(&mut self, mut inline: Inline) -> Result<(), ParserError> {
+        // handle newline tokens prior to spans
+        self.add_dangling_newline();
         // a span that was opened ahead of a reference, a macro, or a line break
         let opened_before = self
             .inline_stack
@@ -980,9 +982,6 @@ impl Parser {
             }
         }
         if let Some(open_span_idx) = opened_before {
-            if let Some(newline_token) = self.dangling_newline.take() {
-                self.add_text_to_last_inline(newline_token);
-            }
             let children = self.inline_stack.split_off(open_span_idx + 1);
             if let Some(Inline::InlineSpan(open_span)) = self.inline_stack.back_mut() {
                 for child in children {
@@ -996,8 +995,6 @@ impl Parser {
             self.in_inline_span = false;
             return Ok(());
         }
-        // handle newline tokens prior to constrained spans
-        self.add_dangling_newline();
         // add any metadata to new inline
         if let Some(metadata) = self.inline_metadata.take() {
             inline.add_metadata(metadata);
-- 
2.43.0


From d8739286e613b921b5afa6ce66548b3f79aa0e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:32:17 +0000
Subject: [PATCH 76/84] fix: keep text after a callout out of it inside of
 formatted text

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index af86fed..7930cb1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1127,6 +1127,8 @@ impl Parser {
 
     fn parse_code_callout(&mut self, token: Token) -> Result<(), ParserError> {
         // TODO handle deleting comment markup, IF we're handling icons
+        // text that follows is not a part of the callout
+        self.in_inline_span = false;
         self.inline_stack
             .push_back(Inline::InlineSpan(InlineSpan::inline_span_from_token(
                 token,
-- 
2.43.0


From 341f108c46e76dfe5af0fee227a70d0cb06610d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:07:43 +0000
Subject: [PATCH 77/84] fix: keep the title of a heading that ends an included
 file

---
 src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 7930cb1..2b61ccf 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -663,6 +663,12 @@ impl Parser {
             }
         }
 
+        // a heading may end with the file
+        if let Some(Block::Section(_)) = self.block_stack.last() {
+            if self.block_title.is_none() {
+                self.in_block_line = false;
+            }
+        }
         // clean up inlines
         self.add_inlines_to_block_stack()?;
 
-- 
2.43.0


From 1b59169dd0eb08df91f7a74210a1e6c36e491388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:07:43 +0000
Subject: [PATCH 78/84] fix: keep included blocks inside of the delimited block
 the include is in

---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2b61ccf..d5e22fe 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -672,8 +672,11 @@ impl Parser {
         // clean up inlines
         self.add_inlines_to_block_stack()?;
 
-        // get the blocks stack back to where it was
-        while self.block_stack.len() > current_block_stack_len {
+        // get the blocks stack back to where it was; inside of a delimited block, the blocks stay
+        // there until it is closed
+        while self.open_delimited_block_lines.is_empty()
+            && self.block_stack.len() > current_block_stack_len
+        {
             self.add_last_block_to_graph(asg)?
         }
         // ...then pop the file off the stack
-- 
2.43.0


From 5661dfe87a5a8942f57ba2843c49fe1a82e964e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:07:43 +0000
Subject: [PATCH 79/84] fix: take included code as it is written, without
 replacing characters

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index d5e22fe..1ca58e5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -656,7 +656,7 @@ impl Parser {
                         } else {
                             self.last_token_type = TokenType::Text;
                         }
-                        self.parse_text(token)?;
+                        self.pass_text_through(token)?;
                     }
                 }
                 Err(e) => return Err(ParserError::Scanner(e)),
-- 
2.43.0


From e839461e7a0b87966c742dde59b117c9cf9918d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:07:43 +0000
Subject: [PATCH 80/84] fix: do not make a quote of an included paragraph by
 its line number

---
 src/parser.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1ca58e5..293eda1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1634,10 +1634,8 @@ impl Parser {
 
         if let Some(ref block_metadata) = self.metadata {
             // check to see if we need to apply metadata to the para block
-            let line_above = para_block.locations().first().unwrap().line + 1;
-            if self.open_delimited_block_lines.last() == Some(&line_above)
-                || self.open_delimited_block_lines.is_empty()
-                    && block_metadata.declared_type == Some(AttributeType::Quote)
+            if self.open_delimited_block_lines.is_empty()
+                && block_metadata.declared_type == Some(AttributeType::Quote)
             {
                 let mut quote_block = Block::ParentBlock(ParentBlock::new(
                     crate::graph::blocks::ParentBlockName::Quote,
-- 
2.43.0


From 599b16668253cdfa2c4e8e1ba12604fc0273056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:07:43 +0000
Subject: [PATCH 81/84] fix: tell delimited blocks of an included file from
 those around it

---
 src/parser.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 293eda1..834dde5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -53,7 +53,7 @@ pub struct Parser {
     inline_metadata: Option<ElementMetadata>,
     /// counts in/out delimited blocks by line reference; allows us to warn/error if they are
     /// unclosed at the end of the document
-    open_delimited_block_lines: Vec<usize>,
+    open_delimited_block_lines: Vec<Location>,
     /// appends text to block or inline regardless of markup, token, etc. (will need to change
     /// if/when we handle code callouts)
     open_parse_after_as_text_type: Option<TokenType>,
@@ -900,11 +900,11 @@ impl Parser {
     /// delimited block) of an admonition into it
     fn close_admonition_paragraph(&mut self) -> Result<(), ParserError> {
         if let [.., Block::ParentBlock(parent), last_block] = self.block_stack.as_slice() {
-            let open_line = self.open_delimited_block_lines.last().copied();
+            let open_line = self.open_delimited_block_lines.last();
             if parent.name == ParentBlockName::Admonition
                 && parent.blocks.is_empty()
                 && (matches!(last_block, Block::LeafBlock(_))
-                    || matches!(last_block, Block::ParentBlock(last) if last.opening_line().ok() != open_line))
+                    || matches!(last_block, Block::ParentBlock(last) if last.location.first() != open_line))
             {
                 let paragraph = self.block_stack.pop().ok_or(ParserError::BlockStack)?;
                 if let Some(admonition) = self.block_stack.last_mut() {
@@ -1264,7 +1264,7 @@ impl Parser {
     }
 
     fn parse_delimited_parent_block(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
-        let delimiter_line = token.first_location().line;
+        let delimiter = token.first_location();
         let mut block = ParentBlock::new_from_token(token)?;
         // clear the dangling newline
         self.dangling_newline = None;
@@ -1275,10 +1275,10 @@ impl Parser {
         }
 
         // check for the innermost parent that is still open, in reverse
-        let open_line = self.open_delimited_block_lines.last().copied();
+        let open_line = self.open_delimited_block_lines.last();
         if let Some(parent_block_idx) = self.block_stack.iter().rposition(|parent_block| {
             matches!(parent_block, Block::ParentBlock(open)
-                if open_line.is_some() && open.opening_line().ok() == open_line && *open == block)
+                if open_line.is_some() && open.location.first() == open_line && *open == block)
         }) {
             // close any dangling inlines BEFORE opening the delimited block lines
             self.add_inlines_to_block_stack()?;
@@ -1286,15 +1286,15 @@ impl Parser {
             self.close_list_items(parent_block_idx + 1)?;
             let matched_block = self.block_stack.remove(parent_block_idx);
             let Block::ParentBlock(mut matched) = matched_block else {
-                return Err(ParserError::ParentBlock(delimiter_line));
+                return Err(ParserError::ParentBlock(delimiter.line));
             };
             if matched == block {
                 // remove the open delimiter line from the count and confirm we're nested properly
                 let Some(line) = self.open_delimited_block_lines.pop() else {
                     return Err(ParserError::DelimitedBlock);
                 };
-                if line != matched.opening_line()? {
-                    warn!("Error nesting delimited blocks, see line {}", line)
+                if line.line != matched.opening_line()? {
+                    warn!("Error nesting delimited blocks, see line {}", line.line)
                 }
                 // update the final location
                 matched.location = Location::reconcile(matched.location.clone(), block.location);
@@ -1322,7 +1322,7 @@ impl Parser {
         }
         self.close_paragraph(asg)?;
         // note the open block line
-        self.open_delimited_block_lines.push(delimiter_line);
+        self.open_delimited_block_lines.push(delimiter);
         self.push_block_to_stack(Block::ParentBlock(block))
     }
 
@@ -1751,11 +1751,11 @@ impl Parser {
         asg: &mut Asg,
         mut block: Block,
     ) -> Result<(), ParserError> {
-        let open_line = self.open_delimited_block_lines.last().copied();
+        let open_line = self.open_delimited_block_lines.last();
         if let Some(last_block) = self.block_stack.last_mut() {
             // a block that is complete stays as it is
             let complete = matches!(last_block, Block::ParentBlock(parent)
-                if open_line.is_some() && parent.opening_line().ok() != open_line);
+                if open_line.is_some() && parent.location.first() != open_line);
             if !complete && last_block.takes_block_of_type(&block) {
                 last_block.push_block(block)?;
                 return Ok(());
-- 
2.43.0


From 5911c39b64c73db9ffed94bc8e5ff1171b1352b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:32:42 +0000
Subject: [PATCH 82/84] fix: do not give tables of a titled document an empty
 head

---
 templates/htmlbook/tables.html.tera | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templates/htmlbook/tables.html.tera b/templates/htmlbook/tables.html.tera
index f6a6354..c9f79fe 100644
--- a/templates/htmlbook/tables.html.tera
+++ b/templates/htmlbook/tables.html.tera
@@ -3,6 +3,8 @@
 {#- Collect Cells into rows; should be save to assume that all tables have a cols attr -#}
 {% set cols = block.metadata.attributes.cols | int %}
 {%- set body_start = 0 -%}
+{#- not that of the document -#}
+{%- set header = false -%}
 {%- if "header" in block.metadata.options -%}
 {%- set header = true -%}
 {%- set body_start = cols -%}
-- 
2.43.0


From d75652cdb688553c560ced2b4c9c919b41583542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:32:42 +0000
Subject: [PATCH 83/84] fix: escape the code of listings and literal blocks in
 HTML

---
 templates/htmlbook/leafblocks.html.tera | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/templates/htmlbook/leafblocks.html.tera b/templates/htmlbook/leafblocks.html.tera
index 484293f..8903934 100644
--- a/templates/htmlbook/leafblocks.html.tera
+++ b/templates/htmlbook/leafblocks.html.tera
@@ -30,7 +30,11 @@
 {%- if data_type %} data-type="{{ data_type }}"{%- endif -%}>{%- endif -%}
     {% if block.inlines %}
     {%- for inline in block.inlines -%}
+    {%- if block.name in ["listing", "literal"] and inline.name == "text" -%}
+    {{- inline.value | replace(from="&", to="&amp;") | replace(from="<", to="&lt;") | replace(from=">", to="&gt;") -}}
+    {%- else -%}
     {{- inline_macros::process_inline(inline=inline) -}}
+    {%- endif -%}
     {%- endfor -%}
     {%- endif -%}
 {%- if tag -%}</{{tag}}>{%- endif -%}
-- 
2.43.0


From 016dd4fd9b0c1dbefa3891056d2fc255924dfab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:32:42 +0000
Subject: [PATCH 84/84] fix: write the ids of blocks and the roles of tables in
 HTML

---
 templates/htmlbook/block.html.tera      | 6 +++---
 templates/htmlbook/leafblocks.html.tera | 3 +++
 templates/htmlbook/tables.html.tera     | 5 ++++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/templates/htmlbook/block.html.tera b/templates/htmlbook/block.html.tera
index d70f7f7..34cb38f 100644
--- a/templates/htmlbook/block.html.tera
+++ b/templates/htmlbook/block.html.tera
@@ -63,15 +63,15 @@ this should work.
         {%- if block.metadata.attributes.positional_1 -%}
         {%- set alt_text = block.metadata.attributes.positional_1 -%}
         {%- endif -%}
-        {%- if block.metadata.attributes.id -%}
-        {%- set id = block.metadata.attributes.id -%}
-        {%- endif -%}
     {% elif block.name == "sidebar" -%}
         {%- set tag = "aside" -%}
         {%- set data_type = "sidebar" -%}
     {% else %}
     {%- set tag = "UNHANDLED" -%}
     {%- endif %}
+    {%- if block.metadata.attributes.id -%}
+    {%- set id = block.metadata.attributes.id -%}
+    {%- endif -%}
         {%- if tag and not skip_tag -%}<{{tag}}
     {%- if block.metadata.roles and not block.name=="section" %} class="{{ block.metadata.roles | join(sep=" ")}}" {%- endif -%}
     {%- if code_language %} data-code-language="{{ code_language }}" {%- endif -%}
diff --git a/templates/htmlbook/leafblocks.html.tera b/templates/htmlbook/leafblocks.html.tera
index 8903934..6798e5c 100644
--- a/templates/htmlbook/leafblocks.html.tera
+++ b/templates/htmlbook/leafblocks.html.tera
@@ -23,6 +23,9 @@
         {%- set tag = "pre" -%}
     {% elif block.name == "pass" -%}
     {%- endif -%}
+    {%- if block.metadata.attributes.id -%}
+    {%- set id = block.metadata.attributes.id -%}
+    {%- endif -%}
 {%- if tag -%}<{{tag}}
 {%- if block.metadata.roles %} class="{{ block.metadata.roles | join(sep=" ")}}" {%- endif -%}
 {%- if code_language %} data-code-language="{{ code_language }}" {%- endif -%}
diff --git a/templates/htmlbook/tables.html.tera b/templates/htmlbook/tables.html.tera
index c9f79fe..bd55e32 100644
--- a/templates/htmlbook/tables.html.tera
+++ b/templates/htmlbook/tables.html.tera
@@ -9,7 +9,10 @@
 {%- set header = true -%}
 {%- set body_start = cols -%}
 {%- endif -%}
-    <table>{% if header %}
+    <table
+    {%- if block.metadata.roles %} class="{{ block.metadata.roles | join(sep=" ")}}" {%- endif -%}
+    {%- if block.metadata.attributes.id %} id="{{ block.metadata.attributes.id }}" {%- endif -%}
+    >{% if header %}
     <thead>
         {% for idx in range(start=0, end=body_start) -%}
             {%- set cell = block.blocks | nth(n=idx) -%}
-- 
2.43.0

