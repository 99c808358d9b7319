From 075c9a2f80cc4dd94aa50d239561911ae9af16da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 01/31] fix: lex invalid characters and unterminated byte
 strings as error tokens

The lexer hit todo!() on them and brought the server down.
---
 crates/parser/src/lexer.rs | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index cee1c4c..4c877cb 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -204,19 +204,8 @@ pub fn find_token(text: &str) -> (SyntaxKind, usize) {
                 let line = &text.lines().next().unwrap()[2..];
                 match get_string_len(line) {
                     Some(last_quote) => (BYTE_STRING, 2 + last_quote + 1),
-                    None => {
-                        todo!()
-                        // let loc = make_loc(file, start_offset, start_offset + line.len() + 2);
-                        // return todo!()
-                        // return Err(diag!(
-                        //     if is_hex {
-                        //         Syntax::InvalidHexString
-                        //     } else {
-                        //         Syntax::InvalidByteString
-                        //     },
-                        //     (loc, "Missing closing quote (\") after byte string")
-                        // ));
-                    }
+                    // Missing closing quote: everything up to the end of the line is an error.
+                    None => (ERROR, 2 + line.len()),
                 }
             } else {
                 let len = get_name_len(text);
@@ -306,15 +295,8 @@ pub fn find_token(text: &str) -> (SyntaxKind, usize) {
         '}' => (R_BRACE, 1),
         '#' => (NUMSIGN, 1),
         '@' => (ATSIGN, 1),
-        _ => {
-            todo!()
-            // let loc = make_loc(file, start_offset, start_offset);
-            // return todo!()
-            // return Err(diag!(
-            //     Syntax::InvalidCharacter,
-            //     (loc, format!("Invalid character: '{}'", c))
-            // ));
-        }
+        // Invalid character
+        _ => (ERROR, c.len_utf8()),
     };
 
     (tok, len)
-- 
2.43.0


From 1e4a96a29ff1e65f2ca3e618cce03a20c6a6548d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 02/31] fix: measure byte strings in bytes

The length was counted in characters, so a non-ASCII byte string ended early
or inside a character (a slicing panic).
---
 crates/parser/src/lexer.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index 4c877cb..3f3b50e 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -344,18 +344,14 @@ fn get_number_maybe_with_suffix(text: &str, num_text_len: usize) -> (SyntaxKind,
 
 // Return the length of the quoted string, or None if there is no closing quote.
 fn get_string_len(text: &str) -> Option<usize> {
-    let mut pos = 0;
-    let mut iter = text.chars();
-    while let Some(chr) = iter.next() {
+    let mut iter = text.char_indices();
+    while let Some((pos, chr)) = iter.next() {
         if chr == '\\' {
             // Skip over the escaped character (e.g., a quote or another backslash)
-            if iter.next().is_some() {
-                pos += 1;
-            }
+            iter.next();
         } else if chr == '"' {
             return Some(pos);
         }
-        pos += 1;
     }
     None
 }
-- 
2.43.0


From 839376db996e744e5c86cf6dfb0a61302791931c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 03/31] fix: do not lex the start of an identifier after `&` as
 `&mut`

---
 crates/parser/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index 3f3b50e..7fd5b10 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -214,7 +214,7 @@ pub fn find_token(text: &str) -> (SyntaxKind, usize) {
             }
         }
         '&' => {
-            if text.starts_with("&mut") {
+            if text.starts_with("&mut") && get_name_len(&text[1..]) == 3 {
                 (AMP_MUT, 4)
             } else if text.starts_with("&&") {
                 (AMP_AMP, 2)
-- 
2.43.0


From e47760bb9b569247f0677ba561040f260998515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 04/31] fix: skip trivia without recursion

A few thousand consecutive comments overflowed the stack.
---
 crates/parser/src/lexer.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index 7fd5b10..ed0e074 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -115,20 +115,15 @@ impl<'t> Lexer<'t> {
 
     pub fn bump(&mut self) {
         self.prev_end = self.cur_end;
-        let text = &self.text[self.cur_end..];
-        // let text = self.text[self.cur_end..].trim_start();
-        self.cur_start = self.text.len() - text.len();
-        let (kind, len) = find_token(text);
-        if kind.is_trivia() {
+        loop {
+            let text = &self.text[self.cur_end..];
+            self.cur_start = self.cur_end;
+            let (kind, len) = find_token(text);
             self.advance_with_token(kind, len);
-            self.bump();
-            return;
+            if !kind.is_trivia() {
+                break;
+            }
         }
-        self.advance_with_token(kind, len);
-        // self.cur_end = self.cur_start + len;
-        // let token = Token::new(kind, len);
-        // self.all_tokens.push(token.clone());
-        // self.token = token
     }
 
     fn advance_with_token(&mut self, kind: SyntaxKind, len: usize) {
-- 
2.43.0


From 44d6cfb1ce386cf7eddfc9429a4e19ecb722bcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 05/31] fix: skip comments when looking ahead

A comment between two tokens changed how they were parsed, e.g.
`module 0x1 /**/ :: M`-style line comments before `::`, `:` or `{`.
---
 crates/parser/src/lexer.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index ed0e074..befa2d1 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -92,25 +92,26 @@ impl<'t> Lexer<'t> {
     // Look ahead to the next token after the current one and return it without advancing
     // the state of the lexer.
     pub fn lookahead(&self) -> Token {
-        let text = self.text[self.cur_end..].trim_start();
-        // let offset = self.text.len() - text.len();
-        let (tok, len) = find_token(text);
-        Token::new(tok, len)
+        self.next_token_after(self.cur_end).0
     }
 
     // Look ahead to the next two tokens after the current one and return them without advancing
     // the state of the lexer.
     pub fn lookahead_2(&self) -> (Token, Token) {
-        let text = &self.text[self.cur_end..];
-        // let text = self.text[self.cur_end..].trim_start();
-        let offset = self.text.len() - text.len();
-        let (first, length) = find_token(text);
+        let (first, first_end) = self.next_token_after(self.cur_end);
+        let (second, _) = self.next_token_after(first_end);
+        (first, second)
+    }
 
-        let text2 = &self.text[offset + length..];
-        // let text2 = self.text[offset + length..].trim_start();
-        // let offset2 = self.text.len() - text2.len();
-        let (second, sec_length) = find_token(text2);
-        (Token::new(first, length), Token::new(second, sec_length))
+    // The first non-trivia token at or after `pos`, and where it ends.
+    fn next_token_after(&self, mut pos: usize) -> (Token, usize) {
+        loop {
+            let (kind, len) = find_token(&self.text[pos..]);
+            pos += len;
+            if !kind.is_trivia() {
+                return (Token::new(kind, len), pos);
+            }
+        }
     }
 
     pub fn bump(&mut self) {
-- 
2.43.0


From aa0af18835fa06c25001323cb7c082de73314569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 06/31] fix: parse `a::b{}` like `a::b {}`

`::` is a single token here, so the token after it is nth(1).
---
 crates/parser/src/grammar/paths.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/grammar/paths.rs b/crates/parser/src/grammar/paths.rs
index 502ae23..46e8321 100644
--- a/crates/parser/src/grammar/paths.rs
+++ b/crates/parser/src/grammar/paths.rs
@@ -31,7 +31,7 @@ fn path(p: &mut Parser, mode: Mode) {
 
 fn path_for_qualifier(p: &mut Parser, mode: Mode, mut qual: CompletedMarker) {
     loop {
-        let use_tree = matches!(p.nth(2), T![*] | T!['{']);
+        let use_tree = matches!(p.nth(1), T![*] | T!['{']);
         if p.at(T![::]) && !use_tree {
             let path = qual.precede(p);
             p.bump(T![::]);
-- 
2.43.0


From c130cee006907df7ca8e28f25a521f64359af1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 07/31] fix: reset the parser's step limit whenever it advances

Otherwise any file that needs more than 10000 lookups panics.
---
 crates/parser/src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/parser/src/parser.rs b/crates/parser/src/parser.rs
index 3c2e1ba..4337a9c 100644
--- a/crates/parser/src/parser.rs
+++ b/crates/parser/src/parser.rs
@@ -261,6 +261,8 @@ impl<'t> Parser<'t> {
     }
 
     pub(crate) fn do_bump(&mut self, kind: SyntaxKind, n_raw_tokens: u8) {
+        // the parser advances, so it is not stuck
+        self.steps.set(0);
         for _ in 0..n_raw_tokens {
             self.lexer.bump();
         }
-- 
2.43.0


From 0b6b553f1fa2811c9989e2e4251f03692bf90732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 08/31] fix: skip unexpected top-level tokens

The parser did not advance over them and panicked as stuck.
---
 crates/parser/src/grammar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/parser/src/grammar.rs b/crates/parser/src/grammar.rs
index 9cbdd23..ff76fc7 100644
--- a/crates/parser/src/grammar.rs
+++ b/crates/parser/src/grammar.rs
@@ -7,7 +7,7 @@ mod generic_params;
 mod patterns;
 
 use crate::grammar::expressions::{stmt, StmtWithSemi};
-use crate::grammar::items::{address, item, module, script};
+use crate::grammar::items::{address, item, module, script, TOP_LEVEL_ITEM_RECOVERY_SET};
 use crate::marker::CompletedMarker;
 use crate::parser::Parser;
 use crate::SyntaxKind::{self, *};
@@ -72,7 +72,7 @@ pub(crate) fn root(p: &mut Parser) {
         } else if p.current().is_trivia() {
             p.bump_any()
         } else {
-            p.error("expected module or script");
+            p.error_and_skip_until("expected module or script", TOP_LEVEL_ITEM_RECOVERY_SET);
         }
     }
     m.complete(p, SOURCE_FILE);
-- 
2.43.0


From 30c0c706558bcff73e9a85e1a41fc3ba4150a4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 09/31] fix: recover from anything but a module in an address
 block

It tripped the assertion in module().
---
 crates/parser/src/grammar/items.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/grammar/items.rs b/crates/parser/src/grammar/items.rs
index 115059f..9d389bd 100644
--- a/crates/parser/src/grammar/items.rs
+++ b/crates/parser/src/grammar/items.rs
@@ -85,7 +85,11 @@ pub(crate) fn address_item_list(p: &mut Parser) {
     p.bump(T!['{']);
 
     while !(p.at(T!['}']) || p.at(EOF)) {
-        module(p);
+        if p.at(T![module]) {
+            module(p);
+        } else {
+            p.error_and_skip_until("expected module", TokenSet::new(&[T![module], T!['}']]));
+        }
     }
     p.expect(T!['}']);
     m.complete(p, ADDRESS_ITEM_LIST);
-- 
2.43.0


From cc0e07a738b10fc4d71f1dc061517decdd8b50df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 10/31] fix: skip unexpected tokens among module items

Any unsupported item (`use`, `const`, `public`, ...) made the parser panic as
stuck.
---
 crates/parser/src/grammar/items.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/crates/parser/src/grammar/items.rs b/crates/parser/src/grammar/items.rs
index 9d389bd..62278a2 100644
--- a/crates/parser/src/grammar/items.rs
+++ b/crates/parser/src/grammar/items.rs
@@ -3,7 +3,7 @@ mod adt;
 use crate::grammar::expressions::atom::bump_address;
 use crate::grammar::params::param_list;
 use crate::grammar::types::type_;
-use crate::grammar::{block_expr, name, name_r};
+use crate::grammar::{block_expr, error_block, name, name_r};
 use crate::marker::Marker;
 use crate::parser::Parser;
 use crate::SyntaxKind::{self, *};
@@ -121,14 +121,14 @@ pub(crate) fn item(p: &mut Parser) {
         Err(m) => m,
     };
     m.abandon(p);
-    // if p.at(T!['{']) {
-    //     error_block(p, "expected an item");
     // } else if p.at(T!['}']) && !stop_on_r_curly {
     //     let e = p.start();
     //     p.error("unmatched `}`");
     //     p.bump(T!['}']);
     //     e.complete(p, ERROR);
-    if !p.at(EOF) && !p.at(T!['}']) {
+    if p.at(T!['{']) {
+        error_block(p, "expected an item");
+    } else if !p.at(EOF) && !p.at(T!['}']) {
         p.err_and_bump("expected an item");
     } else {
         p.error("expected an item");
@@ -140,10 +140,7 @@ pub(crate) fn opt_item(p: &mut Parser, m: Marker) -> Result<(), Marker> {
     match p.current() {
         T![fun] => function_def(p, m),
         T![struct] => adt::struct_(p, m),
-        _ => {
-            p.error("expected an item");
-            m.complete(p, ERROR);
-        }
+        _ => return Err(m),
     }
     Ok(())
 }
-- 
2.43.0


From ca05c524387c74a0b3b772f3737ca7d637e45aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 11/31] fix: skip a stray `)` between statements

Expression recovery stops at `)`, so the parser panicked as stuck.
---
 crates/parser/src/grammar.rs             | 4 ++++
 crates/parser/src/grammar/expressions.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/parser/src/grammar.rs b/crates/parser/src/grammar.rs
index ff76fc7..4cc9436 100644
--- a/crates/parser/src/grammar.rs
+++ b/crates/parser/src/grammar.rs
@@ -32,6 +32,10 @@ pub(crate) fn block_expr_unchecked(p: &mut Parser) -> CompletedMarker {
 
 pub(crate) fn block_contents(p: &mut Parser) {
     while !(p.at(T!['}']) || p.at(EOF)) {
+        if p.at(T![')']) {
+            p.err_and_bump("expected statement");
+            continue;
+        }
         stmt(p, StmtWithSemi::Optional);
     }
 }
diff --git a/crates/parser/src/grammar/expressions.rs b/crates/parser/src/grammar/expressions.rs
index 73d4a3c..547c0d8 100644
--- a/crates/parser/src/grammar/expressions.rs
+++ b/crates/parser/src/grammar/expressions.rs
@@ -262,6 +262,10 @@ pub(super) fn expr_block_contents(p: &mut Parser) {
             p.bump(T![;]);
             continue;
         }
+        if p.at(T![')']) {
+            p.err_and_bump("expected statement");
+            continue;
+        }
         stmt(p, StmtWithSemi::Yes)
     }
 }
-- 
2.43.0


From 5128c29aff7566279b3b6c1a4df6ccbc238897f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 12/31] fix: end a parenthesised expression at `;`

Expression recovery stops at `;`, so the parser panicked as stuck.
---
 crates/parser/src/grammar/expressions/atom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/grammar/expressions/atom.rs b/crates/parser/src/grammar/expressions/atom.rs
index 107b8bc..fd33437 100644
--- a/crates/parser/src/grammar/expressions/atom.rs
+++ b/crates/parser/src/grammar/expressions/atom.rs
@@ -146,7 +146,7 @@ fn paren_expr(p: &mut Parser) -> CompletedMarker {
     let m = p.start();
     p.expect(T!['(']);
 
-    while !p.at(EOF) && !p.at(T![')']) {
+    while !p.at(EOF) && !p.at(T![')']) && !p.at(T![;]) {
         // saw_expr = true;
 
         // test tuple_attrs
-- 
2.43.0


From e4315d39c7bc5713ef42aeef218d88c61c05d580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 13/31] fix: skip a block among struct fields

The parser did not advance over `{` and panicked as stuck.
---
 crates/parser/src/grammar/items/adt.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/parser/src/grammar/items/adt.rs b/crates/parser/src/grammar/items/adt.rs
index 9c8bf6c..b5598dd 100644
--- a/crates/parser/src/grammar/items/adt.rs
+++ b/crates/parser/src/grammar/items/adt.rs
@@ -1,5 +1,5 @@
 use super::*;
-use crate::grammar::{generic_params, types};
+use crate::grammar::{error_block, generic_params, types};
 
 pub(crate) fn struct_(p: &mut Parser, m: Marker) {
     p.bump(T![struct]);
@@ -44,10 +44,10 @@ pub(crate) fn record_field_list(p: &mut Parser) {
     let m = p.start();
     p.bump(T!['{']);
     while !p.at(T!['}']) && !p.at(EOF) {
-        // if p.at(T!['{']) {
-        //     error_block(p, "expected field");
-        //     continue;
-        // }
+        if p.at(T!['{']) {
+            error_block(p, "expected field");
+            continue;
+        }
         record_field(p);
         if !p.at(T!['}']) {
             p.expect(T![,]);
-- 
2.43.0


From 90c94b47cd752bd77ad34635cf3d12b2a1cf8620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 14/31] fix: parse two-character binary operators

They are single tokens here, and were rejected as syntax errors.
---
 crates/parser/src/grammar/expressions.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/parser/src/grammar/expressions.rs b/crates/parser/src/grammar/expressions.rs
index 547c0d8..6b50e56 100644
--- a/crates/parser/src/grammar/expressions.rs
+++ b/crates/parser/src/grammar/expressions.rs
@@ -170,19 +170,19 @@ pub(crate) fn stmt(p: &mut Parser, with_semi: StmtWithSemi) {
 fn current_op(p: &Parser) -> (u8, SyntaxKind) {
     const NOT_AN_OP: (u8, SyntaxKind) = (0, T![@]);
     match p.current() {
-        // T![|] if p.at(T![||])  => (3,  T![||]),
+        T![||]                 => (3,  T![||]),
         // T![|] if p.at(T![|=])  => (1,  T![|=]),
         T![|]                  => (6,  T![|]),
         // T![>] if p.at(T![>>=]) => (1,  T![>>=]),
-        // T![>] if p.at(T![>>])  => (9,  T![>>]),
-        // T![>] if p.at(T![>=])  => (5,  T![>=]),
+        T![>>]                 => (9,  T![>>]),
+        T![>=]                 => (5,  T![>=]),
         T![>]                  => (5,  T![>]),
         // T![=] if p.at(T![=>])  => NOT_AN_OP,
-        // T![=] if p.at(T![==])  => (5,  T![==]),
+        T![==]                 => (5,  T![==]),
         T![=]                  => (1,  T![=]),
-        // T![<] if p.at(T![<=])  => (5,  T![<=]),
+        T![<=]                 => (5,  T![<=]),
         // T![<] if p.at(T![<<=]) => (1,  T![<<=]),
-        // T![<] if p.at(T![<<])  => (9,  T![<<]),
+        T![<<]                 => (9,  T![<<]),
         T![<]                  => (5,  T![<]),
         // T![+] if p.at(T![+=])  => (1,  T![+=]),
         T![+]                  => (10, T![+]),
@@ -191,7 +191,7 @@ fn current_op(p: &Parser) -> (u8, SyntaxKind) {
         // T![%] if p.at(T![%=])  => (1,  T![%=]),
         T![%]                  => (11, T![%]),
         // T![&] if p.at(T![&=])  => (1,  T![&=]),
-        // T![&] if p.at(T![&&])  => (4,  T![&&]),
+        T![&&]                 => (4,  T![&&]),
         T![&]                  => (8,  T![&]),
         // T![/] if p.at(T![/=])  => (1,  T![/=]),
         T![/]                  => (11, T![/]),
@@ -199,7 +199,7 @@ fn current_op(p: &Parser) -> (u8, SyntaxKind) {
         T![*]                  => (11, T![*]),
         // T![.] if p.at(T![..=]) => (2,  T![..=]),
         // T![.] if p.at(T![..])  => (2,  T![..]),
-        // T![!] if p.at(T![!=])  => (5,  T![!=]),
+        T![!=]                 => (5,  T![!=]),
         // T![-] if p.at(T![-=])  => (1,  T![-=]),
         T![-]                  => (10, T![-]),
         // T![as]                 => (12, T![as]),
-- 
2.43.0


From 4ce8812ebb2dfa5660965193cd3ac8e980bf7aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 15/31] fix: accept `&mut` reference types

`&mut` is a single token, and was rejected as a syntax error.
---
 crates/parser/src/grammar/types.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/parser/src/grammar/types.rs b/crates/parser/src/grammar/types.rs
index 53b705c..bceb933 100644
--- a/crates/parser/src/grammar/types.rs
+++ b/crates/parser/src/grammar/types.rs
@@ -4,7 +4,7 @@ use crate::parser::Parser;
 use crate::SyntaxKind::{self, *};
 use crate::TokenSet;
 
-pub(super) const TYPE_FIRST: TokenSet = paths::PATH_FIRST.union(TokenSet::new(&[T![&]]));
+pub(super) const TYPE_FIRST: TokenSet = paths::PATH_FIRST.union(TokenSet::new(&[T![&], T![&mut]]));
 
 const TYPE_RECOVERY_SET: TokenSet = TokenSet::new(&[
     T![')'],
@@ -21,7 +21,7 @@ pub(super) fn ascription(p: &mut Parser) {
 pub(crate) fn type_(p: &mut Parser) {
     let allow_bounds = false;
     match p.current() {
-        T![&] => ref_type(p),
+        T![&] | T![&mut] => ref_type(p),
         _ if is_path_start(p) => path_type(p),
         _ => {
             p.err_recover("expected type", TYPE_RECOVERY_SET);
@@ -30,10 +30,12 @@ pub(crate) fn type_(p: &mut Parser) {
 }
 
 pub(crate) fn ref_type(p: &mut Parser) {
-    assert!(p.at(T![&]));
+    assert!(p.at(T![&]) || p.at(T![&mut]));
     let m = p.start();
-    p.bump(T![&]);
-    p.eat(T![mut]);
+    if !p.eat(T![&mut]) {
+        p.bump(T![&]);
+        p.eat(T![mut]);
+    }
     type_(p);
     m.complete(p, REF_TYPE);
 }
-- 
2.43.0


From 57858edcb367886d7d20ea577fdd21c11e2317e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:53 +0000
Subject: [PATCH 16/31] fix: make BinExpr::rhs return the right operand

Both accessors returned the first operand.
---
 crates/generate_ast/src/ast/gen_nodes.rs | 23 +++++++++++++++++++----
 crates/syntax/src/ast/nodes.rs           |  2 +-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/crates/generate_ast/src/ast/gen_nodes.rs b/crates/generate_ast/src/ast/gen_nodes.rs
index 0362bc0..6ead9b5 100644
--- a/crates/generate_ast/src/ast/gen_nodes.rs
+++ b/crates/generate_ast/src/ast/gen_nodes.rs
@@ -13,7 +13,7 @@ pub(crate) fn generate_nodes(kinds: SymbolKindsSrc<'_>, grammar: &GrammarAST) ->
             //     quote!(impl ast::#trait_name for #grammar_name {})
             // });
 
-            let methods = node.fields.iter().map(|field| {
+            let methods = node.fields.iter().enumerate().map(|(i, field)| {
                 let method_name = field.method_name();
                 let field_type = field.ty();
 
@@ -30,9 +30,24 @@ pub(crate) fn generate_nodes(kinds: SymbolKindsSrc<'_>, grammar: &GrammarAST) ->
                         }
                     }
                 } else {
-                    quote! {
-                        pub fn #method_name(&self) -> Option<#field_type> {
-                            support::child(&self.syntax)
+                    // Several children of one type (`lhs:Expr` and `rhs:Expr`) go by position.
+                    let nth = node.fields[..i]
+                        .iter()
+                        .filter(|it| {
+                            it.token_kind().is_none() && !it.is_many() && it.ty() == field_type
+                        })
+                        .count();
+                    if nth == 0 {
+                        quote! {
+                            pub fn #method_name(&self) -> Option<#field_type> {
+                                support::child(&self.syntax)
+                            }
+                        }
+                    } else {
+                        quote! {
+                            pub fn #method_name(&self) -> Option<#field_type> {
+                                support::children(&self.syntax).nth(#nth)
+                            }
                         }
                     }
                 }
diff --git a/crates/syntax/src/ast/nodes.rs b/crates/syntax/src/ast/nodes.rs
index 6777bed..abc7ff8 100644
--- a/crates/syntax/src/ast/nodes.rs
+++ b/crates/syntax/src/ast/nodes.rs
@@ -50,7 +50,7 @@ impl BinExpr {
     pub fn star_token(&self) -> Option<SyntaxToken> { support::token(&self.syntax, T![*]) }
     pub fn slash_token(&self) -> Option<SyntaxToken> { support::token(&self.syntax, T![/]) }
     pub fn mod_token(&self) -> Option<SyntaxToken> { support::token(&self.syntax, T![%]) }
-    pub fn rhs(&self) -> Option<Expr> { support::child(&self.syntax) }
+    pub fn rhs(&self) -> Option<Expr> { support::children(&self.syntax).nth(1usize) }
 }
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub struct Literal {
-- 
2.43.0


From 9c9d0c11177d64a2b1b642c599d46e908738021b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:08 +0000
Subject: [PATCH 17/31] fix: do not let a root capture siblings that share its
 name's prefix

---
 crates/vfs/src/file_set.rs |  4 ++--
 crates/vfs/src/vfs_path.rs | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/crates/vfs/src/file_set.rs b/crates/vfs/src/file_set.rs
index 0011f73..f4b3789 100644
--- a/crates/vfs/src/file_set.rs
+++ b/crates/vfs/src/file_set.rs
@@ -127,7 +127,7 @@ impl FileSetConfig {
     /// `scratch_space` is used as a buffer and will be entirely replaced.
     fn classify(&self, path: &VfsPath, scratch_space: &mut Vec<u8>) -> usize {
         scratch_space.clear();
-        path.encode(scratch_space);
+        path.encode_as_dir(scratch_space);
         let automaton = PrefixOf::new(scratch_space.as_slice());
         let mut longest_prefix = self.len() - 1;
         let mut stream = self.map.search(automaton).into_stream();
@@ -168,7 +168,7 @@ impl FileSetConfigBuilder {
             for (i, paths) in self.roots.into_iter().enumerate() {
                 for p in paths {
                     let mut buf = Vec::new();
-                    p.encode(&mut buf);
+                    p.encode_as_dir(&mut buf);
                     entries.push((buf, i as u64));
                 }
             }
diff --git a/crates/vfs/src/vfs_path.rs b/crates/vfs/src/vfs_path.rs
index ffd6735..2702593 100644
--- a/crates/vfs/src/vfs_path.rs
+++ b/crates/vfs/src/vfs_path.rs
@@ -159,6 +159,26 @@ impl VfsPath {
             VfsPathRepr::VirtualPath(VirtualPath(s)) => buf.extend(s.as_bytes()),
         }
     }
+
+    /// Encode the path as [`VfsPath::encode`] does, but always ending in a
+    /// separator: the encoding of a path is a prefix of the encodings of the path itself and of
+    /// the paths below it, but not of siblings whose names merely start with the same characters.
+    pub(crate) fn encode_as_dir(&self, buf: &mut Vec<u8>) {
+        self.encode(buf);
+        let mut sep = Vec::new();
+        match &self.0 {
+            VfsPathRepr::PathBuf(_) => {
+                #[cfg(windows)]
+                windows_paths::Encode::encode(&windows_paths::SEP, &mut sep);
+                #[cfg(not(windows))]
+                sep.push(b'/');
+            }
+            VfsPathRepr::VirtualPath(_) => sep.push(b'/'),
+        }
+        if !buf.ends_with(&sep) {
+            buf.extend(sep);
+        }
+    }
 }
 
 #[cfg(windows)]
-- 
2.43.0


From 971fdc9ed31bd918145400ae1f57721f89e3b8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 18/31] fix: do not cut a line inside a character when trimming
 indentation

---
 crates/stdx/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/stdx/src/lib.rs b/crates/stdx/src/lib.rs
index 29094be..7b5fd6b 100644
--- a/crates/stdx/src/lib.rs
+++ b/crates/stdx/src/lib.rs
@@ -85,10 +85,12 @@ pub fn trim_indent(mut text: &str) -> String {
     if text.starts_with('\n') {
         text = &text[1..];
     }
+    // Only ASCII whitespace is indentation, so that every line can be cut at `indent`.
+    let trim_start = |it: &str| it.trim_start_matches(|c: char| c.is_ascii_whitespace()).len();
     let indent = text
         .lines()
-        .filter(|it| !it.trim().is_empty())
-        .map(|it| it.len() - it.trim_start().len())
+        .filter(|it| trim_start(it) != 0)
+        .map(|it| it.len() - trim_start(it))
         .min()
         .unwrap_or(0);
     text.split_inclusive('\n')
-- 
2.43.0


From 9976b61ff6bfa0ff79e9031d3844c4ab60950336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 19/31] hook: let a model checker see the steps of database
 queries

---
 crates/ide_db/src/lib.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/crates/ide_db/src/lib.rs b/crates/ide_db/src/lib.rs
index 3a02415..b342a91 100644
--- a/crates/ide_db/src/lib.rs
+++ b/crates/ide_db/src/lib.rs
@@ -34,7 +34,36 @@ impl fmt::Debug for RootDatabase {
     }
 }
 
-impl salsa::Database for RootDatabase {}
+impl salsa::Database for RootDatabase {
+    #[cfg(mls_verif)]
+    fn salsa_event(&self, event: salsa::Event) {
+        verif::event(event)
+    }
+}
+
+/// Lets a model checker see (and delay) the steps of queries.
+#[cfg(mls_verif)]
+pub mod verif {
+    use base_db::salsa;
+    use std::cell::RefCell;
+
+    thread_local! {
+        static ON_EVENT: RefCell<Option<Box<dyn Fn(salsa::Event)>>> = RefCell::new(None);
+    }
+
+    /// Calls `f` for every event of the queries of this thread.
+    pub fn on_event(f: Option<Box<dyn Fn(salsa::Event)>>) {
+        ON_EVENT.with(|it| *it.borrow_mut() = f)
+    }
+
+    pub(crate) fn event(event: salsa::Event) {
+        ON_EVENT.with(|it| {
+            if let Some(f) = &*it.borrow() {
+                f(event)
+            }
+        })
+    }
+}
 
 impl Default for RootDatabase {
     fn default() -> RootDatabase {
-- 
2.43.0


From 109c37e8a22256c7639e4cbb392c09a885505b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:03 +0000
Subject: [PATCH 20/31] fix: publish diagnostics for the files of the default
 source root

---
 crates/move_language_server/src/reload.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/move_language_server/src/reload.rs b/crates/move_language_server/src/reload.rs
index 856c6b7..98dc0ce 100644
--- a/crates/move_language_server/src/reload.rs
+++ b/crates/move_language_server/src/reload.rs
@@ -65,12 +65,20 @@ impl GlobalState {
     }
 }
 
-#[derive(Default, Debug)]
+#[derive(Debug)]
 pub struct SourceRootConfig {
     pub(crate) fsc: FileSetConfig,
     pub(crate) local_filesets: Vec<usize>,
 }
 
+impl Default for SourceRootConfig {
+    fn default() -> Self {
+        // Without configured roots there is a single file set, that of the files the client opens:
+        // it belongs to the workspace, and gets diagnostics published.
+        SourceRootConfig { fsc: FileSetConfig::default(), local_filesets: vec![0] }
+    }
+}
+
 impl SourceRootConfig {
     pub fn partition(&self, vfs: &vfs::Vfs) -> Vec<SourceRoot> {
         self.fsc
-- 
2.43.0


From 6e001a59838c257cef70953a0dba3ab2b0eb8af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:06 +0000
Subject: [PATCH 21/31] fix: do not publish diagnostics computed for outdated
 contents

---
 crates/move_language_server/src/global_state.rs |  4 ++++
 crates/move_language_server/src/main_loop.rs    | 10 +++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/move_language_server/src/global_state.rs b/crates/move_language_server/src/global_state.rs
index c1b62e9..bb6e79b 100644
--- a/crates/move_language_server/src/global_state.rs
+++ b/crates/move_language_server/src/global_state.rs
@@ -46,6 +46,8 @@ pub(crate) struct GlobalState {
     pub(crate) task_pool: Handle<TaskPool<Task>, Receiver<Task>>,
     pub(crate) config: Arc<Config>,
     pub(crate) analysis_host: AnalysisHost,
+    /// Counts the changes applied to `analysis_host`.
+    pub(crate) content_revision: u32,
     pub(crate) diagnostics: DiagnosticCollection,
     pub(crate) mem_docs: MemDocs,
     pub(crate) shutdown_requested: bool,
@@ -85,6 +87,7 @@ impl GlobalState {
             task_pool,
             config: Arc::new(config),
             analysis_host,
+            content_revision: 0,
             diagnostics: Default::default(),
             mem_docs: MemDocs::default(),
             shutdown_requested: false,
@@ -147,6 +150,7 @@ impl GlobalState {
         };
 
         self.analysis_host.apply_change(change);
+        self.content_revision += 1;
         true
     }
 
diff --git a/crates/move_language_server/src/main_loop.rs b/crates/move_language_server/src/main_loop.rs
index e6ae6ba..9534860 100644
--- a/crates/move_language_server/src/main_loop.rs
+++ b/crates/move_language_server/src/main_loop.rs
@@ -77,7 +77,8 @@ impl fmt::Debug for Event {
 #[derive(Debug)]
 pub(crate) enum Task {
     Response(lsp_server::Response),
-    Diagnostics(Vec<(FileId, Vec<lsp_types::Diagnostic>)>),
+    /// Diagnostics of the files as of the given revision of their contents.
+    Diagnostics(u32, Vec<(FileId, Vec<lsp_types::Diagnostic>)>),
 }
 
 impl GlobalState {
@@ -150,7 +151,9 @@ impl GlobalState {
                 loop {
                     match task {
                         Task::Response(response) => self.respond(response),
-                        Task::Diagnostics(diagnostics_per_file) => {
+                        // Diagnostics of older contents are outdated, there is a task for the current ones.
+                        Task::Diagnostics(revision, _) if revision != self.content_revision => (),
+                        Task::Diagnostics(_, diagnostics_per_file) => {
                             for (file_id, diagnostics) in diagnostics_per_file {
                                 self.diagnostics.set_native_diagnostics(file_id, diagnostics)
                             }
@@ -313,6 +316,7 @@ impl GlobalState {
 
         tracing::trace!("updating notifications for {:?}", subscriptions);
 
+        let revision = self.content_revision;
         let snapshot = self.snapshot();
         self.task_pool.handle.spawn(move || {
             let diagnostics = subscriptions
@@ -329,7 +333,7 @@ impl GlobalState {
                         .map(|diags| (file_id, diags))
                 })
                 .collect::<Vec<_>>();
-            Task::Diagnostics(diagnostics)
+            Task::Diagnostics(revision, diagnostics)
         })
     }
 }
-- 
2.43.0


From 0aa923e1ff23b4684cfa93e2fabb0ec1512fdb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:07 +0000
Subject: [PATCH 22/31] fix: report positions in the negotiated encoding

---
 crates/move_language_server/src/global_state.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/move_language_server/src/global_state.rs b/crates/move_language_server/src/global_state.rs
index bb6e79b..b363e08 100644
--- a/crates/move_language_server/src/global_state.rs
+++ b/crates/move_language_server/src/global_state.rs
@@ -7,7 +7,7 @@ use std::{sync::Arc, time::Instant};
 
 use crate::config::Config;
 use crate::diagnostics::DiagnosticCollection;
-use crate::line_index::{LineEndings, LineIndex, OffsetEncoding};
+use crate::line_index::{LineEndings, LineIndex};
 use crate::main_loop::Task;
 use crate::mem_docs::MemDocs;
 use crate::reload::SourceRootConfig;
@@ -68,6 +68,7 @@ pub(crate) struct GlobalStateSnapshot {
     pub(crate) analysis: Analysis,
     mem_docs: MemDocs,
     vfs: Arc<RwLock<(vfs::Vfs, FxHashMap<FileId, LineEndings>)>>,
+    config: Arc<Config>,
 }
 
 impl std::panic::UnwindSafe for GlobalStateSnapshot {}
@@ -159,6 +160,7 @@ impl GlobalState {
             analysis: self.analysis_host.analysis(),
             vfs: Arc::clone(&self.vfs),
             mem_docs: self.mem_docs.clone(),
+            config: Arc::clone(&self.config),
         }
     }
 
@@ -226,7 +228,7 @@ impl GlobalStateSnapshot {
     pub(crate) fn file_line_index(&self, file_id: FileId) -> Cancellable<LineIndex> {
         let endings = self.vfs.read().1[&file_id];
         let index = self.analysis.file_line_index(file_id)?;
-        let res = LineIndex { index, endings, encoding: OffsetEncoding::Utf8 };
+        let res = LineIndex { index, endings, encoding: self.config.offset_encoding() };
         Ok(res)
     }
 
-- 
2.43.0


From d9d6dd93e3e4ddb7b407bed6e50dc40b0e4f17ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:44 +0000
Subject: [PATCH 23/31] fix: tolerate edits at positions that do not exist

---
 crates/move_language_server/src/lsp_utils.rs | 38 ++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/crates/move_language_server/src/lsp_utils.rs b/crates/move_language_server/src/lsp_utils.rs
index 687da3c..f6ac901 100644
--- a/crates/move_language_server/src/lsp_utils.rs
+++ b/crates/move_language_server/src/lsp_utils.rs
@@ -82,6 +82,7 @@ pub(crate) fn apply_document_changes(
     for change in content_changes {
         match change.range {
             Some(range) => {
+                let range = clamp_range(old_text, range);
                 if !index_valid.covers(range.end.line) {
                     line_index.index = Arc::new(ide_db::LineIndex::new(old_text));
                 }
@@ -97,6 +98,43 @@ pub(crate) fn apply_document_changes(
     }
 }
 
+/// Moves the ends of the range to the nearest positions that exist in the text, the line break being
+/// the last column of a line.
+fn clamp_range(text: &str, range: lsp_types::Range) -> lsp_types::Range {
+    let clamp = |position: lsp_types::Position| {
+        let mut lines = text.split('\n').skip(position.line as usize);
+        let line = match lines.next() {
+            Some(it) => it,
+            None => {
+                let last_line = &text[text.rfind('\n').map_or(0, |it| it + 1)..];
+                return lsp_types::Position::new(
+                    text.matches('\n').count() as u32,
+                    last_line.encode_utf16().count() as u32,
+                );
+            }
+        };
+        let has_line_break = lines.next().is_some();
+        let line = match line.strip_suffix('\r') {
+            Some(it) if has_line_break => it,
+            _ => line,
+        };
+        let mut column = 0;
+        for c in line.chars() {
+            let next = column + c.len_utf16() as u32;
+            if next > position.character {
+                return lsp_types::Position::new(position.line, column);
+            }
+            column = next;
+        }
+        if position.character > column && has_line_break {
+            return lsp_types::Position::new(position.line + 1, 0);
+        }
+        lsp_types::Position::new(position.line, column)
+    };
+    let (start, end) = (clamp(range.start), clamp(range.end));
+    lsp_types::Range::new(start.min(end), start.max(end))
+}
+
 /// Checks that the edits inside the completion and the additional edits do not overlap.
 /// LSP explicitly forbids the additional edits to overlap both with the main edit and themselves.
 pub(crate) fn all_edits_are_disjoint(
-- 
2.43.0


From 2f43077cb851441684ea98a31ce4b37c82e1f707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:41 +0000
Subject: [PATCH 24/31] fix: ignore notifications with malformed parameters

---
 crates/move_language_server/src/dispatch.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/move_language_server/src/dispatch.rs b/crates/move_language_server/src/dispatch.rs
index c39e2d3..b3d3772 100644
--- a/crates/move_language_server/src/dispatch.rs
+++ b/crates/move_language_server/src/dispatch.rs
@@ -225,14 +225,14 @@ impl<'a> NotificationDispatcher<'a> {
         N: lsp_types::notification::Notification + 'static,
         N::Params: DeserializeOwned + Send + 'static,
     {
-        let not = match self.not.take() {
-            Some(it) => it,
-            None => return Ok(self),
+        let not = match &self.not {
+            Some(not) if not.method == N::METHOD => self.not.take().unwrap(),
+            _ => return Ok(self),
         };
-        let params = match not.extract::<N::Params>(N::METHOD) {
+        let params = match crate::from_json::<N::Params>(N::METHOD, not.params) {
             Ok(it) => it,
-            Err(not) => {
-                self.not = Some(not);
+            Err(err) => {
+                tracing::error!("invalid notification: {}", err);
                 return Ok(self);
             }
         };
-- 
2.43.0


From 04619689549486c9aea8b60d3557d1c381b951b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:55 +0000
Subject: [PATCH 25/31] fix: ignore responses to requests that are not
 outstanding

---
 crates/move_language_server/src/global_state.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/move_language_server/src/global_state.rs b/crates/move_language_server/src/global_state.rs
index b363e08..b2feabd 100644
--- a/crates/move_language_server/src/global_state.rs
+++ b/crates/move_language_server/src/global_state.rs
@@ -21,7 +21,7 @@ use ide_db::base_db::{Change, FileId};
 use lsp_types::{SemanticTokens, Url};
 use parking_lot::{Mutex, RwLock};
 use project_model::ProjectWorkspace;
-use rustc_hash::FxHashMap;
+use rustc_hash::{FxHashMap, FxHashSet};
 use vfs::AnchoredPathBuf;
 
 // Enforces drop order
@@ -43,6 +43,8 @@ pub(crate) type ReqQueue = lsp_server::ReqQueue<(String, Instant), ReqHandler>;
 pub(crate) struct GlobalState {
     sender: Sender<lsp_server::Message>,
     req_queue: ReqQueue,
+    /// Requests to the client that it has not answered yet.
+    sent_requests: FxHashSet<lsp_server::RequestId>,
     pub(crate) task_pool: Handle<TaskPool<Task>, Receiver<Task>>,
     pub(crate) config: Arc<Config>,
     pub(crate) analysis_host: AnalysisHost,
@@ -85,6 +87,7 @@ impl GlobalState {
         let mut this = GlobalState {
             sender,
             req_queue: ReqQueue::default(),
+            sent_requests: FxHashSet::default(),
             task_pool,
             config: Arc::new(config),
             analysis_host,
@@ -170,9 +173,14 @@ impl GlobalState {
         handler: ReqHandler,
     ) {
         let request = self.req_queue.outgoing.register(R::METHOD.to_string(), params, handler);
+        self.sent_requests.insert(request.id.clone());
         self.send(request.into());
     }
     pub(crate) fn complete_request(&mut self, response: lsp_server::Response) {
+        if !self.sent_requests.remove(&response.id) {
+            tracing::error!("response to a request that is not outstanding: {:?}", response);
+            return;
+        }
         let handler = self.req_queue.outgoing.complete(response.id.clone());
         handler(self, response)
     }
-- 
2.43.0


From e59ebf50deb969e39fcd3e73092d9cf4e561bfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:10 +0000
Subject: [PATCH 26/31] hook: let a model checker schedule the main loop and
 its background tasks

---
 crates/ide/src/lib.rs                         |   6 +
 crates/move_language_server/src/dispatch.rs   |   2 +
 crates/move_language_server/src/handlers.rs   |   2 +
 crates/move_language_server/src/lib.rs        |   2 +
 crates/move_language_server/src/main_loop.rs  |   2 +
 .../move_language_server/src/thread_pool.rs   |   8 +
 crates/move_language_server/src/verif.rs      | 234 ++++++++++++++++++
 7 files changed, 256 insertions(+)
 create mode 100644 crates/move_language_server/src/verif.rs

diff --git a/crates/ide/src/lib.rs b/crates/ide/src/lib.rs
index f5db41c..dc653a9 100644
--- a/crates/ide/src/lib.rs
+++ b/crates/ide/src/lib.rs
@@ -77,6 +77,12 @@ impl Analysis {
         self.with_db(|db| ide_diagnostics::diagnostics(db, file_id))
     }
 
+    /// Does a change wait for this snapshot to go away?
+    #[cfg(mls_verif)]
+    pub fn verif_is_cancelled(&self) -> bool {
+        self.with_db(|db| salsa::Database::unwind_if_cancelled(db)).is_err()
+    }
+
     /// Performs an operation on the database that may be canceled.
     ///
     /// rust-analyzer needs to be able to answer semantic questions about the
diff --git a/crates/move_language_server/src/dispatch.rs b/crates/move_language_server/src/dispatch.rs
index b3d3772..48b4e5e 100644
--- a/crates/move_language_server/src/dispatch.rs
+++ b/crates/move_language_server/src/dispatch.rs
@@ -110,6 +110,8 @@ impl<'a> RequestDispatcher<'a> {
     }
 
     pub(crate) fn finish(&mut self) {
+        #[cfg(mls_verif)]
+        crate::verif::dispatch_test_requests(self);
         if let Some(req) = self.req.take() {
             tracing::error!("unknown request: {:?}", req);
             let response = lsp_server::Response::new_err(
diff --git a/crates/move_language_server/src/handlers.rs b/crates/move_language_server/src/handlers.rs
index 4187f1f..7f358ba 100644
--- a/crates/move_language_server/src/handlers.rs
+++ b/crates/move_language_server/src/handlers.rs
@@ -8,6 +8,8 @@ pub(crate) fn publish_diagnostics(
     snap: &GlobalStateSnapshot,
     file_id: FileId,
 ) -> Result<Vec<Diagnostic>> {
+    #[cfg(mls_verif)]
+    crate::verif::compute(snap);
     let line_index = snap.file_line_index(file_id)?;
 
     let diagnostics: Vec<Diagnostic> = snap
diff --git a/crates/move_language_server/src/lib.rs b/crates/move_language_server/src/lib.rs
index 1989081..f97112d 100644
--- a/crates/move_language_server/src/lib.rs
+++ b/crates/move_language_server/src/lib.rs
@@ -19,6 +19,8 @@ mod dispatch;
 mod reload;
 mod main_loop;
 pub mod config;
+#[cfg(mls_verif)]
+pub mod verif;
 
 pub use caps::server_capabilities;
 pub use main_loop::main_loop;
diff --git a/crates/move_language_server/src/main_loop.rs b/crates/move_language_server/src/main_loop.rs
index 9534860..2624be2 100644
--- a/crates/move_language_server/src/main_loop.rs
+++ b/crates/move_language_server/src/main_loop.rs
@@ -126,6 +126,8 @@ impl GlobalState {
     }
 
     fn next_event(&self, inbox: &Receiver<lsp_server::Message>) -> Option<Event> {
+        #[cfg(mls_verif)]
+        crate::verif::before_event(&|| inbox.len(), &|| self.task_pool.receiver.len());
         select! {
             recv(inbox) -> msg =>
                 msg.ok().map(Event::Lsp),
diff --git a/crates/move_language_server/src/thread_pool.rs b/crates/move_language_server/src/thread_pool.rs
index 8338937..988d22a 100644
--- a/crates/move_language_server/src/thread_pool.rs
+++ b/crates/move_language_server/src/thread_pool.rs
@@ -17,6 +17,10 @@ impl<T> TaskPool<T> {
         F: FnOnce() -> T + Send + 'static,
         T: Send + 'static,
     {
+        #[cfg(mls_verif)]
+        let task = crate::verif::instrument(task);
+        #[cfg(mls_verif)]
+        crate::verif::enlarge(&self.inner);
         self.inner.execute({
             let sender = self.sender.clone();
             move || sender.send(task()).unwrap()
@@ -28,6 +32,8 @@ impl<T> TaskPool<T> {
         F: FnOnce(Sender<T>) + Send + 'static,
         T: Send + 'static,
     {
+        #[cfg(mls_verif)]
+        let task = crate::verif::instrument_with_sender(task);
         self.inner.execute({
             let sender = self.sender.clone();
             move || task(sender)
@@ -41,6 +47,8 @@ impl<T> TaskPool<T> {
 
 impl<T> Drop for TaskPool<T> {
     fn drop(&mut self) {
+        #[cfg(mls_verif)]
+        crate::verif::joining();
         self.inner.join()
     }
 }
diff --git a/crates/move_language_server/src/verif.rs b/crates/move_language_server/src/verif.rs
new file mode 100644
index 0000000..57f574e
--- /dev/null
+++ b/crates/move_language_server/src/verif.rs
@@ -0,0 +1,234 @@
+//! Lets a model checker decide when messages and background tasks make progress, and reach the
+//! parts of the server that have no public interface. Compiled with `--cfg mls_verif` only.
+use std::cell::RefCell;
+use std::sync::Arc;
+
+use crate::dispatch::RequestDispatcher;
+use crate::global_state::GlobalStateSnapshot;
+use crate::{LspError, Result};
+
+/// Where a background task stops until it may go on.
+#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
+pub enum Gate {
+    /// Before the task does anything.
+    Begin,
+    /// Before a computation on the task's snapshot.
+    Compute,
+    /// The result is there, but not sent yet.
+    Send,
+}
+
+pub trait Controller: Send + Sync {
+    /// How many tasks may be under way at once.
+    fn threads(&self) -> usize;
+    /// A task was handed to the thread pool; gives it an identity.
+    fn spawned(&self) -> usize;
+    /// Returns when the task may go on. `cancelled` tells whether a change waits for its snapshot.
+    fn gate(&self, task: usize, gate: Gate, cancelled: &dyn Fn() -> bool);
+    /// The task is over, or panicked.
+    fn finished(&self, task: usize, panicked: bool);
+    /// The main loop is about to wait for an event.
+    fn before_event(&self, inbox: &dyn Fn() -> usize, results: &dyn Fn() -> usize);
+    /// The thread pool is about to be joined.
+    fn joining(&self);
+}
+
+thread_local! {
+    static CONTROLLER: RefCell<Option<(Arc<dyn Controller>, Option<usize>)>> = RefCell::new(None);
+}
+
+/// Makes servers started on this thread use the controller.
+pub fn install(controller: Option<Arc<dyn Controller>>) {
+    CONTROLLER.with(|it| *it.borrow_mut() = controller.map(|it| (it, None)))
+}
+
+/// The controller of this thread, and the task that it runs (or ran last).
+pub fn current() -> Option<(Arc<dyn Controller>, Option<usize>)> {
+    CONTROLLER.try_with(|it| it.borrow().clone()).ok().flatten()
+}
+
+struct Running(Arc<dyn Controller>, usize);
+impl Running {
+    fn new(controller: &Option<(Arc<dyn Controller>, usize)>) -> Option<Running> {
+        let (controller, task) = controller.clone()?;
+        CONTROLLER.with(|it| *it.borrow_mut() = Some((controller.clone(), Some(task))));
+        Some(Running(controller, task))
+    }
+}
+impl Drop for Running {
+    fn drop(&mut self) {
+        self.0.finished(self.1, std::thread::panicking())
+    }
+}
+
+fn spawned() -> Option<(Arc<dyn Controller>, usize)> {
+    current().map(|(controller, _)| {
+        let task = controller.spawned();
+        (controller, task)
+    })
+}
+
+pub(crate) fn instrument<T>(
+    task: impl FnOnce() -> T + Send + 'static,
+) -> impl FnOnce() -> T + Send + 'static {
+    let controller = spawned();
+    move || {
+        let running = Running::new(&controller);
+        let res = task();
+        if let Some(it) = &running {
+            it.0.gate(it.1, Gate::Send, &|| false);
+        }
+        res
+    }
+}
+
+pub(crate) fn instrument_with_sender<S>(
+    task: impl FnOnce(S) + Send + 'static,
+) -> impl FnOnce(S) + Send + 'static {
+    let controller = spawned();
+    move |sender| {
+        let running = Running::new(&controller);
+        if let Some(it) = &running {
+            it.0.gate(it.1, Gate::Begin, &|| false);
+        }
+        task(sender)
+    }
+}
+
+/// Tasks that wait for the controller must not keep others from running.
+pub(crate) fn enlarge(pool: &threadpool::ThreadPool) {
+    if let Some((controller, _)) = current() {
+        if pool.max_count() < controller.threads() {
+            pool.clone().set_num_threads(controller.threads())
+        }
+    }
+}
+
+/// Called by a task before it computes something.
+pub(crate) fn compute(snapshot: &GlobalStateSnapshot) {
+    if let Some((controller, Some(task))) = current() {
+        controller.gate(task, Gate::Compute, &|| snapshot.analysis.verif_is_cancelled());
+    }
+}
+
+pub(crate) fn before_event(inbox: &dyn Fn() -> usize, results: &dyn Fn() -> usize) {
+    if let Some((controller, _)) = current() {
+        controller.before_event(inbox, results)
+    }
+}
+
+pub(crate) fn joining() {
+    if let Some((controller, _)) = current() {
+        controller.joining()
+    }
+}
+
+macro_rules! test_request {
+    ($name:ident, $method:literal) => {
+        enum $name {}
+        impl lsp_types::request::Request for $name {
+            type Params = TestParams;
+            type Result = String;
+            const METHOD: &'static str = $method;
+        }
+    };
+}
+test_request!(TestMut, "verif/mut");
+test_request!(TestSync, "verif/sync");
+test_request!(TestPool, "verif/pool");
+
+#[derive(Debug, serde::Serialize, serde::Deserialize)]
+pub(crate) struct TestParams {
+    what: String,
+    uri: Option<lsp_types::Url>,
+}
+
+fn test_result(params: TestParams) -> Result<String> {
+    match params.what.as_str() {
+        "error" => Err("test error".into()),
+        "lsp" => Err(LspError::new(-7, "test lsp error".to_string()).into()),
+        "panic" => panic!("test panic"),
+        what => Ok(what.to_string()),
+    }
+}
+
+fn test_read(snapshot: GlobalStateSnapshot, params: TestParams) -> Result<String> {
+    if let Some(uri) = &params.uri {
+        let file_id = snapshot.url_to_file_id(uri)?;
+        compute(&snapshot);
+        let n = snapshot.analysis.diagnostics(file_id)?.len();
+        return Ok(format!("{} {}", params.what, n));
+    }
+    test_result(params)
+}
+
+/// Requests that exist for the sake of exploring the dispatcher.
+pub(crate) fn dispatch_test_requests(dispatcher: &mut RequestDispatcher) {
+    let _ = dispatcher
+        .on_sync_mut::<TestMut>(|_, params| test_result(params))
+        .and_then(|it| it.on_sync::<TestSync>(test_read))
+        .map(|it| it.on::<TestPool>(test_read).req.is_some());
+}
+
+/// Applies edits to a text as the server does to a document.
+pub fn apply_document_changes(
+    text: &mut String,
+    changes: Vec<lsp_types::TextDocumentContentChangeEvent>,
+) {
+    crate::lsp_utils::apply_document_changes(text, changes)
+}
+
+/// The text with normalized line endings, and whether there were `\r\n`.
+pub fn normalize_line_endings(text: String) -> (String, bool) {
+    let (text, endings) = crate::line_index::LineEndings::normalize(text);
+    (text, endings == crate::line_index::LineEndings::Dos)
+}
+
+pub fn all_edits_are_disjoint(
+    completion: &lsp_types::CompletionItem,
+    additional_edits: &[lsp_types::TextEdit],
+) -> bool {
+    crate::lsp_utils::all_edits_are_disjoint(completion, additional_edits)
+}
+
+/// The offset of a position, and the position of that offset.
+pub fn there_and_back(text: &str, utf8: bool, position: lsp_types::Position) -> (u32, lsp_types::Position) {
+    let index = line_index(text, utf8);
+    let offset = crate::from_proto::offset(&index, position);
+    (offset.into(), crate::to_proto::position(&index, offset))
+}
+
+pub fn position(text: &str, utf8: bool, offset: u32) -> lsp_types::Position {
+    crate::to_proto::position(&line_index(text, utf8), offset.into())
+}
+
+fn line_index(text: &str, utf8: bool) -> crate::line_index::LineIndex {
+    use crate::line_index::*;
+    LineIndex {
+        index: Arc::new(ide_db::LineIndex::new(text)),
+        endings: LineEndings::Unix,
+        encoding: if utf8 { OffsetEncoding::Utf8 } else { OffsetEncoding::Utf16 },
+    }
+}
+
+/// The store of diagnostics.
+#[derive(Default)]
+pub struct Diagnostics(crate::diagnostics::DiagnosticCollection);
+
+impl Diagnostics {
+    pub fn clear_check(&mut self) {
+        self.0.clear_check()
+    }
+    pub fn add_check(&mut self, file: u32, diagnostic: lsp_types::Diagnostic) {
+        self.0.add_check_diagnostic(ide_db::base_db::FileId(file), diagnostic, vec![])
+    }
+    pub fn set_native(&mut self, file: u32, diagnostics: Vec<lsp_types::Diagnostic>) {
+        self.0.set_native_diagnostics(ide_db::base_db::FileId(file), diagnostics)
+    }
+    pub fn get(&self, file: u32) -> Vec<lsp_types::Diagnostic> {
+        self.0.diagnostics_for(ide_db::base_db::FileId(file)).cloned().collect()
+    }
+    pub fn take_changes(&mut self) -> Option<Vec<u32>> {
+        self.0.take_changes().map(|it| it.into_iter().map(|it| it.0).collect())
+    }
+}
-- 
2.43.0


From e2deb2794488ce025ee29eed70142a40470b6655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:51 +0000
Subject: [PATCH 27/31] fix: do not panic when the client is gone

---
 crates/move_language_server/src/global_state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/move_language_server/src/global_state.rs b/crates/move_language_server/src/global_state.rs
index b2feabd..d25fc87 100644
--- a/crates/move_language_server/src/global_state.rs
+++ b/crates/move_language_server/src/global_state.rs
@@ -214,7 +214,10 @@ impl GlobalState {
     }
 
     fn send(&mut self, message: lsp_server::Message) {
-        self.sender.send(message).unwrap()
+        // the client may be gone already; the main loop ends when it notices
+        if let Err(err) = self.sender.send(message) {
+            tracing::error!("cannot send a message to the client: {}", err);
+        }
     }
 }
 
-- 
2.43.0


From a2413839179b6afd4d46095641a2f1de6eea2438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:41 +0000
Subject: [PATCH 28/31] fix: do not corrupt characters split between chunks of
 dove's output, survive a missing dove

---
 editors/code/src/components/dove.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/editors/code/src/components/dove.ts b/editors/code/src/components/dove.ts
index f4ddcef..62ded38 100644
--- a/editors/code/src/components/dove.ts
+++ b/editors/code/src/components/dove.ts
@@ -103,12 +103,19 @@ export class Dove {
         let stderr = '';
         await new Promise((resolve) => {
             const process = spawn(this.executable, [command, ...args], { cwd });
+            // a chunk may end inside a character
+            process.stdout.setEncoding('utf8');
+            process.stderr.setEncoding('utf8');
             process.stdout.on('data', (data) => {
                 stdout += data;
             });
             process.stderr.on('data', (data) => {
                 stderr += data;
             });
+            process.on('error', (err) => {
+                stderr += err.message;
+                resolve(undefined);
+            });
             process.on('close', (code) => {
                 resolve(code);
             });
-- 
2.43.0


From 76046b337f4ce3ec6e2c98d87273196424e9832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:41 +0000
Subject: [PATCH 29/31] fix: do not take a darwin binary for a windows one

---
 editors/code/src/components/bootstrap.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/editors/code/src/components/bootstrap.ts b/editors/code/src/components/bootstrap.ts
index e7fd746..04bc9e2 100644
--- a/editors/code/src/components/bootstrap.ts
+++ b/editors/code/src/components/bootstrap.ts
@@ -9,10 +9,10 @@ import { AssertionError } from 'assert';
 
 const RELEAGE_TAG = '1.2.2';
 
-function getPlatformLabel(name: NodeJS.Platform): string | undefined {
-    if (name === 'win32') return 'win';
-    if (name == 'linux') return 'linux';
-    if (name == 'darwin') return 'darwin';
+function getPlatformLabel(name: NodeJS.Platform): RegExp | undefined {
+    if (name === 'win32') return /(?<!dar)win/;
+    if (name == 'linux') return /linux/;
+    if (name == 'darwin') return /darwin/;
     return undefined;
 }
 
@@ -115,7 +115,7 @@ async function getBinaryPathEnsureExists(
 
     const asset = release.assets.find(
         ({ browser_download_url, name }) =>
-            name.startsWith(binaryName) && name.includes(platformLabel)
+            name.startsWith(binaryName) && platformLabel.test(name)
     );
     assert(!!asset, `Bad release: ${JSON.stringify(release)}`);
 
-- 
2.43.0


From ce14c40420484c506e4f29535ce51bf322683114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:12 +0000
Subject: [PATCH 30/31] fix: do not start a server after the extension was
 disposed

---
 editors/code/src/components/ws.ts | 13 +++++++++++++
 editors/code/src/extension.ts     |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/editors/code/src/components/ws.ts b/editors/code/src/components/ws.ts
index 61f50a5..4829f46 100644
--- a/editors/code/src/components/ws.ts
+++ b/editors/code/src/components/ws.ts
@@ -25,12 +25,17 @@ export class ClientWorkspaceFactory implements Disposable {
     private readonly workspaces: Map<vscode.WorkspaceFolder, ClientWorkspace> = new Map();
     private doveExecutable: string | null = null;
     private languageServerExecutable: string | null = null;
+    private disposed = false;
 
     constructor(
         private readonly extensionContext: vscode.ExtensionContext,
         private readonly state: PersistentState
     ) {}
 
+    get isDisposed(): boolean {
+        return this.disposed;
+    }
+
     async initClientWorkspace(text_document: TextDocument | undefined) {
         if (!text_document) return;
 
@@ -54,6 +59,9 @@ export class ClientWorkspaceFactory implements Disposable {
             );
         }
 
+        // disposed while we were waiting
+        if (this.disposed) return;
+
         log.debug(`initClientWorkspace called inside ${folder.uri.fsPath}`);
         let ws = this.workspaces.get(folder);
         if (!ws && isMoveDocument(text_document)) {
@@ -80,6 +88,7 @@ export class ClientWorkspaceFactory implements Disposable {
 
     dispose() {
         log.debug('Disposing ClientWorkspaceFactory');
+        this.disposed = true;
         return Promise.all([...this.workspaces.values()].map((ws) => ws.stop()));
     }
 }
@@ -89,6 +98,7 @@ export class ClientWorkspaceFactory implements Disposable {
 export class ClientWorkspace {
     private readonly disposables: Disposable[] = [];
     private readonly languageClients: lc.LanguageClient[] = [];
+    private stopped = false;
 
     constructor(
         readonly folder: vscode.WorkspaceFolder,
@@ -101,6 +111,8 @@ export class ClientWorkspace {
 
         const metadata = await dove.metadataWithErrorMessage(this.folder);
         if (!metadata) return;
+        // stopped while we were waiting
+        if (this.stopped) return;
 
         const serverInitOpts = getServerInitOptsFromMetadata(metadata);
         const client = createLanguageServerClient(
@@ -115,6 +127,7 @@ export class ClientWorkspace {
     }
 
     async stop(): Promise<any> {
+        this.stopped = true;
         log.debug(`Stopping language clients for "${this.folder.uri.toString()}"`);
         for (const client of this.languageClients) {
             await client.stop();
diff --git a/editors/code/src/extension.ts b/editors/code/src/extension.ts
index 1d18deb..fe9d2a6 100644
--- a/editors/code/src/extension.ts
+++ b/editors/code/src/extension.ts
@@ -45,6 +45,8 @@ async function tryActivate(context: vscode.ExtensionContext) {
     // Manually trigger the first event to start up server instance if necessary,
     // since VSCode doesn't do that on startup by itself.
     await clientWorkspaceFactory.initClientWorkspace(window.activeTextEditor?.document);
+    // deactivated while we were waiting
+    if (clientWorkspaceFactory.isDisposed) return;
 
     // Reloading is inspired by @DanTup maneuver: https://github.com/microsoft/vscode/issues/45774#issuecomment-373423895
     log.debug('Register command "move.reload"');
-- 
2.43.0


From c84975ae3837efbc1db38e13060c17c2765efa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:19 +0000
Subject: [PATCH 31/31] fix: do not take a document of another scheme for the
 file of the same path

---
 crates/move_language_server/src/from_proto.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/move_language_server/src/from_proto.rs b/crates/move_language_server/src/from_proto.rs
index 4de913d..7ad5cfb 100644
--- a/crates/move_language_server/src/from_proto.rs
+++ b/crates/move_language_server/src/from_proto.rs
@@ -15,6 +15,10 @@ use crate::{
 };
 
 pub(crate) fn abs_path(url: &lsp_types::Url) -> Result<AbsPathBuf> {
+    // `to_file_path` does not look at the scheme
+    if url.scheme() != "file" {
+        return Err("url is not a file".into());
+    }
     let path = url.to_file_path().map_err(|()| "url is not a file")?;
     Ok(AbsPathBuf::try_from(path).unwrap())
 }
-- 
2.43.0

