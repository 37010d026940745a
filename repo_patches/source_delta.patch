From cee2e612eb3af4634918de9d418889887482c887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:55 +0000
Subject: [PATCH 01/29] fix: lex unsupported characters and unterminated
 strings as error tokens

The lexer hit todo!() on any character outside the language and on a byte
string without closing quote, and counted characters instead of bytes in
byte strings, so such a file panicked the diagnostics task.
---
 crates/parser/src/lexer.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index cee1c4c..aead983 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -205,7 +205,8 @@ pub fn find_token(text: &str) -> (SyntaxKind, usize) {
                 match get_string_len(line) {
                     Some(last_quote) => (BYTE_STRING, 2 + last_quote + 1),
                     None => {
-                        todo!()
+                        // Missing closing quote: the rest of the line is one error token.
+                        (ERROR, 2 + line.len())
                         // let loc = make_loc(file, start_offset, start_offset + line.len() + 2);
                         // return todo!()
                         // return Err(diag!(
@@ -307,7 +308,7 @@ pub fn find_token(text: &str) -> (SyntaxKind, usize) {
         '#' => (NUMSIGN, 1),
         '@' => (ATSIGN, 1),
         _ => {
-            todo!()
+            (ERROR, c.len_utf8())
             // let loc = make_loc(file, start_offset, start_offset);
             // return todo!()
             // return Err(diag!(
@@ -360,20 +361,16 @@ fn get_number_maybe_with_suffix(text: &str, num_text_len: usize) -> (SyntaxKind,
     }
 }
 
-// Return the length of the quoted string, or None if there is no closing quote.
+// Return the length (in bytes) of the quoted string, or None if there is no closing quote.
 fn get_string_len(text: &str) -> Option<usize> {
-    let mut pos = 0;
-    let mut iter = text.chars();
-    while let Some(chr) = iter.next() {
+    let mut iter = text.char_indices();
+    while let Some((pos, chr)) = iter.next() {
         if chr == '\\' {
             // Skip over the escaped character (e.g., a quote or another backslash)
-            if iter.next().is_some() {
-                pos += 1;
-            }
+            iter.next();
         } else if chr == '"' {
             return Some(pos);
         }
-        pos += 1;
     }
     None
 }
-- 
2.43.0


From 425e335e75ee66495d75e0c6b9ae89d23e1f1e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:19 +0000
Subject: [PATCH 02/29] fix: skip consecutive trivia tokens in a loop

Lexer::bump recursed once per white space or comment token; some ten
thousand comment lines in a row overflowed the worker's stack and aborted
the server.
---
 crates/parser/src/lexer.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index aead983..494b8d7 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -114,17 +114,18 @@ impl<'t> Lexer<'t> {
     }
 
     pub fn bump(&mut self) {
-        self.prev_end = self.cur_end;
-        let text = &self.text[self.cur_end..];
-        // let text = self.text[self.cur_end..].trim_start();
-        self.cur_start = self.text.len() - text.len();
-        let (kind, len) = find_token(text);
-        if kind.is_trivia() {
+        // A loop rather than recursion: there can be any number of comments in a row.
+        loop {
+            self.prev_end = self.cur_end;
+            let text = &self.text[self.cur_end..];
+            // let text = self.text[self.cur_end..].trim_start();
+            self.cur_start = self.text.len() - text.len();
+            let (kind, len) = find_token(text);
             self.advance_with_token(kind, len);
-            self.bump();
-            return;
+            if !kind.is_trivia() {
+                break;
+            }
         }
-        self.advance_with_token(kind, len);
         // self.cur_end = self.cur_start + len;
         // let token = Token::new(kind, len);
         // self.all_tokens.push(token.clone());
-- 
2.43.0


From 01e0cd08656fac68f520bf9565b62afc9015e753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:23 +0000
Subject: [PATCH 03/29] fix: look ahead over the same trivia that bump skips

lookahead skipped Unicode white space but no comments, lookahead_2 skipped
nothing, and paths inspected the token after the next segment: whether
'M::S{x: 1}', 'a::b*c' or 'module 0x1 /*..*/::M' parsed depended on layout,
and 'module 0x1<CR>::M' failed an assertion.
---
 crates/parser/src/grammar/paths.rs |  3 ++-
 crates/parser/src/lexer.rs         | 28 +++++++++++++++-------------
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/crates/parser/src/grammar/paths.rs b/crates/parser/src/grammar/paths.rs
index 502ae23..d714e67 100644
--- a/crates/parser/src/grammar/paths.rs
+++ b/crates/parser/src/grammar/paths.rs
@@ -31,7 +31,8 @@ fn path(p: &mut Parser, mode: Mode) {
 
 fn path_for_qualifier(p: &mut Parser, mode: Mode, mut qual: CompletedMarker) {
     loop {
-        let use_tree = matches!(p.nth(2), T![*] | T!['{']);
+        // `::` is a single token, so the token after it is the next one
+        let use_tree = matches!(p.nth(1), T![*] | T!['{']);
         if p.at(T![::]) && !use_tree {
             let path = qual.precede(p);
             p.bump(T![::]);
diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index 494b8d7..0306ef0 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -92,25 +92,27 @@ impl<'t> Lexer<'t> {
     // Look ahead to the next token after the current one and return it without advancing
     // the state of the lexer.
     pub fn lookahead(&self) -> Token {
-        let text = self.text[self.cur_end..].trim_start();
-        // let offset = self.text.len() - text.len();
-        let (tok, len) = find_token(text);
-        Token::new(tok, len)
+        self.next_non_trivia(self.cur_end).1
     }
 
     // Look ahead to the next two tokens after the current one and return them without advancing
     // the state of the lexer.
     pub fn lookahead_2(&self) -> (Token, Token) {
-        let text = &self.text[self.cur_end..];
-        // let text = self.text[self.cur_end..].trim_start();
-        let offset = self.text.len() - text.len();
-        let (first, length) = find_token(text);
+        let (first_end, first) = self.next_non_trivia(self.cur_end);
+        let (_, second) = self.next_non_trivia(first_end);
+        (first, second)
+    }
 
-        let text2 = &self.text[offset + length..];
-        // let text2 = self.text[offset + length..].trim_start();
-        // let offset2 = self.text.len() - text2.len();
-        let (second, sec_length) = find_token(text2);
-        (Token::new(first, length), Token::new(second, sec_length))
+    // Find the first token at or after `start` that `bump` would stop at, and its end.
+    fn next_non_trivia(&self, start: usize) -> (usize, Token) {
+        let mut end = start;
+        loop {
+            let (kind, len) = find_token(&self.text[end..]);
+            end += len;
+            if !kind.is_trivia() {
+                return (end, Token::new(kind, len));
+            }
+        }
     }
 
     pub fn bump(&mut self) {
-- 
2.43.0


From 7f73307044beb225a69177cfcaa2b36abf432303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:26 +0000
Subject: [PATCH 04/29] fix: make every parsing loop consume a token or stop

A token no rule expects at the top level, in an item, address or field list,
a stray ')' in a block or ';' in parentheses left the parser where it was
until the step limit panicked the diagnostics task.
---
 crates/parser/src/grammar.rs                  |  8 +++++--
 crates/parser/src/grammar/expressions.rs      |  4 ++++
 crates/parser/src/grammar/expressions/atom.rs |  2 +-
 crates/parser/src/grammar/items.rs            | 21 +++++++++++--------
 crates/parser/src/grammar/items/adt.rs        | 10 ++++-----
 5 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/crates/parser/src/grammar.rs b/crates/parser/src/grammar.rs
index 9cbdd23..1d6f620 100644
--- a/crates/parser/src/grammar.rs
+++ b/crates/parser/src/grammar.rs
@@ -7,7 +7,7 @@ mod generic_params;
 mod patterns;
 
 use crate::grammar::expressions::{stmt, StmtWithSemi};
-use crate::grammar::items::{address, item, module, script};
+use crate::grammar::items::{address, item, module, script, TOP_LEVEL_ITEM_RECOVERY_SET};
 use crate::marker::CompletedMarker;
 use crate::parser::Parser;
 use crate::SyntaxKind::{self, *};
@@ -32,6 +32,10 @@ pub(crate) fn block_expr_unchecked(p: &mut Parser) -> CompletedMarker {
 
 pub(crate) fn block_contents(p: &mut Parser) {
     while !(p.at(T!['}']) || p.at(EOF)) {
+        if p.at(T![')']) {
+            p.err_and_bump("expected expression");
+            continue;
+        }
         stmt(p, StmtWithSemi::Optional);
     }
 }
@@ -72,7 +76,7 @@ pub(crate) fn root(p: &mut Parser) {
         } else if p.current().is_trivia() {
             p.bump_any()
         } else {
-            p.error("expected module or script");
+            p.error_and_skip_until("expected module or script", TOP_LEVEL_ITEM_RECOVERY_SET);
         }
     }
     m.complete(p, SOURCE_FILE);
diff --git a/crates/parser/src/grammar/expressions.rs b/crates/parser/src/grammar/expressions.rs
index 73d4a3c..716554b 100644
--- a/crates/parser/src/grammar/expressions.rs
+++ b/crates/parser/src/grammar/expressions.rs
@@ -262,6 +262,10 @@ pub(super) fn expr_block_contents(p: &mut Parser) {
             p.bump(T![;]);
             continue;
         }
+        if p.at(T![')']) {
+            p.err_and_bump("expected expression");
+            continue;
+        }
         stmt(p, StmtWithSemi::Yes)
     }
 }
diff --git a/crates/parser/src/grammar/expressions/atom.rs b/crates/parser/src/grammar/expressions/atom.rs
index 107b8bc..fd33437 100644
--- a/crates/parser/src/grammar/expressions/atom.rs
+++ b/crates/parser/src/grammar/expressions/atom.rs
@@ -146,7 +146,7 @@ fn paren_expr(p: &mut Parser) -> CompletedMarker {
     let m = p.start();
     p.expect(T!['(']);
 
-    while !p.at(EOF) && !p.at(T![')']) {
+    while !p.at(EOF) && !p.at(T![')']) && !p.at(T![;]) {
         // saw_expr = true;
 
         // test tuple_attrs
diff --git a/crates/parser/src/grammar/items.rs b/crates/parser/src/grammar/items.rs
index 115059f..dedb30e 100644
--- a/crates/parser/src/grammar/items.rs
+++ b/crates/parser/src/grammar/items.rs
@@ -3,7 +3,7 @@ mod adt;
 use crate::grammar::expressions::atom::bump_address;
 use crate::grammar::params::param_list;
 use crate::grammar::types::type_;
-use crate::grammar::{block_expr, name, name_r};
+use crate::grammar::{block_expr, error_block, name, name_r};
 use crate::marker::Marker;
 use crate::parser::Parser;
 use crate::SyntaxKind::{self, *};
@@ -85,7 +85,13 @@ pub(crate) fn address_item_list(p: &mut Parser) {
     p.bump(T!['{']);
 
     while !(p.at(T!['}']) || p.at(EOF)) {
-        module(p);
+        if p.at(T![module]) {
+            module(p);
+        } else if p.at(T!['{']) {
+            error_block(p, "expected a module");
+        } else {
+            p.err_and_bump("expected a module");
+        }
     }
     p.expect(T!['}']);
     m.complete(p, ADDRESS_ITEM_LIST);
@@ -117,14 +123,14 @@ pub(crate) fn item(p: &mut Parser) {
         Err(m) => m,
     };
     m.abandon(p);
-    // if p.at(T!['{']) {
-    //     error_block(p, "expected an item");
     // } else if p.at(T!['}']) && !stop_on_r_curly {
     //     let e = p.start();
     //     p.error("unmatched `}`");
     //     p.bump(T!['}']);
     //     e.complete(p, ERROR);
-    if !p.at(EOF) && !p.at(T!['}']) {
+    if p.at(T!['{']) {
+        error_block(p, "expected an item");
+    } else if !p.at(EOF) && !p.at(T!['}']) {
         p.err_and_bump("expected an item");
     } else {
         p.error("expected an item");
@@ -136,10 +142,7 @@ pub(crate) fn opt_item(p: &mut Parser, m: Marker) -> Result<(), Marker> {
     match p.current() {
         T![fun] => function_def(p, m),
         T![struct] => adt::struct_(p, m),
-        _ => {
-            p.error("expected an item");
-            m.complete(p, ERROR);
-        }
+        _ => return Err(m),
     }
     Ok(())
 }
diff --git a/crates/parser/src/grammar/items/adt.rs b/crates/parser/src/grammar/items/adt.rs
index 9c8bf6c..b5598dd 100644
--- a/crates/parser/src/grammar/items/adt.rs
+++ b/crates/parser/src/grammar/items/adt.rs
@@ -1,5 +1,5 @@
 use super::*;
-use crate::grammar::{generic_params, types};
+use crate::grammar::{error_block, generic_params, types};
 
 pub(crate) fn struct_(p: &mut Parser, m: Marker) {
     p.bump(T![struct]);
@@ -44,10 +44,10 @@ pub(crate) fn record_field_list(p: &mut Parser) {
     let m = p.start();
     p.bump(T!['{']);
     while !p.at(T!['}']) && !p.at(EOF) {
-        // if p.at(T!['{']) {
-        //     error_block(p, "expected field");
-        //     continue;
-        // }
+        if p.at(T!['{']) {
+            error_block(p, "expected field");
+            continue;
+        }
         record_field(p);
         if !p.at(T!['}']) {
             p.expect(T![,]);
-- 
2.43.0


From 6f0f21120858006a6cc2806ee36d1b2c75e90e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:43 +0000
Subject: [PATCH 05/29] fix: detect a stuck parser per token, and bound the
 depth of the tree

The step counter was never reset, so any file of some hundred statements
panicked with 'the parser seems stuck'. Counting steps since the last
consumed token no longer bounds recursion by accident, so deep nesting and
long chains (a long run of '-' overflowed the stack before) are now
refused with an error.
---
 crates/parser/src/grammar/expressions.rs | 10 ++++--
 crates/parser/src/grammar/paths.rs       |  2 +-
 crates/parser/src/grammar/patterns.rs    |  4 +--
 crates/parser/src/grammar/types.rs       |  4 +++
 crates/parser/src/parser.rs              | 42 +++++++++++++++++++++++-
 5 files changed, 55 insertions(+), 7 deletions(-)

diff --git a/crates/parser/src/grammar/expressions.rs b/crates/parser/src/grammar/expressions.rs
index 716554b..8c89880 100644
--- a/crates/parser/src/grammar/expressions.rs
+++ b/crates/parser/src/grammar/expressions.rs
@@ -20,10 +20,14 @@ pub(super) fn expr(p: &mut Parser) -> Option<CompletedMarker> {
 
 // Parses expression with binding power of at least bp.
 fn expr_bp(p: &mut Parser, bp: u8) -> Option<CompletedMarker> {
+    p.nested(|p| expr_bp_unguarded(p, bp), Some)
+}
+
+fn expr_bp_unguarded(p: &mut Parser, bp: u8) -> Option<CompletedMarker> {
     let mut lhs = lhs(p)?;
     loop {
         let (op_bp, op) = current_op(p);
-        if op_bp < bp {
+        if op_bp < bp || !p.link() {
             break;
         }
         let m = lhs.precede(p);
@@ -42,8 +46,8 @@ fn expr_bp(p: &mut Parser, bp: u8) -> Option<CompletedMarker> {
 fn postfix_expr(p: &mut Parser, mut lhs: CompletedMarker) -> CompletedMarker {
     loop {
         lhs = match p.current() {
-            T!['('] => call_expr(p, lhs),
-            T![.] => field_expr(p, lhs),
+            T!['('] if p.link() => call_expr(p, lhs),
+            T![.] if p.link() => field_expr(p, lhs),
             _ => break,
         }
     }
diff --git a/crates/parser/src/grammar/paths.rs b/crates/parser/src/grammar/paths.rs
index d714e67..338dc69 100644
--- a/crates/parser/src/grammar/paths.rs
+++ b/crates/parser/src/grammar/paths.rs
@@ -33,7 +33,7 @@ fn path_for_qualifier(p: &mut Parser, mode: Mode, mut qual: CompletedMarker) {
     loop {
         // `::` is a single token, so the token after it is the next one
         let use_tree = matches!(p.nth(1), T![*] | T!['{']);
-        if p.at(T![::]) && !use_tree {
+        if p.at(T![::]) && !use_tree && p.link() {
             let path = qual.precede(p);
             p.bump(T![::]);
             path_segment(p, mode, false);
diff --git a/crates/parser/src/grammar/patterns.rs b/crates/parser/src/grammar/patterns.rs
index 755475e..ca34329 100644
--- a/crates/parser/src/grammar/patterns.rs
+++ b/crates/parser/src/grammar/patterns.rs
@@ -51,13 +51,13 @@ pub(crate) fn pattern(p: &mut Parser) {
         T![mut] => ident_pat(p),
         IDENT => match p.nth(1) {
             // record_pat
-            T!['{'] => path_pat(p),
+            T!['{'] => p.nested(path_pat, |_| ()),
             _ => ident_pat(p),
         },
 
         T![.] if p.at(T![..]) => rest_pat(p),
         T![_] => wildcard_pat(p),
-        T!['('] => tuple_pat(p),
+        T!['('] => p.nested(tuple_pat, |_| ()),
 
         _ => {
             p.err_recover("expected pattern", PAT_RECOVERY_SET);
diff --git a/crates/parser/src/grammar/types.rs b/crates/parser/src/grammar/types.rs
index 53b705c..58eb266 100644
--- a/crates/parser/src/grammar/types.rs
+++ b/crates/parser/src/grammar/types.rs
@@ -19,6 +19,10 @@ pub(super) fn ascription(p: &mut Parser) {
 }
 
 pub(crate) fn type_(p: &mut Parser) {
+    p.nested(type_unguarded, |_| ())
+}
+
+fn type_unguarded(p: &mut Parser) {
     let allow_bounds = false;
     match p.current() {
         T![&] => ref_type(p),
diff --git a/crates/parser/src/parser.rs b/crates/parser/src/parser.rs
index 3c2e1ba..ff3141c 100644
--- a/crates/parser/src/parser.rs
+++ b/crates/parser/src/parser.rs
@@ -23,12 +23,22 @@ use crate::{
 pub(crate) struct Parser<'t> {
     pub(crate) lexer: &'t mut Lexer<'t>,
     pub(crate) events: Vec<Event>,
+    /// Tokens inspected since the last one was consumed, to detect loops without progress.
     pub(crate) steps: Cell<u32>,
+    /// How many recursive rules are being parsed, to bound the use of the stack.
+    depth: u32,
+    /// How many operators, calls, fields and path segments were added to the left of
+    /// the outermost of these rules: each makes the tree one level deeper.
+    links: u32,
 }
 
+// Anything deeper is not parsed: it would overflow the stack, here or when the tree is dropped.
+const MAX_DEPTH: u32 = 256;
+const MAX_LINKS: u32 = 2048;
+
 impl<'t> Parser<'t> {
     pub(super) fn new(lexer: &'t mut Lexer<'t>) -> Parser<'t> {
-        Parser { lexer, events: Vec::new(), steps: Cell::new(0) }
+        Parser { lexer, events: Vec::new(), steps: Cell::new(0), depth: 0, links: 0 }
     }
 
     pub(crate) fn tokens(&mut self) -> Vec<Token> {
@@ -265,9 +275,39 @@ impl<'t> Parser<'t> {
             self.lexer.bump();
         }
 
+        self.steps.set(0);
         self.push_event(Event::Token { kind, n_raw_tokens });
     }
 
+    /// Parses a rule that can contain itself; gives up on the rest of the file if
+    /// it is nested too deeply.
+    pub(crate) fn nested<T>(
+        &mut self,
+        rule: impl FnOnce(&mut Parser<'t>) -> T,
+        otherwise: impl FnOnce(CompletedMarker) -> T,
+    ) -> T {
+        if self.depth == 0 {
+            self.links = 0;
+        }
+        if self.depth >= MAX_DEPTH {
+            let m = self.error_and_skip_until("nested too deeply", TokenSet::EMPTY);
+            return otherwise(m);
+        }
+        self.depth += 1;
+        let res = rule(self);
+        self.depth -= 1;
+        res
+    }
+
+    /// Accounts for one more level to the left of the current rule; `false` if that is too many.
+    pub(crate) fn link(&mut self) -> bool {
+        self.links += 1;
+        if self.links == MAX_LINKS {
+            self.error("expression too long");
+        }
+        self.links < MAX_LINKS
+    }
+
     pub(crate) fn push_event(&mut self, event: Event) {
         self.events.push(event)
     }
-- 
2.43.0


From 14ce7c33120cc4f92a039e3e28ba5a0ae2edabe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:43 +0000
Subject: [PATCH 06/29] fix: resolving against a file outside the set finds
 nothing

FileSet::resolve_path is documented to return None then, but panicked.
---
 crates/vfs/src/file_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/vfs/src/file_set.rs b/crates/vfs/src/file_set.rs
index 0011f73..0d9a5e9 100644
--- a/crates/vfs/src/file_set.rs
+++ b/crates/vfs/src/file_set.rs
@@ -27,7 +27,7 @@ impl FileSet {
     /// If either `path`'s [`anchor`](AnchoredPath::anchor) or the resolved path is not in
     /// the set, returns [`None`].
     pub fn resolve_path(&self, path: AnchoredPath<'_>) -> Option<FileId> {
-        let mut base = self.paths[&path.anchor].clone();
+        let mut base = self.paths.get(&path.anchor)?.clone();
         base.pop();
         let path = base.join(path.path)?;
         self.files.get(&path).copied()
-- 
2.43.0


From bd1b8aec1089a1b873a70f67c4947781409b435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:43 +0000
Subject: [PATCH 07/29] fix: publish diagnostics of opened files

No file set was ever local, so every file counted as part of a library and
its diagnostics were computed but never published.
---
 crates/move_language_server/src/reload.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/move_language_server/src/reload.rs b/crates/move_language_server/src/reload.rs
index 856c6b7..6f63214 100644
--- a/crates/move_language_server/src/reload.rs
+++ b/crates/move_language_server/src/reload.rs
@@ -65,12 +65,20 @@ impl GlobalState {
     }
 }
 
-#[derive(Default, Debug)]
+#[derive(Debug)]
 pub struct SourceRootConfig {
     pub(crate) fsc: FileSetConfig,
     pub(crate) local_filesets: Vec<usize>,
 }
 
+impl Default for SourceRootConfig {
+    fn default() -> SourceRootConfig {
+        // Until projects are loaded, the only file set is the one for files outside
+        // of any root. Those were opened by the user, so they are not a library.
+        SourceRootConfig { fsc: FileSetConfig::default(), local_filesets: vec![0] }
+    }
+}
+
 impl SourceRootConfig {
     pub fn partition(&self, vfs: &vfs::Vfs) -> Vec<SourceRoot> {
         self.fsc
-- 
2.43.0


From 6bcad7d539349a1e0247032692448b99c47b5074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:15 +0000
Subject: [PATCH 08/29] fix: ignore diagnostics computed from superseded
 documents

A finished computation drops its snapshot before it delivers its result, so
results could arrive after those of a newer computation and stay, or be
published with the version of a text they do not describe.
---
 crates/move_language_server/src/global_state.rs |  2 ++
 crates/move_language_server/src/main_loop.rs    | 13 ++++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/move_language_server/src/global_state.rs b/crates/move_language_server/src/global_state.rs
index c1b62e9..5ce1fa5 100644
--- a/crates/move_language_server/src/global_state.rs
+++ b/crates/move_language_server/src/global_state.rs
@@ -47,6 +47,7 @@ pub(crate) struct GlobalState {
     pub(crate) config: Arc<Config>,
     pub(crate) analysis_host: AnalysisHost,
     pub(crate) diagnostics: DiagnosticCollection,
+    pub(crate) diagnostics_generation: u64,
     pub(crate) mem_docs: MemDocs,
     pub(crate) shutdown_requested: bool,
     pub(crate) last_reported_status: Option<lsp_ext::ServerStatusParams>,
@@ -86,6 +87,7 @@ impl GlobalState {
             config: Arc::new(config),
             analysis_host,
             diagnostics: Default::default(),
+            diagnostics_generation: 0,
             mem_docs: MemDocs::default(),
             shutdown_requested: false,
             last_reported_status: None,
diff --git a/crates/move_language_server/src/main_loop.rs b/crates/move_language_server/src/main_loop.rs
index e6ae6ba..6276f01 100644
--- a/crates/move_language_server/src/main_loop.rs
+++ b/crates/move_language_server/src/main_loop.rs
@@ -77,7 +77,8 @@ impl fmt::Debug for Event {
 #[derive(Debug)]
 pub(crate) enum Task {
     Response(lsp_server::Response),
-    Diagnostics(Vec<(FileId, Vec<lsp_types::Diagnostic>)>),
+    /// Diagnostics, and the generation of the documents they were computed from
+    Diagnostics(u64, Vec<(FileId, Vec<lsp_types::Diagnostic>)>),
 }
 
 impl GlobalState {
@@ -150,7 +151,11 @@ impl GlobalState {
                 loop {
                     match task {
                         Task::Response(response) => self.respond(response),
-                        Task::Diagnostics(diagnostics_per_file) => {
+                        // Results may arrive late or out of order: a newer computation
+                        // is on its way, and their documents have changed since.
+                        Task::Diagnostics(generation, _)
+                            if generation != self.diagnostics_generation => {}
+                        Task::Diagnostics(_, diagnostics_per_file) => {
                             for (file_id, diagnostics) in diagnostics_per_file {
                                 self.diagnostics.set_native_diagnostics(file_id, diagnostics)
                             }
@@ -313,6 +318,8 @@ impl GlobalState {
 
         tracing::trace!("updating notifications for {:?}", subscriptions);
 
+        self.diagnostics_generation += 1;
+        let generation = self.diagnostics_generation;
         let snapshot = self.snapshot();
         self.task_pool.handle.spawn(move || {
             let diagnostics = subscriptions
@@ -329,7 +336,7 @@ impl GlobalState {
                         .map(|diags| (file_id, diags))
                 })
                 .collect::<Vec<_>>();
-            Task::Diagnostics(diagnostics)
+            Task::Diagnostics(generation, diagnostics)
         })
     }
 }
-- 
2.43.0


From c3772245374d26a33dc1b82c3e70b666c51b5a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:19 +0000
Subject: [PATCH 09/29] fix: report columns in the negotiated encoding

Columns of published ranges were counted in bytes even if the client had not
offered utf-8.
---
 crates/move_language_server/src/global_state.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/move_language_server/src/global_state.rs b/crates/move_language_server/src/global_state.rs
index 5ce1fa5..5cfca2b 100644
--- a/crates/move_language_server/src/global_state.rs
+++ b/crates/move_language_server/src/global_state.rs
@@ -7,7 +7,7 @@ use std::{sync::Arc, time::Instant};
 
 use crate::config::Config;
 use crate::diagnostics::DiagnosticCollection;
-use crate::line_index::{LineEndings, LineIndex, OffsetEncoding};
+use crate::line_index::{LineEndings, LineIndex};
 use crate::main_loop::Task;
 use crate::mem_docs::MemDocs;
 use crate::reload::SourceRootConfig;
@@ -64,6 +64,7 @@ pub(crate) struct GlobalState {
 
 /// An immutable snapshot of the world's state at a point in time.
 pub(crate) struct GlobalStateSnapshot {
+    pub(crate) config: Arc<Config>,
     pub(crate) analysis: Analysis,
     mem_docs: MemDocs,
     vfs: Arc<RwLock<(vfs::Vfs, FxHashMap<FileId, LineEndings>)>>,
@@ -154,6 +155,7 @@ impl GlobalState {
 
     pub(crate) fn snapshot(&self) -> GlobalStateSnapshot {
         GlobalStateSnapshot {
+            config: Arc::clone(&self.config),
             analysis: self.analysis_host.analysis(),
             vfs: Arc::clone(&self.vfs),
             mem_docs: self.mem_docs.clone(),
@@ -224,7 +226,7 @@ impl GlobalStateSnapshot {
     pub(crate) fn file_line_index(&self, file_id: FileId) -> Cancellable<LineIndex> {
         let endings = self.vfs.read().1[&file_id];
         let index = self.analysis.file_line_index(file_id)?;
-        let res = LineIndex { index, endings, encoding: OffsetEncoding::Utf8 };
+        let res = LineIndex { index, endings, encoding: self.config.offset_encoding() };
         Ok(res)
     }
 
-- 
2.43.0


From af473d0e557cf93c3edf01504ccf6a84becdb1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:22 +0000
Subject: [PATCH 10/29] fix: exit without shutdown is not a proper end

The process ended with status zero as after an orderly shutdown.
---
 crates/move_language_server/src/main_loop.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/move_language_server/src/main_loop.rs b/crates/move_language_server/src/main_loop.rs
index 6276f01..3ccabb7 100644
--- a/crates/move_language_server/src/main_loop.rs
+++ b/crates/move_language_server/src/main_loop.rs
@@ -117,7 +117,10 @@ impl GlobalState {
         while let Some(event) = self.next_event(&inbox) {
             if let Event::Lsp(lsp_server::Message::Notification(not)) = &event {
                 if not.method == lsp_types::notification::Exit::METHOD {
-                    return Ok(());
+                    if self.shutdown_requested {
+                        return Ok(());
+                    }
+                    break;
                 }
             }
             self.handle_event(event)?
-- 
2.43.0


From 42a5678648c30ab950cece5c89fcca938e57f4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:22 +0000
Subject: [PATCH 11/29] fix: a notification with malformed parameters does not
 crash the server

Notification::extract panics on parameters it cannot read; in the main loop
that took the whole server down.
---
 crates/move_language_server/src/dispatch.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/move_language_server/src/dispatch.rs b/crates/move_language_server/src/dispatch.rs
index c39e2d3..2877e06 100644
--- a/crates/move_language_server/src/dispatch.rs
+++ b/crates/move_language_server/src/dispatch.rs
@@ -229,10 +229,15 @@ impl<'a> NotificationDispatcher<'a> {
             Some(it) => it,
             None => return Ok(self),
         };
-        let params = match not.extract::<N::Params>(N::METHOD) {
+        if not.method != N::METHOD {
+            self.not = Some(not);
+            return Ok(self);
+        }
+        let params = match crate::from_json::<N::Params>(N::METHOD, not.params) {
             Ok(it) => it,
-            Err(not) => {
-                self.not = Some(not);
+            Err(err) => {
+                // There is no way to report an error in a notification.
+                tracing::error!("{}", err);
                 return Ok(self);
             }
         };
-- 
2.43.0


From aef0b1323bc29f9a3a0a89a2f8e1f400713a6211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:49 +0000
Subject: [PATCH 12/29] fix: accept '&mut' in reference types

The lexer makes one token of '&mut', but types only accepted '& mut'; and
'&mutable' was split into '&mut' and 'able'.
---
 crates/parser/src/grammar/types.rs | 10 ++++++----
 crates/parser/src/lexer.rs         |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/parser/src/grammar/types.rs b/crates/parser/src/grammar/types.rs
index 58eb266..021c876 100644
--- a/crates/parser/src/grammar/types.rs
+++ b/crates/parser/src/grammar/types.rs
@@ -25,7 +25,7 @@ pub(crate) fn type_(p: &mut Parser) {
 fn type_unguarded(p: &mut Parser) {
     let allow_bounds = false;
     match p.current() {
-        T![&] => ref_type(p),
+        T![&] | T![&mut] => ref_type(p),
         _ if is_path_start(p) => path_type(p),
         _ => {
             p.err_recover("expected type", TYPE_RECOVERY_SET);
@@ -34,10 +34,12 @@ fn type_unguarded(p: &mut Parser) {
 }
 
 pub(crate) fn ref_type(p: &mut Parser) {
-    assert!(p.at(T![&]));
     let m = p.start();
-    p.bump(T![&]);
-    p.eat(T![mut]);
+    // `&mut` is one token unless there is something between the two
+    if !p.eat(T![&mut]) {
+        p.bump(T![&]);
+        p.eat(T![mut]);
+    }
     type_(p);
     m.complete(p, REF_TYPE);
 }
diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index 0306ef0..803fed1 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -229,7 +229,7 @@ pub fn find_token(text: &str) -> (SyntaxKind, usize) {
             }
         }
         '&' => {
-            if text.starts_with("&mut") {
+            if text.starts_with("&mut") && get_name_len(&text[1..]) == "mut".len() {
                 (AMP_MUT, 4)
             } else if text.starts_with("&&") {
                 (AMP_AMP, 2)
-- 
2.43.0


From f40d4a16f09e63215ec302946059858cd41835ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:11 +0000
Subject: [PATCH 13/29] verif: observation points and access to private parts,
 under cfg(move_ls_verif)

---
 .../move_language_server/src/global_state.rs  |   2 +
 crates/move_language_server/src/lib.rs        |   2 +
 crates/move_language_server/src/main_loop.rs  |  14 +-
 .../move_language_server/src/thread_pool.rs   |  13 +-
 crates/move_language_server/src/verif.rs      | 122 ++++++++++++++++++
 5 files changed, 151 insertions(+), 2 deletions(-)
 create mode 100644 crates/move_language_server/src/verif.rs

diff --git a/crates/move_language_server/src/global_state.rs b/crates/move_language_server/src/global_state.rs
index 5cfca2b..383a4ce 100644
--- a/crates/move_language_server/src/global_state.rs
+++ b/crates/move_language_server/src/global_state.rs
@@ -149,6 +149,8 @@ impl GlobalState {
             change
         };
 
+        #[cfg(move_ls_verif)]
+        crate::verif::point("apply", || serde_json::Value::Null);
         self.analysis_host.apply_change(change);
         true
     }
diff --git a/crates/move_language_server/src/lib.rs b/crates/move_language_server/src/lib.rs
index 1989081..86e2ae4 100644
--- a/crates/move_language_server/src/lib.rs
+++ b/crates/move_language_server/src/lib.rs
@@ -19,6 +19,8 @@ mod dispatch;
 mod reload;
 mod main_loop;
 pub mod config;
+#[cfg(move_ls_verif)]
+pub mod verif;
 
 pub use caps::server_capabilities;
 pub use main_loop::main_loop;
diff --git a/crates/move_language_server/src/main_loop.rs b/crates/move_language_server/src/main_loop.rs
index 3ccabb7..e1403ad 100644
--- a/crates/move_language_server/src/main_loop.rs
+++ b/crates/move_language_server/src/main_loop.rs
@@ -114,6 +114,9 @@ impl GlobalState {
 
         self.fetch_workspaces();
 
+        #[cfg(move_ls_verif)]
+        crate::verif::point("idle", || self.verif_state());
+
         while let Some(event) = self.next_event(&inbox) {
             if let Event::Lsp(lsp_server::Message::Notification(not)) = &event {
                 if not.method == lsp_types::notification::Exit::METHOD {
@@ -123,7 +126,14 @@ impl GlobalState {
                     break;
                 }
             }
-            self.handle_event(event)?
+            #[cfg(move_ls_verif)]
+            crate::verif::point("received", || match &event {
+                Event::Lsp(_) => "lsp".into(),
+                Event::Task(_) => "task".into(),
+            });
+            self.handle_event(event)?;
+            #[cfg(move_ls_verif)]
+            crate::verif::point("idle", || self.verif_state());
         }
         Err("client exited without proper shutdown sequence")?
     }
@@ -328,6 +338,8 @@ impl GlobalState {
             let diagnostics = subscriptions
                 .into_iter()
                 .filter_map(|file_id| {
+                    #[cfg(move_ls_verif)]
+                    crate::verif::point("task_file", || file_id.0.into());
                     handlers::publish_diagnostics(&snapshot, file_id)
                         .map_err(|err| {
                             if !is_cancelled(&*err) {
diff --git a/crates/move_language_server/src/thread_pool.rs b/crates/move_language_server/src/thread_pool.rs
index 8338937..574bc8a 100644
--- a/crates/move_language_server/src/thread_pool.rs
+++ b/crates/move_language_server/src/thread_pool.rs
@@ -19,7 +19,18 @@ impl<T> TaskPool<T> {
     {
         self.inner.execute({
             let sender = self.sender.clone();
-            move || sender.send(task()).unwrap()
+            #[cfg(move_ls_verif)]
+            let task = || {
+                crate::verif::point("task_start", || serde_json::Value::Null);
+                let result = task();
+                crate::verif::point("task_ready", || serde_json::Value::Null);
+                result
+            };
+            move || {
+                sender.send(task()).unwrap();
+                #[cfg(move_ls_verif)]
+                crate::verif::point("task_sent", || serde_json::Value::Null);
+            }
         })
     }
 
diff --git a/crates/move_language_server/src/verif.rs b/crates/move_language_server/src/verif.rs
new file mode 100644
index 0000000..381be92
--- /dev/null
+++ b/crates/move_language_server/src/verif.rs
@@ -0,0 +1,122 @@
+//! Observation and control points for model-based tests.
+//!
+//! Only compiled with `--cfg move_ls_verif`. Nothing here changes what the server does:
+//! a point calls the installed observer (which may delay the calling thread), and the
+//! functions at the end give tests access to private parts of the crate.
+
+use std::sync::{Arc, RwLock};
+
+use ide_db::base_db::{FileId, SourceDatabase};
+use ide_db::{LineCol, LineColUtf16};
+use serde_json::{json, Value};
+
+use crate::diagnostics::DiagnosticCollection;
+use crate::global_state::GlobalState;
+use crate::line_index::{LineEndings, LineIndex, OffsetEncoding};
+
+pub type Observer = Arc<dyn Fn(&'static str, Value) + Send + Sync>;
+
+static OBSERVER: RwLock<Option<Observer>> = RwLock::new(None);
+
+/// Installs the function that is called at every point of this process.
+pub fn observe(observer: Option<Observer>) {
+    *OBSERVER.write().unwrap() = observer;
+}
+
+pub(crate) fn point(name: &'static str, value: impl FnOnce() -> Value) {
+    let observer = OBSERVER.read().unwrap().clone();
+    if let Some(observer) = observer {
+        observer(name, value())
+    }
+}
+
+impl GlobalState {
+    /// What the server holds at the end of a turn of its event loop.
+    pub(crate) fn verif_state(&self) -> Value {
+        let vfs = &self.vfs.read().0;
+        let db = self.analysis_host.raw_database();
+        let files = vfs
+            .iter()
+            .map(|(file_id, path)| {
+                let version = self.mem_docs.get(path).map(|it| it.version);
+                json!({
+                    "file": file_id.0,
+                    "path": path.to_string(),
+                    "text": String::from_utf8_lossy(vfs.file_contents(file_id)),
+                    "analysed": db.file_text(file_id).as_str(),
+                    "open": version.is_some(),
+                    "version": version,
+                })
+            })
+            .collect::<Vec<_>>();
+        json!({ "files": files, "shutdown": self.shutdown_requested })
+    }
+}
+
+/// See `LineEndings::normalize`; the second component tells if the text is CRLF.
+pub fn normalize(text: String) -> (String, bool) {
+    let (text, endings) = LineEndings::normalize(text);
+    (text, endings == LineEndings::Dos)
+}
+
+/// See `lsp_utils::apply_document_changes`.
+pub fn apply_document_changes(
+    text: &mut String,
+    changes: Vec<lsp_types::TextDocumentContentChangeEvent>,
+) {
+    crate::lsp_utils::apply_document_changes(text, changes)
+}
+
+fn line_index(text: &str, utf8: bool) -> LineIndex {
+    LineIndex {
+        index: Arc::new(ide_db::LineIndex::new(text)),
+        endings: LineEndings::Unix,
+        encoding: if utf8 { OffsetEncoding::Utf8 } else { OffsetEncoding::Utf16 },
+    }
+}
+
+/// See `to_proto::position`.
+pub fn position(text: &str, utf8: bool, offsets: &[u32]) -> Vec<lsp_types::Position> {
+    let index = line_index(text, utf8);
+    offsets.iter().map(|&it| crate::to_proto::position(&index, it.into())).collect()
+}
+
+/// See `from_proto::offset`.
+pub fn offset(text: &str, utf8: bool, positions: &[lsp_types::Position]) -> Vec<u32> {
+    let index = line_index(text, utf8);
+    positions.iter().map(|&it| crate::from_proto::offset(&index, it).into()).collect()
+}
+
+/// See `lsp_utils::all_edits_are_disjoint`.
+pub fn all_edits_are_disjoint(
+    completion: &lsp_types::CompletionItem,
+    additional_edits: &[lsp_types::TextEdit],
+) -> bool {
+    crate::lsp_utils::all_edits_are_disjoint(completion, additional_edits)
+}
+
+/// See `DiagnosticCollection`.
+#[derive(Default)]
+pub struct Diagnostics(DiagnosticCollection);
+
+impl Diagnostics {
+    pub fn set_native(&mut self, file: u32, diagnostics: Vec<lsp_types::Diagnostic>) {
+        self.0.set_native_diagnostics(FileId(file), diagnostics)
+    }
+
+    pub fn add_check(&mut self, file: u32, diagnostic: lsp_types::Diagnostic) {
+        self.0.add_check_diagnostic(FileId(file), diagnostic, Vec::new())
+    }
+
+    pub fn clear_check(&mut self) {
+        self.0.clear_check()
+    }
+
+    pub fn diagnostics_for(&self, file: u32) -> Vec<lsp_types::Diagnostic> {
+        self.0.diagnostics_for(FileId(file)).cloned().collect()
+    }
+
+    pub fn take_changes(&mut self) -> Option<Vec<u32>> {
+        self.0.take_changes().map(|it| it.into_iter().map(|it| it.0).collect())
+    }
+}
-- 
2.43.0


From c844ffa502335eea8934a8ac167ccf3dbd4df430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 14/29] fix: a file set root is a prefix in whole path
 components

---
 crates/vfs/src/file_set.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/vfs/src/file_set.rs b/crates/vfs/src/file_set.rs
index 0d9a5e9..05f9df5 100644
--- a/crates/vfs/src/file_set.rs
+++ b/crates/vfs/src/file_set.rs
@@ -131,13 +131,22 @@ impl FileSetConfig {
         let automaton = PrefixOf::new(scratch_space.as_slice());
         let mut longest_prefix = self.len() - 1;
         let mut stream = self.map.search(automaton).into_stream();
-        while let Some((_, v)) = stream.next() {
-            longest_prefix = v as usize;
+        while let Some((root, v)) = stream.next() {
+            if ends_at_component(scratch_space, root.len()) {
+                longest_prefix = v as usize;
+            }
         }
         longest_prefix
     }
 }
 
+/// Tells whether the first `len` bytes of the encoded `path` are whole components:
+/// `/foo` is not a root of `/foo-things`.
+fn ends_at_component(path: &[u8], len: usize) -> bool {
+    let is_separator = |byte: u8| byte == b'/' || (cfg!(windows) && byte == b'\\');
+    len == path.len() || is_separator(path[len]) || is_separator(path[len - 1])
+}
+
 /// Builder for [`FileSetConfig`].
 pub struct FileSetConfigBuilder {
     roots: Vec<Vec<VfsPath>>,
-- 
2.43.0


From fd59760f92ec21da211963407b61e6df1b4bba08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:00 +0000
Subject: [PATCH 15/29] fix: exclude the tests, examples and benches of a
 dependency

---
 crates/vfs/src/loader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/vfs/src/loader.rs b/crates/vfs/src/loader.rs
index e2d7478..d67172d 100644
--- a/crates/vfs/src/loader.rs
+++ b/crates/vfs/src/loader.rs
@@ -104,11 +104,11 @@ impl Entry {
     /// Entry::Directories(Directories {
     ///     extensions: ["rs"],
     ///     include: [base],
-    ///     exclude: [base/.git, /tests, /examples, /benches],
+    ///     exclude: [base/.git, base/tests, base/examples, base/benches],
     /// })
     /// ```
     pub fn cargo_package_dependency(base: AbsPathBuf) -> Entry {
-        Entry::Directories(dirs(base, &[".git", "/tests", "/examples", "/benches"]))
+        Entry::Directories(dirs(base, &[".git", "tests", "examples", "benches"]))
     }
 
     /// Returns `true` if `path` is included in `self`.
-- 
2.43.0


From 7be74ad4464b5351387896b119f2e54b7936919f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:53 +0000
Subject: [PATCH 16/29] verif: a point where tasks are spawned

---
 crates/move_language_server/src/thread_pool.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/move_language_server/src/thread_pool.rs b/crates/move_language_server/src/thread_pool.rs
index 574bc8a..77cbdb4 100644
--- a/crates/move_language_server/src/thread_pool.rs
+++ b/crates/move_language_server/src/thread_pool.rs
@@ -17,6 +17,8 @@ impl<T> TaskPool<T> {
         F: FnOnce() -> T + Send + 'static,
         T: Send + 'static,
     {
+        #[cfg(move_ls_verif)]
+        crate::verif::point("spawn", || serde_json::Value::Null);
         self.inner.execute({
             let sender = self.sender.clone();
             #[cfg(move_ls_verif)]
-- 
2.43.0


From 47516831d1bb6bbe69932566b392e3176f33676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 17/29] fix: documents with an address that is not a file are
 not files

Url::to_file_path does not look at the scheme: the other side of a diff
(git:/w/a.move) replaced the text of the document itself (file:///w/a.move).
---
 crates/move_language_server/src/from_proto.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/move_language_server/src/from_proto.rs b/crates/move_language_server/src/from_proto.rs
index 4de913d..7ad5cfb 100644
--- a/crates/move_language_server/src/from_proto.rs
+++ b/crates/move_language_server/src/from_proto.rs
@@ -15,6 +15,10 @@ use crate::{
 };
 
 pub(crate) fn abs_path(url: &lsp_types::Url) -> Result<AbsPathBuf> {
+    // `to_file_path` does not look at the scheme
+    if url.scheme() != "file" {
+        return Err("url is not a file".into());
+    }
     let path = url.to_file_path().map_err(|()| "url is not a file")?;
     Ok(AbsPathBuf::try_from(path).unwrap())
 }
-- 
2.43.0


From 58f9ae6650d3eb9bd54bd49b54d0fbf6f2b63965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:26 +0000
Subject: [PATCH 18/29] fix: only files are manifests

A directory called Dove.toml was taken for a manifest, and hid the real one further out.
---
 crates/project_model/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/project_model/src/lib.rs b/crates/project_model/src/lib.rs
index db16ebc..ca2722a 100644
--- a/crates/project_model/src/lib.rs
+++ b/crates/project_model/src/lib.rs
@@ -66,7 +66,9 @@ impl ProjectManifest {
         }
 
         fn find_in_parent_dirs(path: &AbsPath, target_file_name: &str) -> Option<ManifestPath> {
-            if path.file_name().unwrap_or_default() == target_file_name {
+            if path.file_name().unwrap_or_default() == target_file_name
+                && !path.as_ref().is_dir()
+            {
                 if let Ok(manifest) = ManifestPath::try_from(path.to_path_buf()) {
                     return Some(manifest);
                 }
@@ -76,7 +78,7 @@ impl ProjectManifest {
 
             while let Some(path) = curr {
                 let candidate = path.join(target_file_name);
-                if fs::metadata(&candidate).is_ok() {
+                if fs::metadata(&candidate).map_or(false, |it| it.is_file()) {
                     if let Ok(manifest) = ManifestPath::try_from(candidate) {
                         return Some(manifest);
                     }
@@ -92,7 +94,7 @@ impl ProjectManifest {
             entities
                 .filter_map(Result::ok)
                 .map(|it| it.path().join("Dove.toml"))
-                .filter(|it| it.exists())
+                .filter(|it| it.is_file())
                 .map(AbsPathBuf::assert)
                 .filter_map(|it| it.try_into().ok())
                 .collect()
-- 
2.43.0


From 86cd7f1df96a2eeeb0ee193a02710b45aa05698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:06 +0000
Subject: [PATCH 19/29] verif: the access to private functions can be left out

---
 crates/move_language_server/src/verif.rs | 125 ++++++++++++-----------
 1 file changed, 68 insertions(+), 57 deletions(-)

diff --git a/crates/move_language_server/src/verif.rs b/crates/move_language_server/src/verif.rs
index 381be92..e96f330 100644
--- a/crates/move_language_server/src/verif.rs
+++ b/crates/move_language_server/src/verif.rs
@@ -1,18 +1,19 @@
 //! Observation and control points for model-based tests.
 //!
-//! Only compiled with `--cfg move_ls_verif`. Nothing here changes what the server does:
+//! Only compiled with `--cfg move_ls_verif`, and without the access to private functions with
+//! `--cfg move_ls_verif_points` as well. Nothing here changes what the server does:
 //! a point calls the installed observer (which may delay the calling thread), and the
 //! functions at the end give tests access to private parts of the crate.
 
 use std::sync::{Arc, RwLock};
 
-use ide_db::base_db::{FileId, SourceDatabase};
-use ide_db::{LineCol, LineColUtf16};
+use ide_db::base_db::SourceDatabase;
 use serde_json::{json, Value};
 
-use crate::diagnostics::DiagnosticCollection;
 use crate::global_state::GlobalState;
-use crate::line_index::{LineEndings, LineIndex, OffsetEncoding};
+
+#[cfg(not(move_ls_verif_points))]
+pub use private::*;
 
 pub type Observer = Arc<dyn Fn(&'static str, Value) + Send + Sync>;
 
@@ -53,70 +54,80 @@ impl GlobalState {
     }
 }
 
-/// See `LineEndings::normalize`; the second component tells if the text is CRLF.
-pub fn normalize(text: String) -> (String, bool) {
-    let (text, endings) = LineEndings::normalize(text);
-    (text, endings == LineEndings::Dos)
-}
+#[cfg(not(move_ls_verif_points))]
+mod private {
+    use std::sync::Arc;
 
-/// See `lsp_utils::apply_document_changes`.
-pub fn apply_document_changes(
-    text: &mut String,
-    changes: Vec<lsp_types::TextDocumentContentChangeEvent>,
-) {
-    crate::lsp_utils::apply_document_changes(text, changes)
-}
+    use ide_db::base_db::FileId;
 
-fn line_index(text: &str, utf8: bool) -> LineIndex {
-    LineIndex {
-        index: Arc::new(ide_db::LineIndex::new(text)),
-        endings: LineEndings::Unix,
-        encoding: if utf8 { OffsetEncoding::Utf8 } else { OffsetEncoding::Utf16 },
-    }
-}
-
-/// See `to_proto::position`.
-pub fn position(text: &str, utf8: bool, offsets: &[u32]) -> Vec<lsp_types::Position> {
-    let index = line_index(text, utf8);
-    offsets.iter().map(|&it| crate::to_proto::position(&index, it.into())).collect()
-}
-
-/// See `from_proto::offset`.
-pub fn offset(text: &str, utf8: bool, positions: &[lsp_types::Position]) -> Vec<u32> {
-    let index = line_index(text, utf8);
-    positions.iter().map(|&it| crate::from_proto::offset(&index, it).into()).collect()
-}
+    use crate::diagnostics::DiagnosticCollection;
+    use crate::line_index::{LineEndings, LineIndex, OffsetEncoding};
 
-/// See `lsp_utils::all_edits_are_disjoint`.
-pub fn all_edits_are_disjoint(
-    completion: &lsp_types::CompletionItem,
-    additional_edits: &[lsp_types::TextEdit],
-) -> bool {
-    crate::lsp_utils::all_edits_are_disjoint(completion, additional_edits)
-}
+    /// See `LineEndings::normalize`; the second component tells if the text is CRLF.
+    pub fn normalize(text: String) -> (String, bool) {
+        let (text, endings) = LineEndings::normalize(text);
+        (text, endings == LineEndings::Dos)
+    }
 
-/// See `DiagnosticCollection`.
-#[derive(Default)]
-pub struct Diagnostics(DiagnosticCollection);
+    /// See `lsp_utils::apply_document_changes`.
+    pub fn apply_document_changes(
+        text: &mut String,
+        changes: Vec<lsp_types::TextDocumentContentChangeEvent>,
+    ) {
+        crate::lsp_utils::apply_document_changes(text, changes)
+    }
 
-impl Diagnostics {
-    pub fn set_native(&mut self, file: u32, diagnostics: Vec<lsp_types::Diagnostic>) {
-        self.0.set_native_diagnostics(FileId(file), diagnostics)
+    fn line_index(text: &str, utf8: bool) -> LineIndex {
+        LineIndex {
+            index: Arc::new(ide_db::LineIndex::new(text)),
+            endings: LineEndings::Unix,
+            encoding: if utf8 { OffsetEncoding::Utf8 } else { OffsetEncoding::Utf16 },
+        }
     }
 
-    pub fn add_check(&mut self, file: u32, diagnostic: lsp_types::Diagnostic) {
-        self.0.add_check_diagnostic(FileId(file), diagnostic, Vec::new())
+    /// See `to_proto::position`.
+    pub fn position(text: &str, utf8: bool, offsets: &[u32]) -> Vec<lsp_types::Position> {
+        let index = line_index(text, utf8);
+        offsets.iter().map(|&it| crate::to_proto::position(&index, it.into())).collect()
     }
 
-    pub fn clear_check(&mut self) {
-        self.0.clear_check()
+    /// See `from_proto::offset`.
+    pub fn offset(text: &str, utf8: bool, positions: &[lsp_types::Position]) -> Vec<u32> {
+        let index = line_index(text, utf8);
+        positions.iter().map(|&it| crate::from_proto::offset(&index, it).into()).collect()
     }
 
-    pub fn diagnostics_for(&self, file: u32) -> Vec<lsp_types::Diagnostic> {
-        self.0.diagnostics_for(FileId(file)).cloned().collect()
+    /// See `lsp_utils::all_edits_are_disjoint`.
+    pub fn all_edits_are_disjoint(
+        completion: &lsp_types::CompletionItem,
+        additional_edits: &[lsp_types::TextEdit],
+    ) -> bool {
+        crate::lsp_utils::all_edits_are_disjoint(completion, additional_edits)
     }
 
-    pub fn take_changes(&mut self) -> Option<Vec<u32>> {
-        self.0.take_changes().map(|it| it.into_iter().map(|it| it.0).collect())
+    /// See `DiagnosticCollection`.
+    #[derive(Default)]
+    pub struct Diagnostics(DiagnosticCollection);
+
+    impl Diagnostics {
+        pub fn set_native(&mut self, file: u32, diagnostics: Vec<lsp_types::Diagnostic>) {
+            self.0.set_native_diagnostics(FileId(file), diagnostics)
+        }
+
+        pub fn add_check(&mut self, file: u32, diagnostic: lsp_types::Diagnostic) {
+            self.0.add_check_diagnostic(FileId(file), diagnostic, Vec::new())
+        }
+
+        pub fn clear_check(&mut self) {
+            self.0.clear_check()
+        }
+
+        pub fn diagnostics_for(&self, file: u32) -> Vec<lsp_types::Diagnostic> {
+            self.0.diagnostics_for(FileId(file)).cloned().collect()
+        }
+
+        pub fn take_changes(&mut self) -> Option<Vec<u32>> {
+            self.0.take_changes().map(|it| it.into_iter().map(|it| it.0).collect())
+        }
     }
 }
-- 
2.43.0


From 3269be53f8a19d42650d8732567a3e3084a48f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:57 +0000
Subject: [PATCH 20/29] fix: no server is started for a workspace after its
 extension was reloaded

Asking dove about a manifest and its metadata takes time; an extension that was disposed meanwhile started a server which nothing stops.
---
 editors/code/src/components/ws.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/editors/code/src/components/ws.ts b/editors/code/src/components/ws.ts
index 61f50a5..b227e33 100644
--- a/editors/code/src/components/ws.ts
+++ b/editors/code/src/components/ws.ts
@@ -25,6 +25,7 @@ export class ClientWorkspaceFactory implements Disposable {
     private readonly workspaces: Map<vscode.WorkspaceFolder, ClientWorkspace> = new Map();
     private doveExecutable: string | null = null;
     private languageServerExecutable: string | null = null;
+    private disposed = false;
 
     constructor(
         private readonly extensionContext: vscode.ExtensionContext,
@@ -55,6 +56,9 @@ export class ClientWorkspaceFactory implements Disposable {
         }
 
         log.debug(`initClientWorkspace called inside ${folder.uri.fsPath}`);
+        // the extension could have been reloaded in the meantime: nobody would stop the server then
+        if (this.disposed) return;
+
         let ws = this.workspaces.get(folder);
         if (!ws && isMoveDocument(text_document)) {
             ws = new ClientWorkspace(
@@ -80,6 +84,7 @@ export class ClientWorkspaceFactory implements Disposable {
 
     dispose() {
         log.debug('Disposing ClientWorkspaceFactory');
+        this.disposed = true;
         return Promise.all([...this.workspaces.values()].map((ws) => ws.stop()));
     }
 }
@@ -89,6 +94,7 @@ export class ClientWorkspaceFactory implements Disposable {
 export class ClientWorkspace {
     private readonly disposables: Disposable[] = [];
     private readonly languageClients: lc.LanguageClient[] = [];
+    private stopped = false;
 
     constructor(
         readonly folder: vscode.WorkspaceFolder,
@@ -100,7 +106,7 @@ export class ClientWorkspace {
         log.debug(`Starting new ClientWorkspace instance at ${this.folder.uri.toString()}`);
 
         const metadata = await dove.metadataWithErrorMessage(this.folder);
-        if (!metadata) return;
+        if (!metadata || this.stopped) return;
 
         const serverInitOpts = getServerInitOptsFromMetadata(metadata);
         const client = createLanguageServerClient(
@@ -115,6 +121,7 @@ export class ClientWorkspace {
     }
 
     async stop(): Promise<any> {
+        this.stopped = true;
         log.debug(`Stopping language clients for "${this.folder.uri.toString()}"`);
         for (const client of this.languageClients) {
             await client.stop();
-- 
2.43.0


From d5dd9bab5077f191da60f180b23a798c9aff7428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:57 +0000
Subject: [PATCH 21/29] fix: the extension uses the configured or downloaded
 language server

It ran a path of one developer's machine and ignored move.languageServerPath.
---
 editors/code/src/components/bootstrap.ts | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/editors/code/src/components/bootstrap.ts b/editors/code/src/components/bootstrap.ts
index e7fd746..577648f 100644
--- a/editors/code/src/components/bootstrap.ts
+++ b/editors/code/src/components/bootstrap.ts
@@ -44,10 +44,9 @@ export async function bootstrap(
         throw new Error(message);
     };
 
-    // const languageServerPath = await bootstrapLanguageServer(context, state).catch(
-    //     handleError.bind(null, 'move-language-server')
-    // );
-    const languageServerPath = "/home/mkurnikov/code/move-language-server/target/debug/move_language_server";
+    const languageServerPath = await bootstrapLanguageServer(context, state).catch(
+        handleError.bind(null, 'move-language-server')
+    );
 
     const doveExecutablePath = await bootstrapDoveExecutable(context, state).catch(
         handleError.bind(null, 'dove')
-- 
2.43.0


From b92a833bed5e9e71b9e60371e2a2e37963fbaed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:57 +0000
Subject: [PATCH 22/29] fix: binaries of macOS are not taken for those of
 Windows

The label of Windows, win, is part of darwin.
---
 editors/code/src/components/bootstrap.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/editors/code/src/components/bootstrap.ts b/editors/code/src/components/bootstrap.ts
index 577648f..547b6c7 100644
--- a/editors/code/src/components/bootstrap.ts
+++ b/editors/code/src/components/bootstrap.ts
@@ -112,9 +112,11 @@ async function getBinaryPathEnsureExists(
     });
     if (!release) throw new AssertionError({ message: `Invalid binaryName ${binaryName}` });
 
+    // the label of a platform can be the end of another one: "darwin" is not for Windows
+    const platformRegExp = new RegExp(`(^|[^a-z])${platformLabel}`);
     const asset = release.assets.find(
         ({ browser_download_url, name }) =>
-            name.startsWith(binaryName) && name.includes(platformLabel)
+            name.startsWith(binaryName) && platformRegExp.test(name)
     );
     assert(!!asset, `Bad release: ${JSON.stringify(release)}`);
 
-- 
2.43.0


From d93c08c7aaca9376a412d6f50da2d479f5711477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:27 +0000
Subject: [PATCH 23/29] fix: a server that cannot be stopped does not keep its
 folder's tasks registered

client.stop() rejects when the server could not be started; the disposables
of the workspace were never disposed of then, and after a reload every task
was offered twice.
---
 editors/code/src/components/ws.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/editors/code/src/components/ws.ts b/editors/code/src/components/ws.ts
index b227e33..a0be246 100644
--- a/editors/code/src/components/ws.ts
+++ b/editors/code/src/components/ws.ts
@@ -124,7 +124,8 @@ export class ClientWorkspace {
         this.stopped = true;
         log.debug(`Stopping language clients for "${this.folder.uri.toString()}"`);
         for (const client of this.languageClients) {
-            await client.stop();
+            // a server that could not be started cannot be stopped, either
+            await client.stop().catch((err) => log.warn('Stopping failed:', err));
         }
 
         log.debug(`Disposing ClientWorkspace for "${this.folder.uri.toString()}"`);
-- 
2.43.0


From 2ac126b8f8029a5c91c577a025bf074ccfc8361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:27 +0000
Subject: [PATCH 24/29] fix: output of dove is decoded as a whole

A chunk of the output can end inside of a character: decoded chunk by chunk,
paths of the metadata came out wrong.
---
 editors/code/src/components/dove.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/editors/code/src/components/dove.ts b/editors/code/src/components/dove.ts
index f4ddcef..5374846 100644
--- a/editors/code/src/components/dove.ts
+++ b/editors/code/src/components/dove.ts
@@ -103,6 +103,9 @@ export class Dove {
         let stderr = '';
         await new Promise((resolve) => {
             const process = spawn(this.executable, [command, ...args], { cwd });
+            // a chunk can end inside of a character
+            process.stdout.setEncoding('utf8');
+            process.stderr.setEncoding('utf8');
             process.stdout.on('data', (data) => {
                 stdout += data;
             });
-- 
2.43.0


From 38271447c264e14990c2d34044761fa08a43ed32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:38 +0000
Subject: [PATCH 25/29] fix: edits are applied in the negotiated position
 encoding

A client that was told that positions are in utf-8 sends its edits in utf-8;
they were taken for utf-16, and the document went wrong on lines that are not
ASCII.
---
 crates/move_language_server/src/lsp_utils.rs | 20 ++++++++++++++++++--
 crates/move_language_server/src/main_loop.rs | 15 +++++++++++++--
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/crates/move_language_server/src/lsp_utils.rs b/crates/move_language_server/src/lsp_utils.rs
index 687da3c..b8f82db 100644
--- a/crates/move_language_server/src/lsp_utils.rs
+++ b/crates/move_language_server/src/lsp_utils.rs
@@ -51,12 +51,28 @@ impl GlobalState {
 pub(crate) fn apply_document_changes(
     old_text: &mut String,
     content_changes: Vec<lsp_types::TextDocumentContentChangeEvent>,
+) {
+    apply_changes(old_text, content_changes, OffsetEncoding::Utf16)
+}
+
+/// Like [`apply_document_changes`], for clients which count columns in bytes.
+pub(crate) fn apply_document_changes_utf8(
+    old_text: &mut String,
+    content_changes: Vec<lsp_types::TextDocumentContentChangeEvent>,
+) {
+    apply_changes(old_text, content_changes, OffsetEncoding::Utf8)
+}
+
+fn apply_changes(
+    old_text: &mut String,
+    content_changes: Vec<lsp_types::TextDocumentContentChangeEvent>,
+    encoding: OffsetEncoding,
 ) {
     let mut line_index = LineIndex {
         index: Arc::new(ide_db::LineIndex::new(old_text)),
-        // We don't care about line endings or offset encoding here.
+        // We don't care about line endings here.
         endings: LineEndings::Unix,
-        encoding: OffsetEncoding::Utf16,
+        encoding,
     };
 
     // The changes we got must be applied sequentially, but can cross lines so we
diff --git a/crates/move_language_server/src/main_loop.rs b/crates/move_language_server/src/main_loop.rs
index e1403ad..7d28fe0 100644
--- a/crates/move_language_server/src/main_loop.rs
+++ b/crates/move_language_server/src/main_loop.rs
@@ -7,7 +7,10 @@ use std::time::{Duration, Instant};
 use crate::config::Config;
 use crate::dispatch::{NotificationDispatcher, RequestDispatcher};
 use crate::global_state::{file_id_to_url, GlobalState};
-use crate::lsp_utils::{apply_document_changes, is_cancelled, notification_is, Progress};
+use crate::line_index::OffsetEncoding;
+use crate::lsp_utils::{
+    apply_document_changes, apply_document_changes_utf8, is_cancelled, notification_is, Progress,
+};
 use crate::mem_docs::DocumentData;
 use crate::{from_proto, handlers, lsp_ext, Result};
 use ide_db::base_db::FileId;
@@ -304,7 +307,15 @@ impl GlobalState {
                     let vfs = &mut this.vfs.write().0;
                     let file_id = vfs.file_id(&path).unwrap();
                     let mut text = String::from_utf8(vfs.file_contents(file_id).to_vec()).unwrap();
-                    apply_document_changes(&mut text, params.content_changes);
+                    // The positions are in the encoding that was announced to the client.
+                    match this.config.offset_encoding() {
+                        OffsetEncoding::Utf8 => {
+                            apply_document_changes_utf8(&mut text, params.content_changes)
+                        }
+                        OffsetEncoding::Utf16 => {
+                            apply_document_changes(&mut text, params.content_changes)
+                        }
+                    }
 
                     vfs.set_file_contents(path, Some(text.into_bytes()));
                 }
-- 
2.43.0


From ab1bd02d110495a31630fbbb3490d7ad723fb04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:38 +0000
Subject: [PATCH 26/29] verif: edits in either encoding (cfg move_ls_verif)

---
 crates/move_language_server/src/verif.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/move_language_server/src/verif.rs b/crates/move_language_server/src/verif.rs
index e96f330..5e28662 100644
--- a/crates/move_language_server/src/verif.rs
+++ b/crates/move_language_server/src/verif.rs
@@ -69,12 +69,17 @@ mod private {
         (text, endings == LineEndings::Dos)
     }
 
-    /// See `lsp_utils::apply_document_changes`.
+    /// See `lsp_utils::apply_document_changes` and `lsp_utils::apply_document_changes_utf8`.
     pub fn apply_document_changes(
         text: &mut String,
         changes: Vec<lsp_types::TextDocumentContentChangeEvent>,
+        utf8: bool,
     ) {
-        crate::lsp_utils::apply_document_changes(text, changes)
+        if utf8 {
+            crate::lsp_utils::apply_document_changes_utf8(text, changes)
+        } else {
+            crate::lsp_utils::apply_document_changes(text, changes)
+        }
     }
 
     fn line_index(text: &str, utf8: bool) -> LineIndex {
-- 
2.43.0


From acf433522dffcd081b6694f3487613a6a10b10ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:34 +0000
Subject: [PATCH 27/29] fix: unreadable output of `dove metadata` and a dove
 that cannot be run are reported

---
 editors/code/src/components/dove.ts | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/editors/code/src/components/dove.ts b/editors/code/src/components/dove.ts
index 5374846..f5ab039 100644
--- a/editors/code/src/components/dove.ts
+++ b/editors/code/src/components/dove.ts
@@ -74,7 +74,13 @@ export class Dove {
         metadata_json = metadata_json.trim();
         log.debug(`Fetched project metadata ${metadata_json}`);
 
-        return [JSON.parse(metadata_json), errors];
+        try {
+            return [JSON.parse(metadata_json), errors];
+        } catch (err) {
+            // dove failed on its way, or is something else
+            log.debug(`"dove metadata" cannot be read at ${folder.uri.fsPath}`);
+            return [undefined, errors || `cannot read "dove metadata": ${String(err)}`];
+        }
     }
 
     async metadataWithErrorMessage(
@@ -112,6 +118,11 @@ export class Dove {
             process.stderr.on('data', (data) => {
                 stderr += data;
             });
+            process.on('error', (err) => {
+                // dove could not be run at all
+                stderr += err.message;
+                resolve(undefined);
+            });
             process.on('close', (code) => {
                 resolve(code);
             });
-- 
2.43.0


From 857f32942891d42fb7fc11d9f0ac112ef0a510c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:34 +0000
Subject: [PATCH 28/29] fix: errors of the editor's event handlers are shown

---
 editors/code/src/extension.ts | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/editors/code/src/extension.ts b/editors/code/src/extension.ts
index 1d18deb..3b7f066 100644
--- a/editors/code/src/extension.ts
+++ b/editors/code/src/extension.ts
@@ -30,15 +30,24 @@ async function tryActivate(context: vscode.ExtensionContext) {
     // const [languageServerPath, doveExecutablePath] = await bootstrap(context, state);
     const clientWorkspaceFactory = new ClientWorkspaceFactory(context, state);
     context.subscriptions.push(clientWorkspaceFactory);
+    // nobody else sees when a handler of an event fails
+    const showError = (err: any) => {
+        log.error('Error in a handler of an event', err);
+        vscode.window.showErrorMessage(err.message);
+    };
     context.subscriptions.push(
         window.onDidChangeActiveTextEditor(async (editor) => {
-            await clientWorkspaceFactory.initClientWorkspace(editor?.document);
+            await clientWorkspaceFactory
+                .initClientWorkspace(editor?.document)
+                .catch(showError);
         })
     );
     context.subscriptions.push(
         workspace.onDidSaveTextDocument(async (text_document) => {
             if (text_document.uri.fsPath.endsWith('Dove.toml')) {
-                await clientWorkspaceFactory.initClientWorkspace(text_document);
+                await clientWorkspaceFactory
+                    .initClientWorkspace(text_document)
+                    .catch(showError);
             }
         })
     );
@@ -95,16 +104,16 @@ async function tryActivate(context: vscode.ExtensionContext) {
         }),
         workspace.onDidCreateFiles(async (e) => {
             for (const file of e.files) {
-                await onDidDoveTomlChanged(file);
+                await onDidDoveTomlChanged(file).catch(showError);
             }
         }),
         workspace.onDidDeleteFiles(async (e) => {
             for (const file of e.files) {
-                await onDidDoveTomlChanged(file);
+                await onDidDoveTomlChanged(file).catch(showError);
             }
         }),
         workspace.onDidSaveTextDocument(async (document) => {
-            await onDidDoveTomlChanged(document.uri);
+            await onDidDoveTomlChanged(document.uri).catch(showError);
         })
     );
 }
-- 
2.43.0


From 04458899874a7e4a2ffbb8fb10ff2191ae2bb17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:06 +0000
Subject: [PATCH 29/29] fix: positions past the end of a document mean its end

---
 crates/move_language_server/src/lsp_utils.rs | 24 ++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/crates/move_language_server/src/lsp_utils.rs b/crates/move_language_server/src/lsp_utils.rs
index b8f82db..32d5836 100644
--- a/crates/move_language_server/src/lsp_utils.rs
+++ b/crates/move_language_server/src/lsp_utils.rs
@@ -101,6 +101,10 @@ fn apply_changes(
                 if !index_valid.covers(range.end.line) {
                     line_index.index = Arc::new(ide_db::LineIndex::new(old_text));
                 }
+                let range = lsp_types::Range {
+                    start: clamp_position(old_text, range.start, &line_index.encoding),
+                    end: clamp_position(old_text, range.end, &line_index.encoding),
+                };
                 index_valid = IndexValid::UpToLineExclusive(range.start.line);
                 let range = from_proto::text_range(&line_index, range);
                 old_text.replace_range(Range::<usize>::from(range), &change.text);
@@ -113,6 +117,26 @@ fn apply_changes(
     }
 }
 
+/// A column past the end of a line (with its line break) means the end of the line, and a line
+/// past the last one means the end of the text.
+fn clamp_position(
+    text: &str,
+    position: lsp_types::Position,
+    encoding: &OffsetEncoding,
+) -> lsp_types::Position {
+    let len = |line: &str| match encoding {
+        OffsetEncoding::Utf8 => line.len() as u32,
+        OffsetEncoding::Utf16 => line.encode_utf16().count() as u32,
+    };
+    match text.split_inclusive('\n').nth(position.line as usize) {
+        Some(line) => lsp_types::Position::new(position.line, position.character.min(len(line))),
+        None => {
+            let last_line = text.rsplit('\n').next().unwrap_or_default();
+            lsp_types::Position::new(text.matches('\n').count() as u32, len(last_line))
+        }
+    }
+}
+
 /// Checks that the edits inside the completion and the additional edits do not overlap.
 /// LSP explicitly forbids the additional edits to overlap both with the main edit and themselves.
 pub(crate) fn all_edits_are_disjoint(
-- 
2.43.0

