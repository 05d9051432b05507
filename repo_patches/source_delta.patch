From 8e0ee2ee63b5a71e3648618881464666cbe01009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 01/34] Add simulation seam guarded by cfg sql_parse_sim

---
 src/issue.rs |  4 ++++
 src/lexer.rs |  4 ++++
 src/lib.rs   |  3 +++
 src/sim.rs   | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 58 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/issue.rs b/src/issue.rs
index e4229fa..6b6700f 100644
--- a/src/issue.rs
+++ b/src/issue.rs
@@ -80,6 +80,8 @@ impl<'a> Issues<'a> {
         message: impl Into<Cow<'static, str>>,
         span: &impl Spanned,
     ) -> IssueHandle<'a, 'b> {
+        #[cfg(sql_parse_sim)]
+        crate::sim::point(crate::sim::Point::Issue);
         let span: core::ops::Range<usize> = span.span();
         self.issues.push(Issue {
             level: Level::Error,
@@ -99,6 +101,8 @@ impl<'a> Issues<'a> {
         message: impl Into<Cow<'static, str>>,
         span: &impl Spanned,
     ) -> IssueHandle<'a, 'b> {
+        #[cfg(sql_parse_sim)]
+        crate::sim::point(crate::sim::Point::Issue);
         let span = span.span();
         self.issues.push(Issue {
             level: Level::Warning,
diff --git a/src/lexer.rs b/src/lexer.rs
index 1793ff7..ed2618d 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -171,6 +171,8 @@ impl<'a> Lexer<'a> {
     /// Then consumes until NL '\' '.' NL is encountered, or until EOF.
     /// The trailing '\' '.' NL is consumed but not returned.
     pub fn read_from_stdin(&mut self) -> (&'a str, Span) {
+        #[cfg(sql_parse_sim)]
+        crate::sim::point(crate::sim::Point::Stdin);
         // Skip optional spaces.
         while self
             .chars
@@ -220,6 +222,8 @@ impl<'a> Lexer<'a> {
     }
 
     pub fn next_token(&mut self) -> (Token<'a>, Span) {
+        #[cfg(sql_parse_sim)]
+        crate::sim::point(crate::sim::Point::Token);
         loop {
             let (start, c) = match self.chars.next() {
                 Some(v) => v,
diff --git a/src/lib.rs b/src/lib.rs
index 493558c..10ebdd5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -40,6 +40,7 @@
 
 #![no_std]
 #![forbid(unsafe_code)]
+#![allow(unexpected_cfgs)] // sql_parse_sim guards the simulation seam
 extern crate alloc;
 
 use alloc::vec::Vec;
@@ -60,6 +61,8 @@ mod parser;
 mod qualified_name;
 mod rename;
 mod select;
+#[cfg(sql_parse_sim)]
+pub mod sim;
 mod span;
 mod sstring;
 mod statement;
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..ee75b7b
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,47 @@
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+// http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+//! Simulation seam, only compiled with `--cfg sql_parse_sim`.
+//!
+//! A deterministic simulator installs a hook for the current thread, the
+//! hook is called every time a parse reaches one of the points below and
+//! may park the thread, count the step or abandon the parse by unwinding.
+
+extern crate std;
+
+use core::cell::Cell;
+
+/// Where a parse has got to when the hook is called
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Point {
+    /// About to read the next token
+    Token,
+    /// About to read inline data
+    Stdin,
+    /// About to record a diagnostic
+    Issue,
+}
+
+std::thread_local! {
+    static HOOK: Cell<Option<fn(Point)>> = const { Cell::new(None) };
+}
+
+/// Install, or remove, the hook of the current thread
+pub fn set_hook(hook: Option<fn(Point)>) {
+    HOOK.with(|h| h.set(hook));
+}
+
+pub(crate) fn point(point: Point) {
+    if let Some(hook) = HOOK.with(|h| h.get()) {
+        hook(point);
+    }
+}
-- 
2.43.0


From 385a082c605d8f589a75a94208d7cdc0be5e8f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 02/34] fix: report hex literals as an error instead of
 panicking

---
 src/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index ed2618d..2e7d5f1 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -441,7 +441,10 @@ impl<'a> Lexer<'a> {
                 },
                 'x' | 'X' => match self.chars.peek() {
                     Some((_, '\'')) => {
-                        todo!("Hex literal")
+                        // TODO hex literals are not supported
+                        self.chars.next();
+                        while !matches!(self.chars.next(), Some((_, '\'')) | None) {}
+                        Token::Invalid
                     }
                     _ => self.simple_literal(start),
                 },
-- 
2.43.0


From d4ae82fc208cedc578c018af7e5f2cf4fbafac47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 03/34] fix: do not overflow on large numbered placeholders

---
 src/lexer.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 2e7d5f1..49dc95e 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -337,14 +337,16 @@ impl<'a> Lexer<'a> {
                         Token::DoubleDollar
                     }
                     Some((_, '1'..='9')) => {
-                        let mut v = self.chars.peek().unwrap().1.to_digit(10).unwrap() as usize;
-                        self.chars.next();
-                        while matches!(self.chars.peek(), Some((_, '0'..='9'))) {
-                            v = v * 10
-                                + self.chars.peek().unwrap().1.to_digit(10).unwrap() as usize;
+                        let mut v = Some(0usize);
+                        while let Some((_, c @ '0'..='9')) = self.chars.peek() {
+                            let d = *c as usize - '0' as usize;
+                            v = v.and_then(|v| v.checked_mul(10)?.checked_add(d));
                             self.chars.next();
                         }
-                        Token::DollarArg(v)
+                        match v {
+                            Some(v) => Token::DollarArg(v),
+                            None => Token::Invalid,
+                        }
                     }
                     _ => Token::Invalid,
                 },
-- 
2.43.0


From f764c01ef205b0d4c88cb83a12516f185fde8412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 04/34] fix: do not loop forever on a DELIMITER command at the
 end of input

---
 src/statement.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/statement.rs b/src/statement.rs
index 2ce3b8a..d0d3cfb 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -853,6 +853,11 @@ pub(crate) fn parse_statements<'a>(parser: &mut Parser<'a, '_>) -> Vec<Statement
         if parser.skip_keyword(Keyword::DELIMITER).is_some() {
             let t = parser.token.clone();
 
+            if matches!(t, Token::Eof) {
+                parser.expected_error("delimiter");
+                return ans;
+            }
+
             if !matches!(t, Token::DoubleDollar | Token::SemiColon) {
                 parser.warn("Unknown delimiter", &parser.span.span());
             }
-- 
2.43.0


From 2a9a952e9d937ab27c6723a84103545105af2e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 05/34] fix: forbid compound statements again after a trigger
 body fails to parse

---
 src/create.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/create.rs b/src/create.rs
index 2fe2eb7..f52191d 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -881,11 +881,12 @@ fn parse_create_trigger<'a>(
     // TODO [{ FOLLOWS | PRECEDES } other_trigger_name ]
 
     let old = core::mem::replace(&mut parser.permit_compound_statements, true);
-    let statement = match parse_statement(parser)? {
+    let statement = parse_statement(parser);
+    parser.permit_compound_statements = old;
+    let statement = match statement? {
         Some(v) => v,
         None => parser.expected_failure("statement")?,
     };
-    parser.permit_compound_statements = old;
 
     Ok(Statement::CreateTrigger(CreateTrigger {
         create_span,
-- 
2.43.0


From 09f64e4300f6ce716c2a188fd8970acb34693c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 06/34] fix: computing the span of an empty block does not
 panic

---
 src/statement.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statement.rs b/src/statement.rs
index d0d3cfb..7b09e17 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -448,7 +448,7 @@ impl<'a> Spanned for Statement<'a> {
             Statement::DropView(v) => v.span(),
             Statement::Set(v) => v.span(),
             Statement::AlterTable(v) => v.span(),
-            Statement::Block(v) => v.opt_span().expect("Span of block"),
+            Statement::Block(v) => v.opt_span().unwrap_or_default(),
             Statement::If(v) => v.span(),
             Statement::Invalid(v) => v.span(),
             Statement::Union(v) => v.span(),
@@ -460,7 +460,7 @@ impl<'a> Spanned for Statement<'a> {
             Statement::Commit(s) => s.clone(),
             Statement::StartTransaction(s) => s.clone(),
             Statement::CreateTypeEnum(v) => v.span(),
-            Statement::Do(v) => v.opt_span().expect("Span of block"),
+            Statement::Do(v) => v.opt_span().unwrap_or_default(),
             Statement::TruncateTable(v) => v.span(),
             Statement::RenameTable(v) => v.span(),
             Statement::WithQuery(v) => v.span(),
-- 
2.43.0


From e08827572a20ab777531675a415321c35d908aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 07/34] fix: decode quotes in strings without losing characters

A single quote in a double quoted string, and the character after a
backslash escaped quote, were dropped.
---
 src/parser.rs | 54 +++++++++++++++++++++++----------------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 287a6dc..80109ea 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -36,44 +36,38 @@ pub(crate) struct Parser<'a, 'b> {
     pub(crate) permit_compound_statements: bool,
 }
 
-pub(crate) fn decode_single_quoted_string(s: &str) -> Cow<'_, str> {
-    if !s.contains('\'') && !s.contains('\\') {
-        s.into()
-    } else {
-        let mut r = String::new();
-        let mut chars = s.chars();
-        loop {
+/// Replace doubled and escaped quotes, other escapes are kept as they are
+fn decode_quoted_string(s: &str, quote: char) -> Cow<'_, str> {
+    if !s.contains(quote) && !s.contains('\\') {
+        return s.into();
+    }
+    let mut r = String::new();
+    let mut chars = s.chars();
+    while let Some(c) = chars.next() {
+        if c == quote {
+            chars.next();
+            r.push(quote);
+        } else if c == '\\' {
             match chars.next() {
-                None => break,
-                Some('\'') => {
-                    chars.next();
-                    r.push('\'');
+                Some(n) if n == quote => r.push(quote),
+                n => {
+                    r.push('\\');
+                    r.extend(n);
                 }
-                Some(c) => r.push(c),
             }
+        } else {
+            r.push(c);
         }
-        r.into()
     }
+    r.into()
+}
+
+pub(crate) fn decode_single_quoted_string(s: &str) -> Cow<'_, str> {
+    decode_quoted_string(s, '\'')
 }
 
 pub(crate) fn decode_double_quoted_string(s: &str) -> Cow<'_, str> {
-    if !s.contains('"') && !s.contains('\\') {
-        s.into()
-    } else {
-        let mut r = String::new();
-        let mut chars = s.chars();
-        loop {
-            match chars.next() {
-                None => break,
-                Some('\'') => {
-                    chars.next();
-                    r.push('\'');
-                }
-                Some(c) => r.push(c),
-            }
-        }
-        r.into()
-    }
+    decode_quoted_string(s, '"')
 }
 
 impl<'a, 'b> Parser<'a, 'b> {
-- 
2.43.0


From 3d197d0fc2cba19cff005e73924756925565936b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 08/34] fix: limit nesting instead of overflowing the stack

Deeply nested statements, queries and expressions overflowed the stack of
the calling thread and aborted the process.
---
 src/expression.rs | 12 +++++++++---
 src/parser.rs     | 21 +++++++++++++++++++++
 src/statement.rs  | 12 ++++++++++++
 3 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index 8475020..323b6d0 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1074,6 +1074,13 @@ impl<'a> Reducer<'a> {
 pub(crate) fn parse_expression<'a>(
     parser: &mut Parser<'a, '_>,
     inner: bool,
+) -> Result<Expression<'a>, ParseError> {
+    parser.nested(1, |parser| parse_expression_nested(parser, inner))
+}
+
+fn parse_expression_nested<'a>(
+    parser: &mut Parser<'a, '_>,
+    inner: bool,
 ) -> Result<Expression<'a>, ParseError> {
     let mut r = Reducer { stack: Vec::new() };
     loop {
@@ -1626,9 +1633,8 @@ pub(crate) fn parse_expression_outer<'a>(
     parser: &mut Parser<'a, '_>,
 ) -> Result<Expression<'a>, ParseError> {
     if matches!(parser.token, Token::Ident(_, Keyword::SELECT)) {
-        Ok(Expression::Subquery(Box::new(Statement::Select(
-            parse_select(parser)?,
-        ))))
+        let select = parser.nested(1, parse_select)?;
+        Ok(Expression::Subquery(Box::new(Statement::Select(select))))
     } else {
         parse_expression(parser, false)
     }
diff --git a/src/parser.rs b/src/parser.rs
index 80109ea..30cc725 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -34,8 +34,13 @@ pub(crate) struct Parser<'a, 'b> {
     pub(crate) delimiter: Token<'a>,
     pub(crate) options: &'b ParseOptions,
     pub(crate) permit_compound_statements: bool,
+    pub(crate) nesting: usize,
 }
 
+/// Limit of the nesting of statements, queries and expressions, chosen such that
+/// parsing, using and dropping the result fits in a 2 MiB stack.
+pub(crate) const MAX_NESTING: usize = 160;
+
 /// Replace doubled and escaped quotes, other escapes are kept as they are
 fn decode_quoted_string(s: &str, quote: char) -> Cow<'_, str> {
     if !s.contains(quote) && !s.contains('\\') {
@@ -84,7 +89,23 @@ impl<'a, 'b> Parser<'a, 'b> {
             delimiter: Token::SemiColon,
             options,
             permit_compound_statements: false,
+            nesting: 0,
+        }
+    }
+
+    /// Run `fun` nested by `weight`, or fail if that is nested too deeply
+    pub(crate) fn nested<T>(
+        &mut self,
+        weight: usize,
+        fun: impl FnOnce(&mut Self) -> Result<T, ParseError>,
+    ) -> Result<T, ParseError> {
+        if self.nesting + weight > MAX_NESTING {
+            return self.err_here("Nested too deeply");
         }
+        self.nesting += weight;
+        let r = fun(self);
+        self.nesting -= weight;
+        r
     }
 
     pub(crate) fn recover(
diff --git a/src/statement.rs b/src/statement.rs
index 7b09e17..e118420 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -481,6 +481,12 @@ impl Statement<'_> {
 
 pub(crate) fn parse_statement<'a>(
     parser: &mut Parser<'a, '_>,
+) -> Result<Option<Statement<'a>>, ParseError> {
+    parser.nested(2, parse_statement_nested)
+}
+
+fn parse_statement_nested<'a>(
+    parser: &mut Parser<'a, '_>,
 ) -> Result<Option<Statement<'a>>, ParseError> {
     Ok(match &parser.token {
         Token::Ident(_, Keyword::CREATE) => Some(parse_create(parser)?),
@@ -766,6 +772,12 @@ impl<'a> Copy<'a> {
 
 pub(crate) fn parse_compound_query<'a>(
     parser: &mut Parser<'a, '_>,
+) -> Result<Statement<'a>, ParseError> {
+    parser.nested(2, parse_compound_query_nested)
+}
+
+fn parse_compound_query_nested<'a>(
+    parser: &mut Parser<'a, '_>,
 ) -> Result<Statement<'a>, ParseError> {
     let q = parse_compound_query_bottom(parser)?;
     if !matches!(parser.token, Token::Ident(_, Keyword::UNION)) {
-- 
2.43.0


From 2de58da3d7b3ce189326d81162976f262c267c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:03 +0000
Subject: [PATCH 09/34] fix: positions of SELECT and DROP TABLE include their
 last clause

---
 src/drop.rs   | 1 +
 src/select.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/drop.rs b/src/drop.rs
index 7bcd1ca..53c2e7c 100644
--- a/src/drop.rs
+++ b/src/drop.rs
@@ -61,6 +61,7 @@ impl<'a> Spanned for DropTable<'a> {
             .join_span(&self.table_span)
             .join_span(&self.if_exists)
             .join_span(&self.tables)
+            .join_span(&self.cascade)
     }
 }
 
diff --git a/src/select.rs b/src/select.rs
index fa4da15..eae7132 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -651,6 +651,7 @@ impl<'a> Spanned for Select<'a> {
             .join_span(&self.window_span)
             .join_span(&self.order_by)
             .join_span(&self.limit)
+            .join_span(&self.locking)
     }
 }
 
-- 
2.43.0


From 7bc61c1f01d8a34ba5d01446d9f35e338307a504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:11 +0000
Subject: [PATCH 10/34] fix: unique and spatial indices are not full text
 indices

---
 src/alter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/alter.rs b/src/alter.rs
index 5debe01..d39d925 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -526,7 +526,7 @@ fn parse_add_alter_specification<'a>(
                     match &parser.token {
                         Token::Ident(_, kw @ Keyword::INDEX | kw @ Keyword::KEY) => {
                             let kw = *kw;
-                            IndexType::FullText(parser.consume_keyword(kw)?.join_span(&s))
+                            IndexType::Spatial(parser.consume_keyword(kw)?.join_span(&s))
                         }
                         _ => parser.expected_failure("'KEY' or 'INDEX'")?,
                     }
@@ -536,7 +536,7 @@ fn parse_add_alter_specification<'a>(
                     match &parser.token {
                         Token::Ident(_, kw @ Keyword::INDEX | kw @ Keyword::KEY) => {
                             let kw = *kw;
-                            IndexType::FullText(parser.consume_keyword(kw)?.join_span(&s))
+                            IndexType::Unique(parser.consume_keyword(kw)?.join_span(&s))
                         }
                         _ => parser.expected_failure("'KEY' or 'INDEX'")?,
                     }
-- 
2.43.0


From 9d8fd9e3a8bd5e098f99eafd1cf441ba78f39159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:11 +0000
Subject: [PATCH 11/34] fix: referential actions SET DEFAULT and NO ACTION

---
 src/alter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/alter.rs b/src/alter.rs
index d39d925..b00c77b 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -469,13 +469,13 @@ fn parse_add_alter_specification<'a>(
                             Token::Ident(_, Keyword::NULL) => ForeignKeyOnAction::SetNull(
                                 parser.consume_keyword(Keyword::NULL)?.join_span(&set),
                             ),
-                            Token::Ident(_, Keyword::DELETE) => ForeignKeyOnAction::SetDefault(
+                            Token::Ident(_, Keyword::DEFAULT) => ForeignKeyOnAction::SetDefault(
                                 parser.consume_keyword(Keyword::DEFAULT)?.join_span(&set),
                             ),
                             _ => parser.expected_failure("'NULL' or 'DEFAULT'")?,
                         }
                     }
-                    Token::Ident(_, Keyword::NO) => ForeignKeyOnAction::SetNull(
+                    Token::Ident(_, Keyword::NO) => ForeignKeyOnAction::NoAction(
                         parser.consume_keywords(&[Keyword::NO, Keyword::ACTION])?,
                     ),
                     _ => parser.expected_failure("'RESTRICT' or 'CASCADE', 'SET' or 'NO")?,
-- 
2.43.0


From c849423444f1c06ab81a008d98d75c36bfb5a91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:11 +0000
Subject: [PATCH 12/34] fix: COLLATE of a column is not its character set

---
 src/data_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 77d4307..46b6eaa 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -420,7 +420,7 @@ pub(crate) fn parse_data_type<'a>(
             }
             Token::Ident(_, Keyword::COLLATE) => {
                 parser.consume_keyword(Keyword::COLLATE)?;
-                properties.push(DataTypeProperty::Charset(
+                properties.push(DataTypeProperty::Collate(
                     parser.consume_plain_identifier()?,
                 ));
             }
-- 
2.43.0


From c7fb643c0797f9abe4394076922e7dc20e68fede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:11 +0000
Subject: [PATCH 13/34] fix: position of NATURAL LEFT and RIGHT JOIN includes
 NATURAL

---
 src/select.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index eae7132..964b7d8 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -401,7 +401,8 @@ pub(crate) fn parse_table_reference<'a>(
                             .join_span(&parser.consume_keywords(&[Keyword::INNER, Keyword::JOIN])?),
                     ),
                     Token::Ident(_, Keyword::LEFT) => {
-                        let left = parser.consume_keyword(Keyword::LEFT)?;
+                        let left =
+                            natural.join_span(&parser.consume_keyword(Keyword::LEFT)?);
                         if let Some(outer) = parser.skip_keyword(Keyword::OUTER) {
                             JoinType::NaturalLeft(
                                 left.join_span(&outer)
@@ -414,7 +415,8 @@ pub(crate) fn parse_table_reference<'a>(
                         }
                     }
                     Token::Ident(_, Keyword::RIGHT) => {
-                        let right = parser.consume_keyword(Keyword::RIGHT)?;
+                        let right =
+                            natural.join_span(&parser.consume_keyword(Keyword::RIGHT)?);
                         if let Some(outer) = parser.skip_keyword(Keyword::OUTER) {
                             JoinType::NaturalRight(
                                 right
-- 
2.43.0


From 54264bb2fc09e583440988c5f6c5c70143b206b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:35 +0000
Subject: [PATCH 14/34] fix: a WITH block that could not be parsed is not a
 BEGIN statement

---
 src/with_query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/with_query.rs b/src/with_query.rs
index 2fb94ae..4ddcb67 100644
--- a/src/with_query.rs
+++ b/src/with_query.rs
@@ -107,7 +107,7 @@ pub(crate) fn parse_with_query<'a>(
                 }
                 v
             }
-            None => Statement::Begin(lparen_span.clone()),
+            None => Statement::Invalid(lparen_span.clone()),
         };
         with_blocks.push(WithBlock {
             identifier,
-- 
2.43.0


From f436b448f70700dea1d2e775d0965e39dc5f41ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:04 +0000
Subject: [PATCH 15/34] fix: position of INSERT includes its columns

---
 src/insert_replace.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/insert_replace.rs b/src/insert_replace.rs
index 6775bb5..6441516 100644
--- a/src/insert_replace.rs
+++ b/src/insert_replace.rs
@@ -248,6 +248,7 @@ impl<'a> Spanned for InsertReplace<'a> {
             .join_span(&self.flags)
             .join_span(&self.into_span)
             .join_span(&self.table)
+            .join_span(&self.columns)
             .join_span(&self.values)
             .join_span(&self.select)
             .join_span(&self.set)
-- 
2.43.0


From a8ff4a6ef13ca879f7c546dcb1995f6640d54116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:13 +0000
Subject: [PATCH 16/34] fix: missing parts do not stretch positions to the
 start of the text

---
 src/span.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index af53270..60b4d5c 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -37,12 +37,15 @@ pub trait Spanned {
     fn span(&self) -> Span;
 
     /// Compute the minimal span containing both self and other
+    ///
+    /// The default span 0..0 stands for a missing part and is ignored
     fn join_span(&self, other: &impl OptSpanned) -> Span {
         let l = self.span();
-        if let Some(r) = other.opt_span() {
-            usize::min(l.start, r.start)..usize::max(l.end, r.end)
-        } else {
-            l
+        match other.opt_span() {
+            Some(r) if r == Span::default() => l,
+            Some(r) if l == Span::default() => r,
+            Some(r) => usize::min(l.start, r.start)..usize::max(l.end, r.end),
+            None => l,
         }
     }
 }
-- 
2.43.0


From e1980691ab496addb97103e3e8f637658d1b7311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:06 +0000
Subject: [PATCH 17/34] fix: warn_unquoted_identifiers warns about every
 unquoted identifier

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 30cc725..b5a81df 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -263,7 +263,7 @@ impl<'a, 'b> Parser<'a, 'b> {
                 } else if kw != &Keyword::QUOTED_IDENTIFIER
                     && self.options.warn_unquoted_identifiers
                 {
-                    self.err(
+                    self.warn(
                         format!("identifiers should be quoted as `{}`", v),
                         &self.span.span(),
                     );
-- 
2.43.0


From dcbb069fe486cb7ee4b280c907f0bdfa9e5526c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:17 +0000
Subject: [PATCH 18/34] fix: report floats outside the range of f64

---
 src/parser.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b5a81df..ce26987 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -392,14 +392,13 @@ impl<'a, 'b> Parser<'a, 'b> {
         }
     }
 
-    pub(crate) fn consume_float<T: core::str::FromStr + Default>(
-        &mut self,
-    ) -> Result<(T, Span), ParseError> {
+    pub(crate) fn consume_float(&mut self) -> Result<(f64, Span), ParseError> {
         match &self.token {
             Token::Float(v) => {
-                let v = match v.parse() {
-                    Ok(v) => v,
-                    Err(_) => self.err_here("float outside range").unwrap_or_default(),
+                // parsing gives infinity for what is too large
+                let v = match v.parse::<f64>() {
+                    Ok(v) if v.is_finite() => v,
+                    _ => self.err_here("float outside range").unwrap_or_default(),
                 };
                 let span = self.span.clone();
                 self.next();
-- 
2.43.0


From 26f35d1b59d53151e122dda19b94992a6a045135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:10 +0000
Subject: [PATCH 19/34] fix: do not ask for capitals where there are only
 capitals

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index ce26987..67b0003 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -286,7 +286,7 @@ impl<'a, 'b> Parser<'a, 'b> {
     pub(crate) fn consume_keyword(&mut self, keyword: Keyword) -> Result<Span, ParseError> {
         match &self.token {
             Token::Ident(v, kw) if kw == &keyword => {
-                if !v.chars().all(|c| c.is_ascii_uppercase())
+                if v.chars().any(|c| c.is_ascii_lowercase())
                     && self.options.warn_none_capital_keywords
                 {
                     self.warn(
-- 
2.43.0


From 20f55b70e8f8fe78e561e400df3673ce5e7af990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:32 +0000
Subject: [PATCH 20/34] fix: AND binds tighter than XOR, and XOR tighter than
 OR

---
 src/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index 323b6d0..5939f06 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -951,9 +951,9 @@ trait Priority {
 impl Priority for BinaryOperator {
     fn priority(&self) -> usize {
         match self {
-            BinaryOperator::Or => 140,
+            BinaryOperator::Or => 160,
             BinaryOperator::Xor => 150,
-            BinaryOperator::And => 160,
+            BinaryOperator::And => 140,
             BinaryOperator::Eq => 110,
             BinaryOperator::NullSafeEq => 110,
             BinaryOperator::GtEq => 110,
-- 
2.43.0


From 8486ee0e14976cc7be5bc5c04a82ce16cce7689e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:10 +0000
Subject: [PATCH 21/34] fix: quoted identifiers in PostgreSQL expressions are
 reported like all others

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 67b0003..e4335c0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -244,6 +244,9 @@ impl<'a, 'b> Parser<'a, 'b> {
                     && self.options.warn_unquoted_identifiers
                 {
                     self.warn(format!("identifiers should be quoted as `{}`", v), &span);
+                } else if kw == &Keyword::QUOTED_IDENTIFIER && self.options.dialect.is_postgresql()
+                {
+                    self.err("quoted identifiers not supported by postgresql", &span);
                 }
                 Ok(Identifier::new(v, span))
             }
-- 
2.43.0


From a07aeae9623699a1b1c86769b927cc8699a6cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:37 +0000
Subject: [PATCH 22/34] fix: double quoted identifiers in PostgreSQL
 expressions are not strings

---
 src/expression.rs | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index 5939f06..31030ee 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -669,6 +669,27 @@ impl<'a> Spanned for Expression<'a> {
     }
 }
 
+/// Parse the rest of an identifier starting with name
+fn parse_identifier_parts<'a>(
+    parser: &mut Parser<'a, '_>,
+    name: Identifier<'a>,
+) -> Result<Expression<'a>, ParseError> {
+    let mut parts = vec![IdentifierPart::Name(name)];
+    while parser.skip_token(Token::Period).is_some() {
+        match &parser.token {
+            Token::Mul => parts.push(IdentifierPart::Star(parser.consume_token(Token::Mul)?)),
+            Token::Ident(_, _) => {
+                parts.push(IdentifierPart::Name(parser.consume_plain_identifier()?))
+            }
+            Token::DoubleQuotedString(_) if parser.options.dialect.is_postgresql() => {
+                parts.push(IdentifierPart::Name(parser.consume_plain_identifier()?))
+            }
+            _ => parser.expected_failure("Identifier or '*'")?,
+        }
+    }
+    Ok(Expression::Identifier(parts))
+}
+
 fn parse_function<'a>(
     parser: &mut Parser<'a, '_>,
     t: Token<'a>,
@@ -1366,6 +1387,10 @@ fn parse_expression_nested<'a>(
                     parser.consume_keyword(Keyword::_LIST_)?,
                 )))
             }
+            Token::DoubleQuotedString(_) if parser.options.dialect.is_postgresql() => {
+                let name = parser.consume_plain_identifier()?;
+                r.shift_expr(parse_identifier_parts(parser, name)?)
+            }
             Token::SingleQuotedString(_) | Token::DoubleQuotedString(_) => {
                 r.shift_expr(Expression::String(parser.consume_string()?))
             }
@@ -1492,22 +1517,8 @@ fn parse_expression_nested<'a>(
                     if let Some(f) = f {
                         r.shift_expr(Expression::Function(f, Vec::new(), s))
                     } else {
-                        let mut parts = vec![IdentifierPart::Name(
-                            parser.token_to_plain_identifier(&i, s)?,
-                        )];
-                        loop {
-                            if parser.skip_token(Token::Period).is_none() {
-                                break;
-                            }
-                            match &parser.token {
-                                Token::Mul => parts
-                                    .push(IdentifierPart::Star(parser.consume_token(Token::Mul)?)),
-                                Token::Ident(_, _) => parts
-                                    .push(IdentifierPart::Name(parser.consume_plain_identifier()?)),
-                                _ => parser.expected_failure("Identifier or '*'")?,
-                            }
-                        }
-                        r.shift_expr(Expression::Identifier(parts))
+                        let name = parser.token_to_plain_identifier(&i, s)?;
+                        r.shift_expr(parse_identifier_parts(parser, name)?)
                     }
                 }
             }
-- 
2.43.0


From 56a1e4ac84983b7dbd843668d35ec363d17073d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:32 +0000
Subject: [PATCH 23/34] fix: accept the column list of JOIN ... USING in
 parentheses

---
 src/select.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/select.rs b/src/select.rs
index 964b7d8..cd2c8d2 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -448,6 +448,7 @@ pub(crate) fn parse_table_reference<'a>(
             }
             Token::Ident(_, Keyword::USING) => {
                 let using = parser.consume_keyword(Keyword::USING)?;
+                let parenthesised = parser.skip_token(Token::LParen).is_some();
                 let mut join_column_list = Vec::new();
                 loop {
                     join_column_list.push(parser.consume_plain_identifier()?);
@@ -455,6 +456,9 @@ pub(crate) fn parse_table_reference<'a>(
                         break;
                     }
                 }
+                if parenthesised {
+                    parser.consume_token(Token::RParen)?;
+                }
                 Some(JoinSpecification::Using(join_column_list, using))
             }
             _ => None,
-- 
2.43.0


From 3cf477b2761b3332ffb6a005bc02c0bae7aa91e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:32 +0000
Subject: [PATCH 24/34] fix: accept CREATE FUNCTION without parameters

---
 src/create.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/create.rs b/src/create.rs
index f52191d..ec70ad5 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -589,6 +589,9 @@ fn parse_create_function<'a>(
     parser.consume_token(Token::LParen)?;
     parser.recovered("')'", &|t| t == &Token::RParen, |parser| {
         loop {
+            if params.is_empty() && parser.token == Token::RParen {
+                break;
+            }
             let direction = match &parser.token {
                 Token::Ident(_, Keyword::IN) => {
                     let in_ = parser.consume_keyword(Keyword::IN)?;
-- 
2.43.0


From fdf0e9482a5f3ce4a6228dc82e471056005f2e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:32 +0000
Subject: [PATCH 25/34] fix: accept END CASE at the end of a CASE statement

---
 src/statement.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/statement.rs b/src/statement.rs
index e118420..e6a0a0e 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -621,7 +621,10 @@ pub(crate) fn parse_case_statement<'a>(
             Ok(())
         },
     )?;
-    let end_span = parser.consume_keyword(Keyword::END)?;
+    let mut end_span = parser.consume_keyword(Keyword::END)?;
+    if let Some(case_span) = parser.skip_keyword(Keyword::CASE) {
+        end_span = end_span.join_span(&case_span);
+    }
     Ok(CaseStatement {
         case_span,
         value,
-- 
2.43.0


From cd8729d6b250a0723454b2a9f13f8c8b0235e4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:32 +0000
Subject: [PATCH 26/34] fix: accept double quoted PostgreSQL names as table
 references, aliases, columns and constraints

---
 src/alter.rs  | 21 ++++++++++++---------
 src/create.rs |  2 +-
 src/parser.rs |  9 +++++++++
 src/select.rs | 10 +++-------
 4 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/alter.rs b/src/alter.rs
index b00c77b..9b697e7 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -415,9 +415,10 @@ fn parse_add_alter_specification<'a>(
 ) -> Result<AlterSpecification<'a>, ParseError> {
     let add_span = parser.consume_keyword(Keyword::ADD)?;
     let constraint = if let Some(span) = parser.skip_keyword(Keyword::CONSTRAINT) {
-        let v = match &parser.token {
-            Token::Ident(_, kw) if !kw.reserved() => Some(parser.consume_plain_identifier()?),
-            _ => None,
+        let v = if parser.at_plain_identifier() {
+            Some(parser.consume_plain_identifier()?)
+        } else {
+            None
         };
         Some((span, v))
     } else {
@@ -435,9 +436,10 @@ fn parse_add_alter_specification<'a>(
             } else {
                 None
             };
-            let name = match &parser.token {
-                Token::Ident(_, kw) if !kw.reserved() => Some(parser.consume_plain_identifier()?),
-                _ => None,
+            let name = if parser.at_plain_identifier() {
+                Some(parser.consume_plain_identifier()?)
+            } else {
+                None
             };
 
             let cols = parse_index_cols(parser)?;
@@ -554,9 +556,10 @@ fn parse_add_alter_specification<'a>(
                 None
             };
 
-            let name = match &parser.token {
-                Token::Ident(_, kw) if !kw.reserved() => Some(parser.consume_plain_identifier()?),
-                _ => None,
+            let name = if parser.at_plain_identifier() {
+                Some(parser.consume_plain_identifier()?)
+            } else {
+                None
             };
 
             let mut index_options = Vec::new();
diff --git a/src/create.rs b/src/create.rs
index ec70ad5..0b6a971 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -404,7 +404,7 @@ pub(crate) fn parse_create_definition<'a>(
 ) -> Result<CreateDefinition<'a>, ParseError> {
     match &parser.token {
         Token::Ident(_, Keyword::CONSTRAINT) => parse_create_constraint_definition(parser),
-        Token::Ident(_, _) => Ok(CreateDefinition::ColumnDefinition {
+        Token::Ident(_, _) | Token::DoubleQuotedString(_) => Ok(CreateDefinition::ColumnDefinition {
             identifier: parser.consume_plain_identifier()?,
             data_type: parse_data_type(parser, false)?,
         }),
diff --git a/src/parser.rs b/src/parser.rs
index e4335c0..5f760d3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -254,6 +254,15 @@ impl<'a, 'b> Parser<'a, 'b> {
         }
     }
 
+    /// True if the current token can only be a name
+    pub(crate) fn at_plain_identifier(&self) -> bool {
+        match &self.token {
+            Token::Ident(_, kw) => !kw.reserved(),
+            Token::DoubleQuotedString(_) => self.options.dialect.is_postgresql(),
+            _ => false,
+        }
+    }
+
     pub(crate) fn consume_plain_identifier(&mut self) -> Result<Identifier<'a>, ParseError> {
         match &self.token {
             Token::Ident(v, kw) => {
diff --git a/src/select.rs b/src/select.rs
index cd2c8d2..0948418 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -249,9 +249,7 @@ pub(crate) fn parse_table_reference_inner<'a>(
         Token::Ident(_, Keyword::SELECT) | Token::LParen => {
             let query = parse_compound_query(parser)?;
             let as_span = parser.skip_keyword(Keyword::AS);
-            let as_ = if as_span.is_some()
-                || (matches!(&parser.token, Token::Ident(_, k) if !k.reserved()))
-            {
+            let as_ = if as_span.is_some() || parser.at_plain_identifier() {
                 Some(parser.consume_plain_identifier()?)
             } else {
                 None
@@ -262,14 +260,12 @@ pub(crate) fn parse_table_reference_inner<'a>(
                 as_,
             })
         }
-        Token::Ident(_, _) => {
+        Token::Ident(_, _) | Token::DoubleQuotedString(_) => {
             let identifier = parse_qualified_name(parser)?;
 
             // TODO [PARTITION (partition_names)] [[AS] alias]
             let as_span = parser.skip_keyword(Keyword::AS);
-            let as_ = if as_span.is_some()
-                || (matches!(&parser.token, Token::Ident(_, k) if !k.reserved()))
-            {
+            let as_ = if as_span.is_some() || parser.at_plain_identifier() {
                 Some(parser.consume_plain_identifier()?)
             } else {
                 None
-- 
2.43.0


From 51befd6cbfec601bb7958d43dd9bf6de887442e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:07 +0000
Subject: [PATCH 27/34] fix: accept BEGIN ... END as the body of a function

---
 src/create.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/create.rs b/src/create.rs
index 0b6a971..edd0415 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -702,7 +702,10 @@ fn parse_create_function<'a>(
     }
 
     let return_ = if parser.options.dialect.is_maria() {
-        match parse_statement(parser)? {
+        let old = core::mem::replace(&mut parser.permit_compound_statements, true);
+        let statement = parse_statement(parser);
+        parser.permit_compound_statements = old;
+        match statement? {
             Some(v) => Some(Box::new(v)),
             None => parser.expected_failure("statement")?,
         }
-- 
2.43.0


From 54f1946120c334fcb1605ba51ee3ce904999518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:07 +0000
Subject: [PATCH 28/34] fix: END closes the blocks and branches of DO, IF and
 CASE outside of triggers

---
 src/statement.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/statement.rs b/src/statement.rs
index e6a0a0e..a92b19b 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -96,7 +96,9 @@ fn parse_statement_list<'a>(
     out: &mut Vec<Statement<'a>>,
 ) -> Result<(), ParseError> {
     let old_delimiter = core::mem::replace(&mut parser.delimiter, Token::SemiColon);
+    let old_permit = core::mem::replace(&mut parser.permit_compound_statements, true);
     let r = parse_statement_list_inner(parser, out);
+    parser.permit_compound_statements = old_permit;
     parser.delimiter = old_delimiter;
     r
 }
@@ -530,6 +532,7 @@ pub(crate) fn parse_do<'a>(parser: &mut Parser<'a, '_>) -> Result<Statement<'a>,
     parser.consume_keyword(Keyword::DO)?;
     parser.consume_token(Token::DoubleDollar)?;
     let block = parse_block(parser)?;
+    parser.skip_token(Token::SemiColon);
     parser.consume_token(Token::DoubleDollar)?;
     Ok(Statement::Do(block))
 }
-- 
2.43.0


From 2dd25336c2bdf587b4e0a1b70eb8d7edbe89b764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:05 +0000
Subject: [PATCH 29/34] fix: do not take a double quoted PostgreSQL name as a
 part of a string

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5f760d3..bc41e07 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -361,7 +361,7 @@ impl<'a, 'b> Parser<'a, 'b> {
                 self.next();
                 (decode_single_quoted_string(v), span)
             }
-            Token::DoubleQuotedString(v) => {
+            Token::DoubleQuotedString(v) if !self.options.dialect.is_postgresql() => {
                 let v = *v;
                 let span = self.span.clone();
                 self.next();
@@ -376,7 +376,7 @@ impl<'a, 'b> Parser<'a, 'b> {
                     a.to_mut().push_str(decode_single_quoted_string(v).as_ref());
                     self.next();
                 }
-                Token::DoubleQuotedString(v) => {
+                Token::DoubleQuotedString(v) if !self.options.dialect.is_postgresql() => {
                     b = b.join_span(&self.span);
                     a.to_mut().push_str(decode_double_quoted_string(v).as_ref());
                     self.next();
-- 
2.43.0


From d79be2597c04102bd1818c85ee81ca85d058f0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:39 +0000
Subject: [PATCH 30/34] fix: RIGHT JOIN after an ON condition

---
 src/expression.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index 31030ee..45d3136 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1487,13 +1487,15 @@ fn parse_expression_nested<'a>(
                     r.shift_expr(Expression::Invalid(extract_span))
                 }
             }
-            Token::Ident(_, Keyword::LEFT) if matches!(parser.peek(), Token::LParen) => {
+            Token::Ident(_, Keyword::LEFT | Keyword::RIGHT)
+                if matches!(parser.peek(), Token::LParen) =>
+            {
                 let i = parser.token.clone();
                 let s = parser.span.clone();
                 parser.consume();
                 r.shift_expr(parse_function(parser, i, s)?)
             }
-            Token::Ident(_, k) if k.expr_ident() => {
+            Token::Ident(_, k) if k.expr_ident() && k != Keyword::RIGHT => {
                 let i = parser.token.clone();
                 let s = parser.span.clone();
                 parser.consume();
-- 
2.43.0


From d095f9290ae796367089ecf1d2cb1d7e1b8516bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:44 +0000
Subject: [PATCH 31/34] fix: end the value of DEFAULT at the next column
 property

---
 src/expression.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/expression.rs b/src/expression.rs
index 45d3136..7b0c802 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1106,6 +1106,13 @@ fn parse_expression_nested<'a>(
     let mut r = Reducer { stack: Vec::new() };
     loop {
         let e = match parser.token.clone() {
+            // The value of a default or a limit is a single operand, a word after it
+            // is the next property or clause
+            Token::Ident(_, _)
+                if inner && matches!(r.stack.last(), Some(ReduceMember::Expression(_))) =>
+            {
+                break;
+            }
             Token::Ident(_, Keyword::OR) | Token::DoublePipe if !inner => {
                 r.shift_binop(parser.consume(), BinaryOperator::Or)
             }
-- 
2.43.0


From 12750876633f50b10b8ed46ab84c29693902f3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:02 +0000
Subject: [PATCH 32/34] fix: function characteristics directly after the return
 type

---
 src/data_type.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data_type.rs b/src/data_type.rs
index 46b6eaa..17bcfc4 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -406,7 +406,12 @@ pub(crate) fn parse_data_type<'a>(
             Token::Ident(_, Keyword::NULL) => properties.push(DataTypeProperty::Null(
                 parser.consume_keyword(Keyword::NULL)?,
             )),
+            // The characteristics of a function follow its return type
+            Token::Ident(_, Keyword::COMMENT) if no_as => break,
             Token::Ident(_, Keyword::NOT) => {
+                if no_as && matches!(parser.peek(), Token::Ident(_, Keyword::DETERMINISTIC)) {
+                    break;
+                }
                 let start = parser.consume_keyword(Keyword::NOT)?.start;
                 properties.push(DataTypeProperty::NotNull(
                     start..parser.consume_keyword(Keyword::NULL)?.end,
-- 
2.43.0


From b59c3823e0da1aa51b2132ddff8e3abf48ca0c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:28 +0000
Subject: [PATCH 33/34] fix: %d is a placeholder next to %s, as documented

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 49dc95e..d7c8901 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -254,7 +254,7 @@ impl<'a> Lexer<'a> {
                 '+' => Token::Plus,
                 '*' => Token::Mul,
                 '%' => match self.chars.peek() {
-                    Some((_, 's')) => {
+                    Some((_, 's' | 'd')) => {
                         self.chars.next();
                         Token::PercentS
                     }
-- 
2.43.0


From b0f9d8f0f051346f191f0875b7a4d199730ad10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:24 +0000
Subject: [PATCH 34/34] fix: INSERT, REPEAT and POSITION may be called as
 functions

---
 src/expression.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index 7b0c802..1b5bfe1 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1494,9 +1494,14 @@ fn parse_expression_nested<'a>(
                     r.shift_expr(Expression::Invalid(extract_span))
                 }
             }
-            Token::Ident(_, Keyword::LEFT | Keyword::RIGHT)
-                if matches!(parser.peek(), Token::LParen) =>
-            {
+            Token::Ident(
+                _,
+                Keyword::LEFT
+                | Keyword::RIGHT
+                | Keyword::INSERT
+                | Keyword::REPEAT
+                | Keyword::POSITION,
+            ) if matches!(parser.peek(), Token::LParen) => {
                 let i = parser.token.clone();
                 let s = parser.span.clone();
                 parser.consume();
-- 
2.43.0

