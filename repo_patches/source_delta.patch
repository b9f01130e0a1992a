From 4d1f33d615c55c6891ba0d425ae68320389aa09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 01/34] fix: parse comprehension and for-loop targets as
 expressions, not comparisons

---
 src/parser/expressions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 894b7f4..8bbec16 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -999,7 +999,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyMul(..) => {
                         nodes_list.push(self.parse_expressions_star_expr()?)
                     },
-                    _ => nodes_list.push(self.parse_expressions_named_expression()?)
+                    _ => nodes_list.push(self.parse_expressions_expr()?)
                 }
             },
             _ => return Err(format!("SyntaxError at {}: Expecting symbol in list expression!", self.lexer.get_position()))
@@ -1022,7 +1022,7 @@ impl Expressions for PythonCoreParser {
                                             true
                                         },
                                         _ => {
-                                            nodes_list.push(self.parse_expressions_named_expression()?);
+                                            nodes_list.push(self.parse_expressions_expr()?);
                                             true
                                         }
                                     }
-- 
2.43.0


From 57bd65ddecf61fc1611c6e07a6348974eb921bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 02/34] fix: accept a trailing comma at the end of an
 expression list (del a,)

---
 src/parser/expressions.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 8bbec16..5cfb856 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1015,7 +1015,10 @@ impl Expressions for PythonCoreParser {
                             match &self.symbol {
                                 Ok(s2) => {
                                     match &(**s2) {
-                                        Token::PyIn(..) => false,
+                                        Token::PyIn(..) |
+                                        Token::Newline(..) |
+                                        Token::PySemiColon(..) |
+                                        Token::EOF(..) => false,
                                         Token::PyComa(..) => return Err(format!("SyntaxError at {}: Missing elements between two ',' in list expression!", self.lexer.get_position())),
                                         Token::PyMul(..) => {
                                             nodes_list.push(self.parse_expressions_star_expr()?);
-- 
2.43.0


From 4dec1c93ecf035a940eeed5806833e304f25d10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 03/34] fix: import statement recursed into itself without end

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index fc937b5..678a90d 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -716,7 +716,7 @@ impl Statements for PythonCoreParser {
             Ok(s) => {
                 match &*s {
                     Token::PyImport(..) => {
-                        self.parse_statements_import_stmt()
+                        self.parse_statements_import_name()
                     },
                     Token::PyFrom(..) => {
                         self.parse_statements_import_from()
-- 
2.43.0


From cbfe290d20a33a8f7756b5f0ec93de2fb6459bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:56 +0000
Subject: [PATCH 04/34] fix: {} is an empty dictionary

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 5cfb856..5f04293 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -185,7 +185,7 @@ impl Expressions for PythonCoreParser {
                                                     _ => Ok(Box::new(ASTNode::AtomDictionary(start_pos, self.lexer.get_position(), Box::new(symbol1), None, Box::new(symbol2))))
                                                 }
                                             },
-                                            None => Err(format!("SyntaxError at {}: Expecting dictionary/set in atom expression!", start_pos))
+                                            None => Ok(Box::new(ASTNode::AtomDictionary(start_pos, self.lexer.get_position(), Box::new(symbol1), None, Box::new(symbol2))))
                                         }
                                     },
                                     _ => Err(format!("SyntaxError at {}: Expecting end marker in dictionary/set atom expression!", start_pos))
-- 
2.43.0


From 74b69503d5f11957864d5b2372af4220b566914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 05/34] fix: dictionary display stopped after its second entry

---
 src/parser/expressions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 5f04293..c6d7499 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1178,8 +1178,8 @@ impl Expressions for PythonCoreParser {
                                             }
                                         },
                                         _ => return Err(format!("SyntaxError at {}: Expecting symbol in argument list expression!", self.lexer.get_position()))
-                                    };
-                                    false
+                                            };
+                                            true
                                 },
                                 _ => false
                             }
-- 
2.43.0


From 97f64ebacb8c035f31a85baba5ab6d7593f00cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 06/34] fix: start position of later dictionary and set entries

---
 src/parser/expressions.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index c6d7499..d54065a 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1147,6 +1147,7 @@ impl Expressions for PythonCoreParser {
                                     let _ = self.advance();
                                     match &self.symbol {
                                         Ok(s2) => {
+                                            let entry_pos = self.lexer.get_position();
                                             match &(**s2) {
                                                 Token::PyRightCurly(..) => false,
                                                 Token::PyComa(..) => return Err(format!("SyntaxError at {}: Missing elements between two ',' in set list expression!", self.lexer.get_position())),
@@ -1154,7 +1155,7 @@ impl Expressions for PythonCoreParser {
                                                     let symbol2 = (**s2).clone();
                                                     let _ = self.advance();
                                                     let right_node = self.parse_expressions_expr()?;
-                                                    nodes_list.push( Box::new( ASTNode::PowerDictionary(start_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );
+                                                    nodes_list.push( Box::new( ASTNode::PowerDictionary(entry_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );
                                                     true
                                                 },
                                                 _ => {
@@ -1166,7 +1167,7 @@ impl Expressions for PythonCoreParser {
                                                                     let symbol3 = (**s3).clone();
                                                                     let _ = self.advance();
                                                                     let right_node = self.parse_expressions_test()?;
-                                                                    nodes_list.push( Box::new( ASTNode::DictionaryEntry(start_pos, self.lexer.get_position(), left_node, Box::new(symbol3), right_node) ) );
+                                                                    nodes_list.push( Box::new( ASTNode::DictionaryEntry(entry_pos, self.lexer.get_position(), left_node, Box::new(symbol3), right_node) ) );
                                                                     true
                                                                 },
                                                                 _ => return Err(format!("SyntaxError at {}: Expecting ':' in dictionary entry expression!", self.lexer.get_position()))
@@ -1198,6 +1199,7 @@ impl Expressions for PythonCoreParser {
                                     let _ = self.advance();
                                     match &self.symbol {
                                         Ok(s2) => {
+                                            let entry_pos = self.lexer.get_position();
                                             match &(**s2) {
                                                 Token::PyRightCurly(..) => false,
                                                 Token::PyComa(..) => return Err(format!("SyntaxError at {}: Missing elements between two ',' in set list expression!", self.lexer.get_position())),
@@ -1205,7 +1207,7 @@ impl Expressions for PythonCoreParser {
                                                     let symbol2 = (**s2).clone();
                                                     let _ = self.advance();
                                                     let right_node = self.parse_expressions_expr()?;
-                                                    nodes_list.push( Box::new( ASTNode::MulSet(start_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );
+                                                    nodes_list.push( Box::new( ASTNode::MulSet(entry_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );
                                                     true
                                                 },
                                                 _ => {
-- 
2.43.0


From 4fd39a2fe2290fb5f91d5cc05cd147d694e193a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 07/34] fix: accept a trailing comma in tuple and list displays

---
 src/parser/expressions.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index d54065a..4da56d8 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -805,12 +805,14 @@ impl Expressions for PythonCoreParser {
                                                     Token::PyMul(..) => {
                                                         nodes_list.push(self.parse_expressions_star_expr()?)
                                                     },
+                                                    Token::PyRightParen(..) |
+                                                    Token::PyRightBracket(..) => { },
                                                     _ => nodes_list.push(self.parse_expressions_named_expression()?)
-                                                }
-                                            },
-                                            _ => return Err(format!("SyntaxError at {}: Expecting symbol in list expression!", self.lexer.get_position()))
-                                        }
-                                        true
+                                                                                                    }
+                                                                                                },
+                                                                                                _ => return Err(format!("SyntaxError at {}: Expecting symbol in list expression!", self.lexer.get_position()))
+                                                                                            }
+                                                                                            true
                                     },
                                     _ => false
                                 }
-- 
2.43.0


From 092fc92f07491f7db6fb9b83ff632f92628ae156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 08/34] fix: slice parsing swallowed the closing bracket after
 its second part

---
 src/parser/expressions.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 4da56d8..3b6779c 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -954,6 +954,7 @@ impl Expressions for PythonCoreParser {
                             Ok(s3) => {
                                 match &**s3 {
                                     Token::PyRightBracket(..) |
+                                    Token::PyComa(..) |
                                     Token::PyColon(..) => { },
                                     _ => second_node = Some(self.parse_expressions_test()?)
                                 }
@@ -962,7 +963,7 @@ impl Expressions for PythonCoreParser {
                         };
                         match &self.symbol {
                             Ok(s3) => {
-                                match &**s2{
+                                match &**s3{
                                     Token::PyColon(..) => {
                                         symbol2 = Some(Box::new((**s3).clone()));
                                         let _ = self.advance();
@@ -970,6 +971,7 @@ impl Expressions for PythonCoreParser {
                                             Ok(s4) => {
                                                 match &**s4 {
                                                     Token::PyRightBracket(..) |
+                                                    Token::PyComa(..) |
                                                     Token::PyColon(..) => { },
                                                     _ => third_node = Some(self.parse_expressions_test()?)
                                                 }
-- 
2.43.0


From bd53f0cdc7f87dcc6234f1d1ddd9e62d87db57d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 09/34] fix: accept a trailing comma in a subscript list

---
 src/parser/expressions.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 3b6779c..7f8588f 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -915,7 +915,15 @@ impl Expressions for PythonCoreParser {
                             let symbol1 = (**s).clone();
                             separators_list.push( Box::new(symbol1) );
                             let _ = self.advance();
-                            nodes_list.push( self.parse_expressions_subscript()? );
+                            match &self.symbol {
+                                Ok(s2) => {
+                                    match &**s2 {
+                                        Token::PyRightBracket(..) => { },
+                                        _ => nodes_list.push( self.parse_expressions_subscript()? )
+                                    }
+                                },
+                                _ => return Err(format!("Syntax Error at {} - Expecting symbol in subscript list expression!", self.lexer.get_position()))
+                            }
                             true
                         },
                         _ => false
-- 
2.43.0


From 1e315b611475a4a1bfd03d93da52f59d121cb7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 10/34] fix: parse call arguments as an argument list, not as
 subscripts

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 7f8588f..c0943a7 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -843,7 +843,7 @@ impl Expressions for PythonCoreParser {
                             Ok(s2) => {
                                 match &(**s2) {
                                     Token::PyRightParen(..) => { },
-                                    _ => right = Some(self.parse_expressions_subscript_list()?)
+                                    _ => right = Some(self.parse_expressions_arglist()?)
                                 }
                             },
                             _ => return Err(format!("Syntax Error at {} - Expecting symbol in trailer expression!", self.lexer.get_position()))
-- 
2.43.0


From acc01d476e32611ca31abaaafa333bc704163c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 11/34] fix: assert takes its message after ',' and not after
 'from'

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 678a90d..9a17882 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1156,7 +1156,7 @@ impl Statements for PythonCoreParser {
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
-                                    Token::PyFrom(..) => {
+                                    Token::PyComa(..) => {
                                         let symbol2 = s2;
                                         let _ = self.advance();
                                         let right_node = self.parse_expressions_test()?;
-- 
2.43.0


From f5fc36a44b3cc9cb8e0cd46e8b2212bc558b12ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 12/34] fix: 'async def' parsed its function as a class

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 9a17882..77af37e 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1228,7 +1228,7 @@ impl Statements for PythonCoreParser {
                             Ok(s) => {
                                 match &*s {
                                     Token::PyDef(..) => {
-                                        let right_node = self.parse_blocks_class_def()?;
+                                        let right_node = self.parse_blocks_func_def()?;
                                         Ok(Box::new( ASTNode::AsyncStmt(start_pos, self.lexer.get_position(), symbol, right_node) ))
                                     },
                                     Token::PyWith(..) => {
-- 
2.43.0


From 0fa256724e1bc3507731bab71f432a4b32483812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 13/34] fix: decorator did not move past its newline

---
 src/parser/blocks.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index 135df0a..9720da1 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -250,6 +250,7 @@ impl Blocks for PythonCoreParser {
                                 match &*s5 {
                                     Token::Newline(..) => {
                                         let symbol4 = s5;
+                                        let _ = self.advance();
                                         Ok(Box::new( ASTNode::Decorator(start_pos, self.lexer.get_position(), symbol1, left_node,  symbol2, right_node, symbol3, symbol4) ))
                                     },
                                     _ => Err(format!("SyntaxError at {}: Expecting end of file in function input!", start_pos))
-- 
2.43.0


From 69bb91105a32430f0d5012d3ff838db39f31fbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 14/34] fix: 'with x as y' built an except node

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 77af37e..e5683cf 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1715,7 +1715,7 @@ impl Statements for PythonCoreParser {
                         let symbol = s;
                         let _ = self.advance();
                         let right_node = self.parse_expressions_expr()?;
-                        Ok(Box::new( ASTNode::ExceptStmt(start_pos, self.lexer.get_position(), left_node, symbol, right_node) ))
+                        Ok(Box::new( ASTNode::WithItem(start_pos, self.lexer.get_position(), left_node, Some( (symbol, right_node) )) ))
                     },
                     _ => {
                         Ok(Box::new( ASTNode::WithItem(start_pos, self.lexer.get_position(), left_node, None) ))
-- 
2.43.0


From c22f5a5a8de063d12b6ad0823588c32f84b59c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 15/34] fix: class bases are call arguments, not lambda
 parameters

---
 src/parser/blocks.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index 9720da1..de02a5c 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -630,7 +630,7 @@ impl Blocks for PythonCoreParser {
                                                             Ok(s5) => {
                                                                 match &*s5 {
                                                                     Token::PyRightParen(..) => None,
-                                                                    _ => Some(self.parse_expressions_var_args_list()?)
+                                                                    _ => Some(self.parse_expressions_arglist()?)
                                                                 }
                                                             },
                                                             _ => return Err(format!("SyntaxError at {}: Expecting symbol in class statement!", start_pos))
-- 
2.43.0


From ea475ba13ec41567bd34b66ae7eb3bc72531263f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 16/34] fix: a function definition needs its parameter list

---
 src/parser/blocks.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index de02a5c..c288464 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -359,8 +359,8 @@ impl Blocks for PythonCoreParser {
                                                 match &*s3 {
                                                     Token::PyLeftParen(..) => {
                                                         Some(self.parse_blocks_parameters()?)
-                                                    },
-                                                    _ => None
+                                                                                                        },
+                                                                                                        _ => return Err(format!("Syntax Error at {} - Expecting parameters in function statement!", start_pos))
                                                 }
                                             },
                                             _ => return Err(format!("SyntaxError at {}: Expecting 'def' in function statement!", start_pos))
-- 
2.43.0


From 43fabe012af5da2e2c67841cae35ce9963f7a10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 17/34] fix: conditions of if, elif and while may be assignment
 expressions

---
 src/parser/statements.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index e5683cf..5ca9f50 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1260,7 +1260,7 @@ impl Statements for PythonCoreParser {
                     Token::PyIf(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        let left_node = self.parse_expressions_test()?;
+                        let left_node = self.parse_expressions_named_expression()?;
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
@@ -1319,7 +1319,7 @@ impl Statements for PythonCoreParser {
                     Token::PyElif(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        let left_node = self.parse_expressions_test()?;
+                        let left_node = self.parse_expressions_named_expression()?;
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
@@ -1381,7 +1381,7 @@ impl Statements for PythonCoreParser {
                     Token::PyWhile(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        let left_node = self.parse_expressions_test()?;
+                        let left_node = self.parse_expressions_named_expression()?;
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
-- 
2.43.0


From 7e14d41d38e14b071539a9524348511ccc5627be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 18/34] fix: accept a trailing comma before ':', '=' or a type
 comment in a test list

---
 src/parser/expressions.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index c0943a7..7652853 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1077,6 +1077,9 @@ impl Expressions for PythonCoreParser {
                                     match &(**s2) {
                                         Token::Newline(..) |
                                         Token::PySemiColon(..) |
+                                        Token::PyColon(..) |
+                                        Token::PyAssign(..) |
+                                        Token::TypeComment(..) |
                                         Token::EOF(..) => false,
                                         Token::PyComa(..) => return Err(format!("SyntaxError at {}: Missing elements between two ',' in list expression!", self.lexer.get_position())),
                                         _ => {
-- 
2.43.0


From 20f55b4eb76940f351b7ebdc896cbc1dd84a694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 19/34] fix: accept a trailing comma in a parenthesised yield

---
 src/parser/expressions.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 7652853..718b192 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1528,6 +1528,7 @@ impl Expressions for PythonCoreParser {
                                         Token::PySemiColon( .. ) |
                                         Token::Newline( .. ) |
                                         Token::EOF( .. ) |
+                                        Token::PyRightParen( .. ) |
                                         Token::PyColon( .. ) => false,
                                         Token::PyComa(..) => return Err(format!("SyntaxError at {}: Missing elements between two ',' in list expression!", self.lexer.get_position())),
                                         Token::PyMul(..) => {
-- 
2.43.0


From 26eee0c908ba359168eb9f032d4bb64e7b25306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 20/34] fix: accept a trailing comma in a parenthesised import
 list

---
 src/parser/statements.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 5ca9f50..78cf51f 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -941,7 +941,15 @@ impl Statements for PythonCoreParser {
                         Token::PyComa(..) => {
                             separators_list.push( s );
                             let _ = self.advance();
-                            nodes_list.push( self.parse_statements_import_as_name()? );
+                            match self.symbol.clone() {
+                                Ok(s2) => {
+                                    match &*s2 {
+                                        Token::PyRightParen(..) => { },
+                                        _ => nodes_list.push( self.parse_statements_import_as_name()? )
+                                    }
+                                },
+                                _ => return Err(format!("Syntax Error at {} - Expecting symbol in import statement!", start_pos))
+                            }
                             true
                         },
                         _ => false
-- 
2.43.0


From e86e83a5bbe0c3dda8c2f766aaa936450f218ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 21/34] fix: nested try statement disturbed the except kind of
 the outer one

---
 src/parser/statements.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 78cf51f..4b27cf8 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1503,7 +1503,7 @@ impl Statements for PythonCoreParser {
                     Token::PyTry(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        self.except_status = ET::ExceptNone;
+                        let outer_status = std::mem::replace(&mut self.except_status, ET::ExceptNone);
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
@@ -1516,6 +1516,7 @@ impl Statements for PythonCoreParser {
                                                 match &*s3 {
                                                     Token::PyFinally(..) => {
                                                         let right_node = Some( self.parse_statements_finally_stmt()? );
+                                                        self.except_status = outer_status;
                                                         Ok(Box::new( ASTNode::TryStmt(start_pos, self.lexer.get_position(), symbol1, symbol2, left_node, None, None, right_node) ))
                                                     },
                                                     _ => {
@@ -1559,6 +1560,7 @@ impl Statements for PythonCoreParser {
                                                             _ => return Err(format!("SyntaxError at {}: Expecting symbol in try statement!", start_pos))
                                                         }
                                                         nodes_list.reverse();
+                                                        self.except_status = outer_status;
                                                         Ok(Box::new( ASTNode::TryStmt(start_pos, self.lexer.get_position(), symbol1, symbol2, left_node, Some( nodes_list ), else_node, right_node) ))
                                                     }
                                                 }
-- 
2.43.0


From a3d50a785326d45998eaa1a3fc38e51bc77be6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 22/34] fix: accept a trailing comma in a lambda parameter list

---
 src/parser/expressions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 718b192..d891a7e 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1605,6 +1605,7 @@ impl Expressions for PythonCoreParser {
                                                             }
                                                             false
                                                         },
+                                                        Token::PyColon(..) => false,
                                                         _ => {
                                                             nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                             true
@@ -1667,6 +1668,7 @@ impl Expressions for PythonCoreParser {
                                                                                                 coma_found = true;
                                                                                                 false
                                                                                             },
+                                                                                            Token::PyColon(..) => false,
                                                                                             _ => {
                                                                                                 nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                                                                 true
@@ -1717,6 +1719,7 @@ impl Expressions for PythonCoreParser {
                                                                                                                 }
                                                                                                                 false
                                                                                                             },
+                                                                                                            Token::PyColon(..) => false,
                                                                                                             _ => {
                                                                                                                 nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                                                                                 true
@@ -1791,6 +1794,7 @@ impl Expressions for PythonCoreParser {
                                                                                                 }
                                                                                                 false
                                                                                             },
+                                                                                            Token::PyColon(..) => false,
                                                                                             _ => {
                                                                                                 nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                                                                 true
@@ -1825,6 +1829,7 @@ impl Expressions for PythonCoreParser {
                                                             }
                                                             false
                                                         },
+                                                        Token::PyColon(..) => false,
                                                         _ => {
                                                             nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                             true
-- 
2.43.0


From 99bb9c7a4d42c572e7863f0083b49ddf90455688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 23/34] fix: accept a bare '*' before keyword-only lambda
 parameters

---
 src/parser/expressions.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index d891a7e..37ee651 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1576,7 +1576,10 @@ impl Expressions for PythonCoreParser {
                     Token::PyMul(..) => {
                         mul_symbol = Some( s.clone() );
                         let _ = self.advance();
-                        mul_node = Some( self.parse_expressions_var_args_assignments()?  );
+                        mul_node = match &self.symbol {
+                            Ok(next) if matches!(**next, Token::PyComa(..)) => None,
+                            _ => Some( self.parse_expressions_var_args_assignments()? )
+                        };
                         while
                             match &self.symbol {
                                 Ok(s2) => {
@@ -1690,7 +1693,10 @@ impl Expressions for PythonCoreParser {
                                                                         (true, Token::PyMul(..)) => {
                                                                             mul_symbol = Some( s20.clone() );
                                                                             let _ = self.advance();
-                                                                            mul_node = Some( self.parse_expressions_var_args_assignments()?  );
+                                                                            mul_node = match &self.symbol {
+                                                                                Ok(next) if matches!(**next, Token::PyComa(..)) => None,
+                                                                                _ => Some( self.parse_expressions_var_args_assignments()? )
+                                                                            };
                                                                             while
                                                                                 match &self.symbol {
                                                                                     Ok(s30) => {
@@ -1765,7 +1771,10 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyMul(..) => {
                                                             mul_symbol = Some( s6.clone() );
                                                             let _ = self.advance();
-                                                            mul_node = Some( self.parse_expressions_var_args_assignments()?  );
+                                                            mul_node = match &self.symbol {
+                                                                Ok(next) if matches!(**next, Token::PyComa(..)) => None,
+                                                                _ => Some( self.parse_expressions_var_args_assignments()? )
+                                                            };
                                                             while
                                                                 match &self.symbol {
                                                                     Ok(s8) => {
-- 
2.43.0


From 89f21eb908f45dbb38bce7916c32af889e7718de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 24/34] fix: a line after a blank or comment line lost its
 indentation handling

---
 src/parser/tokenizer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 1b90aaa..5e9dea6 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -50,6 +50,7 @@ impl Tokenizer for PythonCoreTokenizer {
             match &self.is_at_beginning_of_line {
                 true => {
                     self.is_at_beginning_of_line = false;
+                    is_blank_line = false;
                     let mut col: u32 = 0;
                     while   match self.source_buffer.get_char() {
                             ' ' => {
-- 
2.43.0


From 4e1645a9208cc6aee9b850293aea3a6e966ae5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 25/34] fix: comments and blank lines before an indent or
 dedent were dropped

---
 src/parser/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 5e9dea6..48c055b 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -111,11 +111,11 @@ impl Tokenizer for PythonCoreTokenizer {
             match self.pending {
                 _ if self.pending < 0 => {
                     self.pending += 1;
-                    return Ok( Box::new( Token::Dedent(None) ) )
+                    return Ok( Box::new( Token::Dedent(match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }) ) )
                 },
                 _ if self.pending > 0 => {
                     self.pending -= 1;
-                    return Ok( Box::new( Token::Indent(None) ) )
+                    return Ok( Box::new( Token::Indent(match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }) ) )
                 },
                 _ => { }
             }
-- 
2.43.0


From 47d00166e23245d9bd371568ce0d854778350495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 26/34] fix: newline trivia always claimed to be a carriage
 return and line feed

---
 src/parser/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 48c055b..85d1ca5 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -203,7 +203,7 @@ impl Tokenizer for PythonCoreTokenizer {
                         let _ = self.source_buffer.advance();
                         self.is_at_beginning_of_line = true;
                         if is_blank_line || self.parenthesis.is_empty() == false {
-                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', '\n') ) );
+                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', ' ') ) );
                             continue 'outer;
                         }
                         else {
@@ -220,7 +220,7 @@ impl Tokenizer for PythonCoreTokenizer {
                         let _ = self.source_buffer.advance();
                         self.is_at_beginning_of_line = true;
                         if is_blank_line || self.parenthesis.is_empty() == false {
-                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', '\n') ) );
+                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\n', ' ') ) );
                             continue 'outer;
                         }
                         else {
-- 
2.43.0


From 4754a7443faf5d40f090772a1c89a03de24574de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 27/34] fix: a number starting with zero swallowed the next
 character

---
 src/parser/tokenizer.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 85d1ca5..794d276 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -742,8 +742,6 @@ impl Tokenizer for PythonCoreTokenizer {
                     },
                     _ => {
                         let mut non_zero = false;
-                        buffer.push( self.source_buffer.get_char() );
-                        let _ = self.source_buffer.advance();
                         while   match self.source_buffer.get_char() {
                             '0' => {
                                 buffer.push( self.source_buffer.get_char() );
-- 
2.43.0


From ce5d855bd7af7118c79034619b128bc89f02b1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 28/34] fix: digit separators in numbers starting with zero

---
 src/parser/tokenizer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 794d276..59a42e7 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -743,6 +743,14 @@ impl Tokenizer for PythonCoreTokenizer {
                     _ => {
                         let mut non_zero = false;
                         while   match self.source_buffer.get_char() {
+                            '_' => {
+                                buffer.push( self.source_buffer.get_char() );
+                                let _ = self.source_buffer.advance();
+                                match self.source_buffer.get_char() {
+                                    '0'..='9' => true,
+                                    _ => return Err( format!("Syntax Error at {} - Expected digit after '_'!", &self.get_position()) )
+                                }
+                            },
                             '0' => {
                                 buffer.push( self.source_buffer.get_char() );
                                 let _ = self.source_buffer.advance();
-- 
2.43.0


From c64727461f126c7dff83dbeb5af0cb80add65b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 29/34] fix: an exponent without digits is an error

---
 src/parser/tokenizer.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 59a42e7..a513f88 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -804,6 +804,10 @@ impl Tokenizer for PythonCoreTokenizer {
                                     },
                                     _ => {}
                                 }
+                                match self.source_buffer.get_char() {
+                                    '0' ..= '9' => {},
+                                    _ => return Err( format!("Syntax Error at {} - Expected digit in exponent of number!", self.get_position()) )
+                                }
                                 while   match self.source_buffer.get_char() {
                                     '_' => {
                                         buffer.push( self.source_buffer.get_char() );
@@ -873,6 +877,10 @@ impl Tokenizer for PythonCoreTokenizer {
                             },
                             _ => {}
                         }
+                        match self.source_buffer.get_char() {
+                            '0' ..= '9' => {},
+                            _ => return Err( format!("Syntax Error at {} - Expected digit in exponent of number!", self.get_position()) )
+                        }
                         while   match self.source_buffer.get_char() {
                             '_' => {
                                 buffer.push( self.source_buffer.get_char() );
@@ -958,6 +966,10 @@ impl Tokenizer for PythonCoreTokenizer {
                             },
                             _ => {}
                         }
+                        match self.source_buffer.get_char() {
+                            '0' ..= '9' => {},
+                            _ => return Err( format!("Syntax Error at {} - Expected digit in exponent of number!", self.get_position()) )
+                        }
                         while   match self.source_buffer.get_char() {
                             '_' => {
                                 buffer.push( self.source_buffer.get_char() );
-- 
2.43.0


From 82f7d7598ea3093d5cbb54b9959ea7fcb5d2784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 30/34] fix: recognise bytes literal prefixes

---
 src/parser/tokenizer.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index a513f88..1511dbc 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -614,6 +614,16 @@ impl Tokenizer for PythonCoreTokenizer {
                                                             match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) } ))),
                     "yield" => Ok(Box::new(Token::PyYield(self.token_start_position, self.source_buffer.get_position(),
                                                             match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) } ))),
+                    "b" |
+                    "B" |
+                    "br" |
+                    "bR" |
+                    "Br" |
+                    "BR" |
+                    "rb" |
+                    "rB" |
+                    "Rb" |
+                    "RB" |
                     "r" |
                     "u" |
                     "R" |
-- 
2.43.0


From fed2a6a97e5ee0d1b0f55c23bce2524b95764b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 31/34] fix: a backslash in a string literal escapes the next
 character

---
 src/parser/tokenizer.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 1511dbc..6151c86 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -1049,6 +1049,10 @@ impl Tokenizer for PythonCoreTokenizer {
                         let _ = self.source_buffer.advance();
                         true
                     },
+                    ( '\\', c, _ ) if c != '\0' && c != '\r' && c != '\n' => {
+                        for _i in 1 ..= 2 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
+                        true
+                    },
                     ( a, b, c) if quote == a && quote == b && quote == c => {
                         for _i in 1 ..= 3 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
                         false
@@ -1066,6 +1070,18 @@ impl Tokenizer for PythonCoreTokenizer {
                 buffer.push(self.source_buffer.get_char());
                 let _ = self.source_buffer.advance();
                 while match self.source_buffer.get_char() {
+                    '\\' => {
+                        match self.source_buffer.peek_three_chars() {
+                            ( _, '\0', _ ) => { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); },
+                            ( _, '\r', '\n' ) => {
+                                for _i in 1 ..= 3 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
+                            },
+                            _ => {
+                                for _i in 1 ..= 2 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
+                            }
+                        }
+                        true
+                    },
                     '\0' | '\r' | '\n' => return Err(format!("Unterminated single quote string at {}!", self.source_buffer.get_position()).to_string()),
                     _ => {
                         if self.source_buffer.get_char() == quote {
-- 
2.43.0


From e46dd655401665fd99aafe90a2fe33d8de885aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 32/34] fix: whitespace before the end of the text opened a
 block

---
 src/parser/tokenizer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 6151c86..fd65775 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -84,6 +84,7 @@ impl Tokenizer for PythonCoreTokenizer {
                                 is_blank_line = true
                             }
                         },
+                        '\0' => col = 0u32, /* Whitespace before end of text is no indentation */
                         _ => { }
                     }
 
-- 
2.43.0


From 1149691063f0555bfb407a76ceecf1d2108801f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 33/34] fix: star parameters of a lambda take no default value

---
 src/parser/expressions.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 37ee651..0a9dedd 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1578,7 +1578,7 @@ impl Expressions for PythonCoreParser {
                         let _ = self.advance();
                         mul_node = match &self.symbol {
                             Ok(next) if matches!(**next, Token::PyComa(..)) => None,
-                            _ => Some( self.parse_expressions_var_args_assignments()? )
+                            _ => Some( self.parse_expressions_vfp_def()? )
                         };
                         while
                             match &self.symbol {
@@ -1593,7 +1593,7 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyPower(..) => {
                                                             power_symbol = Some( s3.clone() );
                                                             let _ = self.advance();
-                                                            power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                            power_node = Some( self.parse_expressions_vfp_def()? );
                                                             match &self.symbol {
                                                                 Ok(s4) => {
                                                                     match &**s4 {
@@ -1627,7 +1627,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyPower(..) => {
                         power_symbol = Some( s.clone() );
                         let _ = self.advance();
-                        power_node = Some( self.parse_expressions_var_args_assignments()? );
+                        power_node = Some( self.parse_expressions_vfp_def()? );
                         match &self.symbol {
                             Ok(s2) => {
                                 match &**s2 {
@@ -1695,7 +1695,7 @@ impl Expressions for PythonCoreParser {
                                                                             let _ = self.advance();
                                                                             mul_node = match &self.symbol {
                                                                                 Ok(next) if matches!(**next, Token::PyComa(..)) => None,
-                                                                                _ => Some( self.parse_expressions_var_args_assignments()? )
+                                                                                _ => Some( self.parse_expressions_vfp_def()? )
                                                                             };
                                                                             while
                                                                                 match &self.symbol {
@@ -1710,7 +1710,7 @@ impl Expressions for PythonCoreParser {
                                                                                                             Token::PyPower(..) => {
                                                                                                                 power_symbol = Some( s31.clone() );
                                                                                                                 let _ = self.advance();
-                                                                                                                power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                                                                                power_node = Some( self.parse_expressions_vfp_def()? );
                                                                                                                 match &self.symbol {
                                                                                                                     Ok(s32) => {
                                                                                                                         match &**s32 {
@@ -1745,7 +1745,7 @@ impl Expressions for PythonCoreParser {
                                                                         (true, Token::PyPower(..)) => {
                                                                             power_symbol = Some( s20.clone() );
                                                                             let _ = self.advance();
-                                                                            power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                                            power_node = Some( self.parse_expressions_vfp_def()? );
                                                                             match &self.symbol {
                                                                                 Ok(s21) => {
                                                                                     match &**s21 {
@@ -1773,7 +1773,7 @@ impl Expressions for PythonCoreParser {
                                                             let _ = self.advance();
                                                             mul_node = match &self.symbol {
                                                                 Ok(next) if matches!(**next, Token::PyComa(..)) => None,
-                                                                _ => Some( self.parse_expressions_var_args_assignments()? )
+                                                                _ => Some( self.parse_expressions_vfp_def()? )
                                                             };
                                                             while
                                                                 match &self.symbol {
@@ -1788,7 +1788,7 @@ impl Expressions for PythonCoreParser {
                                                                                             Token::PyPower(..) => {
                                                                                                 power_symbol = Some( s9.clone() );
                                                                                                 let _ = self.advance();
-                                                                                                power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                                                                power_node = Some( self.parse_expressions_vfp_def()? );
                                                                                                 match &self.symbol {
                                                                                                     Ok(s10) => {
                                                                                                         match &**s10 {
@@ -1823,7 +1823,7 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyPower(..) => {
                                                             power_symbol = Some( s6.clone() );
                                                             let _ = self.advance();
-                                                            power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                            power_node = Some( self.parse_expressions_vfp_def()? );
                                                             match &self.symbol {
                                                                 Ok(s7) => {
                                                                     match &**s7 {
-- 
2.43.0


From f2b8d1cef5c850cbf0565ec0faf04c1de2bc720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:14 +0000
Subject: [PATCH 34/34] fix: report a dedent that matches no enclosing
 indentation level

---
 src/parser/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index fd65775..ae3617a 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -99,7 +99,7 @@ impl Tokenizer for PythonCoreTokenizer {
                                 self.indent_stack.pop();
                                 self.pending -= 1;
                             }
-                            if self.indent_stack.is_empty() || col < match self.indent_stack.last() { Some(x) => *x, _ => 0 } {
+                            if self.indent_stack.is_empty() || col != match self.indent_stack.last() { Some(x) => *x, _ => 0 } {
                                 return Err("Inconsistent indentation level in block control!".to_string())
                             }
                         }
-- 
2.43.0

