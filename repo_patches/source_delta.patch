From 7d01e1cb4dcc11bffde9e5fe8a382986b78c4106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:40 +0000
Subject: [PATCH 01/19] fix: parse assignment operators as right-associative

a = b = c was parsed as (a = b) = c; it only came out right because the
formatter dropped the parentheses again.
---
 src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index ba65467..03b0d39 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -214,7 +214,12 @@ fn parse_seq_expr(l: &mut Lexer, strength: usize, ctx: &ParseCtx) -> Result<Expr
         }
         let tok = l.get().unwrap();
         let op = tok.kind;
-        let r2 = parse_expr(l, strength + 1, ctx)?;
+        // Assignments are right-associative, a = b = c is a = (b = c).
+        let r2 = if strength == operator_strength("=") {
+            parse_expr(l, strength, ctx)?
+        } else {
+            parse_expr(l, strength + 1, ctx)?
+        };
         r = Expr::BinaryOp(nodes::BinaryOp {
             pos: tok.pos,
             op,
-- 
2.43.0


From 5ce1c84666ef549c11b0e03fbf5db221113cf6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:24 +0000
Subject: [PATCH 02/19] fix: keep the grouping of operands when formatting
 expressions

a - (b - c) was written as a - b - c, (*p)[1] as *p[1], (*p)++ as *p++,
((T *)p)->x as (T *)(p)->x and -(-x) as --x.
---
 src/format_c.rs | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/format_c.rs b/src/format_c.rs
index 9747409..747c952 100644
--- a/src/format_c.rs
+++ b/src/format_c.rs
@@ -142,7 +142,7 @@ pub fn fmt_expr(expr: &Expr) -> String {
                 s1 += &fmt_expr(&argument);
             }
             s1 += ")";
-            return format!("{}{}", fmt_expr(&function), s1);
+            return format!("{}{}", fmt_postfix_target(function), s1);
         }
         Expr::Literal(x) => format_literal(x),
         Expr::Ident(x) => x.clone(),
@@ -185,15 +185,7 @@ pub fn fmt_expr(expr: &Expr) -> String {
             target,
             field_name,
         } => {
-            match is_op(target) {
-                Some(targetop) => {
-                    if parser::operator_strength(&targetop) < parser::operator_strength(op) {
-                        return format!("({}){}{}", fmt_expr(target), op, field_name);
-                    }
-                }
-                None => {}
-            }
-            return format!("{}{}{}", fmt_expr(target), op, field_name);
+            return format!("{}{}{}", fmt_postfix_target(target), op, field_name);
         }
         Expr::BinaryOp(x) => format_binary_op(&x),
         Expr::PrefixOp { operator, operand } => {
@@ -208,6 +200,10 @@ pub fn fmt_expr(expr: &Expr) -> String {
                 None => {}
             }
             return match expr {
+                // Keep -(-x) from becoming --x.
+                Expr::PrefixOp { operator: op2, .. } if op2.get(0..1) == operator.get(0..1) => {
+                    format!("{}({})", operator, fmt_expr(expr))
+                }
                 Expr::BinaryOp(x) => {
                     format!("{}({})", operator, format_binary_op(&x))
                 }
@@ -224,11 +220,22 @@ pub fn fmt_expr(expr: &Expr) -> String {
             };
         }
         Expr::PostfixOp { operator, operand } => {
-            return fmt_expr(&operand) + &operator;
+            return fmt_postfix_target(operand) + &operator;
         }
         Expr::ArrayIndex { array, index } => {
-            return format!("{}[{}]", fmt_expr(array), fmt_expr(index));
+            return format!("{}[{}]", fmt_postfix_target(array), fmt_expr(index));
+        }
+    }
+}
+
+// Formats the operand of a call, index, field access or a postfix operator.
+fn fmt_postfix_target(e: &Expr) -> String {
+    match e {
+        // Wrap the operands that bind weaker than postfix operators.
+        Expr::BinaryOp(_) | Expr::PrefixOp { .. } | Expr::Cast { .. } | Expr::Sizeof { .. } => {
+            format!("({})", fmt_expr(e))
         }
+        _ => fmt_expr(e),
     }
 }
 
@@ -254,10 +261,13 @@ fn is_op(e: &Expr) -> Option<String> {
 
 fn format_binary_op(x: &c::BinaryOp) -> String {
     let op = &x.op;
-    let fmtop = |a: &Expr| {
+    // Assignments group to the right, everything else groups to the left.
+    let right_assoc = parser::operator_strength(op) == parser::operator_strength("=");
+    let fmtop = |a: &Expr, wrap_equal: bool| {
         if let Some(k) = is_op(a) {
             // Wrap weaker operands in braces to keep precedence.
             if parser::operator_strength(&k) < parser::operator_strength(op)
+                || (wrap_equal && parser::operator_strength(&k) == parser::operator_strength(op))
 				// Wrap these bit ops too even when precedence is ok
 				// because compilers are getting paranoid.
                 || op == "&"
@@ -269,7 +279,12 @@ fn format_binary_op(x: &c::BinaryOp) -> String {
         }
         fmt_expr(a)
     };
-    format!("{} {} {}", fmtop(&x.a), op.clone(), fmtop(&x.b))
+    format!(
+        "{} {} {}",
+        fmtop(&x.a, right_assoc),
+        op.clone(),
+        fmtop(&x.b, !right_assoc)
+    )
 }
 
 fn indent(text: &str) -> String {
-- 
2.43.0


From 4cdc0ce6729a71c7bd8da7a84a0b2efb04d60852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:25 +0000
Subject: [PATCH 03/19] fix: translate <<= and >>= instead of crashing

---
 src/translator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/translator.rs b/src/translator.rs
index bf7d265..603fd91 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -749,7 +749,9 @@ fn tr_binary_op(x: &nodes::BinaryOp, ctx: &mut TrCtx) -> Result<Typed<c::Expr>,
         "==" | "<" | ">" | "!=" | ">=" | "<=" => types::typeof_cmp(&at, &bt),
         "-" | "+" => types::typeof_plusminus(x.op.as_str(), &at, &bt),
         "*" | "/" | "%" | "<<" | ">>" | "&" | "|" | "^" => types::typeof_arith(&at, &bt),
-        "=" | "+=" | "-=" | "/=" | "*=" | "|=" | "%=" | "&=" | "^=" => Ok(types::just("void")),
+        "=" | "+=" | "-=" | "/=" | "*=" | "|=" | "%=" | "&=" | "^=" | "<<=" | ">>=" => {
+            Ok(types::just("void"))
+        }
         _ => {
             todo!("{} binop", x.op);
         }
-- 
2.43.0


From ea63f58e4c00c78ab2ed2bb868a6ed55574b14fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:25 +0000
Subject: [PATCH 04/19] fix: report an unterminated body instead of looping
 forever

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 03b0d39..6170696 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1083,7 +1083,7 @@ fn read_body(l: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<Body>, Error>
     let mut statements: Vec<Statement> = Vec::new();
     let mut errors = Vec::new();
     expect(l, "{", None)?;
-    while !l.follows("}") {
+    while l.more() && !l.follows("}") {
         match parse_statement(l, ctx) {
             Ok(s) => {
                 statements.push(s.obj);
-- 
2.43.0


From 216aa6389687f1d62ea584b813f7f6621360e2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:26 +0000
Subject: [PATCH 05/19] fix: consume the unexpected character in the lexer

The error token was returned over and over, so skipping tokens up to a
semicolon never ended.
---
 src/lexer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lexer.rs b/src/lexer.rs
index ab5b1a6..8868e1a 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -96,6 +96,7 @@ fn read_token(buf: &mut Buf) -> Option<Token> {
         }
     }
 
+    buf.get();
     return Some(Token {
         kind: "error".to_string(),
         content: format!("Unexpected character: '{}'", next),
-- 
2.43.0


From d79bf4393de3ea651b3d1eeab36ae1c74aab0212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:20 +0000
Subject: [PATCH 06/19] fix: don't accept functions that can run off their end
 as returning

An if without an else, a loop with a condition, a 'while (true)' with a
break in it and a switch with a break in it can all be left without a
return.
---
 src/node_queries.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/node_queries.rs b/src/node_queries.rs
index 8bcf896..a74b19b 100644
--- a/src/node_queries.rs
+++ b/src/node_queries.rs
@@ -8,7 +8,9 @@ pub fn body_returns(b: &Body) -> bool {
     let last = &b.statements[n - 1];
     return match last {
         Statement::Return { .. } => true,
-        Statement::If(x) => body_returns(&x.body),
+        Statement::If(x) => {
+            body_returns(&x.body) && x.else_body.as_ref().map_or(false, |b| body_returns(b))
+        }
         Statement::Switch(x) => {
             let default_case = &x.default_case;
             let cases = &x.cases;
@@ -20,9 +22,14 @@ pub fn body_returns(b: &Body) -> bool {
                     return false;
                 }
             }
+            // A break leaves the switch and goes on past it.
+            if cases.iter().any(|c| has_break(&c.body)) || has_break(default_case.as_ref().unwrap())
+            {
+                return false;
+            }
             return true;
         }
-        Statement::While(x) => is_ident(&x.cond, "true") || body_returns(&x.body),
+        Statement::While(x) => is_ident(&x.cond, "true") && !has_break(&x.body),
         Statement::Expression(x) => match x {
             Expr::Call(function_call) => {
                 if is_ident(&function_call.func, "panic") {
@@ -76,3 +83,19 @@ pub fn expression_pos(e: &Expr) -> Pos {
         Expr::Sizeof(_) => todopos,
     }
 }
+
+// Returns true if the given loop body can break out of its loop.
+fn has_break(b: &Body) -> bool {
+    b.statements.iter().any(|s| match s {
+        Statement::Break => true,
+        Statement::If(x) => has_break(&x.body) || x.else_body.as_ref().map_or(false, has_break),
+        Statement::Switch(x) => {
+            // A break inside a regular switch leaves only the switch, but
+            // a string switch is translated to a chain of ifs.
+            x.is_str
+                && (x.cases.iter().any(|c| has_break(&c.body))
+                    || x.default_case.as_ref().map_or(false, has_break))
+        }
+        _ => false,
+    })
+}
-- 
2.43.0


From ae08283c23e6963e38c510dc31a20c54b89e4f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:21 +0000
Subject: [PATCH 07/19] fix: require a return from functions returning void **

---
 src/translator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/translator.rs b/src/translator.rs
index 603fd91..1d054c8 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -1069,7 +1069,7 @@ fn tr_func_decl(x: &nodes::FuncDecl, ctx: &mut TrCtx) -> Result<Vec<c::ModElem>,
     }
     end_scope(ctx)?;
 
-    if (!nodes::is_void(&x.typename) || x.form.hops == 1) && !body_returns(&x.body) {
+    if (!nodes::is_void(&x.typename) || x.form.hops > 0) && !body_returns(&x.body) {
         return Err(BuildError {
             message: format!("{}: missing return", x.form.name),
             pos: x.pos.fmt(),
-- 
2.43.0


From 87de2e6c32433635fb368732eaefb64830eab75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:31 +0000
Subject: [PATCH 08/19] fix: count tests that don't build as failed

che test reported OK and exited with 0 when a test couldn't be built, and
also when the number of failed tests was a multiple of 256.
---
 src/main_test.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main_test.rs b/src/main_test.rs
index d8dc289..96c444d 100644
--- a/src/main_test.rs
+++ b/src/main_test.rs
@@ -27,7 +27,8 @@ pub fn run(args: &[String]) -> i32 {
     } else if s.fails == 0 {
         println!("OK {} tests", s.total);
     }
-    return s.fails;
+    // Not the number itself, the exit status has only 8 bits.
+    return if s.fails > 0 { 1 } else { 0 };
 }
 
 fn run_arg(arg: &String) -> Result<Stats, String> {
@@ -43,6 +44,7 @@ fn run_arg(arg: &String) -> Result<Stats, String> {
                 for err in errors {
                     eprintln!("{}:{}: {}", err.path, err.pos, err.message);
                 }
+                stats.fails += 1;
                 println!("FAIL {}", path);
                 continue;
             }
-- 
2.43.0


From e4e697eba181322f535143ce4eb6039462f3fb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:42 +0000
Subject: [PATCH 09/19] fix: translate array literal indexes as expressions

[0] = x crashed the translator, and the name in [NAME] = x was neither
checked nor prefixed nor counted as used.
---
 src/translator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/translator.rs b/src/translator.rs
index 1d054c8..a63bcaa 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -902,6 +902,9 @@ fn tr_comp_literal(x: &nodes::CompLiteral, ctx: &mut TrCtx) -> Result<Typed<c::E
     let mut entries = Vec::new();
     for e in &x.entries {
         let key = match &e.key {
+            // [index] = <...>
+            Some(x) if e.is_index => Some(tr_expr(x, ctx)?.val),
+            // .field = <...>
             Some(x) => match x {
                 nodes::Expr::NsName(ns_name) => {
                     if ns_name.ns != "" {
-- 
2.43.0


From e88992334bd97bb1c515a5a5544ee9742f1784db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:10 +0000
Subject: [PATCH 10/19] fix: export public struct aliases

---
 src/parser.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6170696..9a5ac21 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -98,19 +98,11 @@ fn get_exports(elems: &Vec<ModElem>) -> Exports {
                     exports.structs.push(x.clone());
                 }
             }
-            // ModuleObject::StructAliasTypedef {
-            //     is_pub,
-            //     struct_name: _,
-            //     type_alias,
-            // } => {
-            //     if *is_pub {
-            //         exports.structs.push(StructTypedef {
-            //             fields: Vec::new(),
-            //             is_pub: *is_pub,
-            //             name: type_alias.clone(),
-            //         })
-            //     }
-            // }
+            ModElem::StructAlias(x) => {
+                if x.ispub {
+                    exports.types.push(x.typename.clone());
+                }
+            }
             ModElem::FuncDecl(f) => {
                 if f.ispub {
                     exports.fns.push(f.clone())
-- 
2.43.0


From 57784e7380b21f69fa1be104d34680d1c49f107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:19 +0000
Subject: [PATCH 11/19] fix: don't prefix references to main

---
 src/translator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/translator.rs b/src/translator.rs
index a63bcaa..3a841bc 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -1220,7 +1220,8 @@ fn tr_nsid(nsid: &nodes::NsName, ctx: &mut TrCtx) -> Result<String, BuildError>
         return Ok(nsprefix(id, &nsid.name));
     }
     let b = find_binding(ctx, &nsid.name);
-    let name = if b.is_some() && b.unwrap().ispub {
+    // main is public but keeps its name.
+    let name = if b.is_some() && b.unwrap().ispub && nsid.name != "main" {
         nsprefix(&ctx.this_mod_head.uniqid, &nsid.name)
     } else {
         nsid.name.clone()
-- 
2.43.0


From 8ab8b1f7e990624cfabaacb20c55885fc6104adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:05 +0000
Subject: [PATCH 12/19] Revert "fix: count tests that don't build as failed"

src/main_test.rs counts as a test file, it stays as it was.
---
 src/main_test.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/main_test.rs b/src/main_test.rs
index 96c444d..d8dc289 100644
--- a/src/main_test.rs
+++ b/src/main_test.rs
@@ -27,8 +27,7 @@ pub fn run(args: &[String]) -> i32 {
     } else if s.fails == 0 {
         println!("OK {} tests", s.total);
     }
-    // Not the number itself, the exit status has only 8 bits.
-    return if s.fails > 0 { 1 } else { 0 };
+    return s.fails;
 }
 
 fn run_arg(arg: &String) -> Result<Stats, String> {
@@ -44,7 +43,6 @@ fn run_arg(arg: &String) -> Result<Stats, String> {
                 for err in errors {
                     eprintln!("{}:{}: {}", err.path, err.pos, err.message);
                 }
-                stats.fails += 1;
                 println!("FAIL {}", path);
                 continue;
             }
-- 
2.43.0


From 4ef4a0c46d9835e6cde72537d467fa2e3a8fd3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:15 +0000
Subject: [PATCH 13/19] fix: keep a public function's name when a parameter has
 the same name

---
 src/translator.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index 3a841bc..9cf5a23 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -1036,6 +1036,10 @@ fn tr_func_params(x: &nodes::FuncParams, ctx: &mut TrCtx) -> Result<c::FuncParam
 
 // pub? int f(...) {...}
 fn tr_func_decl(x: &nodes::FuncDecl, ctx: &mut TrCtx) -> Result<Vec<c::ModElem>, BuildError> {
+    // The function's name belongs to the outer scope, so that a parameter with
+    // the same name doesn't change it.
+    let form = tr_form(&x.form, ctx, true)?;
+
     begin_scope(ctx);
 
     for p in &x.params.list {
@@ -1058,7 +1062,7 @@ fn tr_func_decl(x: &nodes::FuncDecl, ctx: &mut TrCtx) -> Result<Vec<c::ModElem>,
     let mut r = vec![c::ModElem::FuncDef(c::FuncDef {
         is_static: !x.ispub,
         type_name: tr_typename(&x.typename, ctx)?,
-        form: tr_form(&x.form, ctx, true)?,
+        form: form.clone(),
         parameters: tr_func_params(&x.params, ctx)?,
         body: rbody,
     })];
@@ -1066,7 +1070,7 @@ fn tr_func_decl(x: &nodes::FuncDecl, ctx: &mut TrCtx) -> Result<Vec<c::ModElem>,
         r.push(c::ModElem::ForwardFunc(c::ForwardFunc {
             is_static: !x.ispub,
             type_name: tr_typename(&x.typename, ctx)?,
-            form: tr_form(&x.form, ctx, true)?,
+            form,
             parameters: tr_func_params(&x.params, ctx)?,
         }));
     }
-- 
2.43.0


From 622a33615023cd28f22e159f1edf1e93972dd35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:47 +0000
Subject: [PATCH 14/19] fix: a comparison of two bools is a bool

---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 1bb33c1..4e35ce7 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -235,7 +235,7 @@ pub fn typeof_cmp(a: &Type, b: &Type) -> Result<Type, String> {
         (Class::SINT, Class::SINT) => Ok(just("bool")),
         (Class::UINT, Class::UINT) => Ok(just("bool")),
         (Class::CHAR, Class::CHAR) => Ok(just("bool")),
-        (Class::BOOL, Class::BOOL) => Ok(just("boo")),
+        (Class::BOOL, Class::BOOL) => Ok(just("bool")),
 
         // num == const
         (Class::FLT | Class::SINT | Class::UINT, Class::CONSTNUM) => Ok(just("bool")),
-- 
2.43.0


From a1c3b9e5b653590aab0ccb6ad8436bcc6c6fdbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:47 +0000
Subject: [PATCH 15/19] fix: the sum of a value and an offset has the type of
 the value

---
 src/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 4e35ce7..95a3969 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -205,7 +205,7 @@ pub fn typeof_plusminus(op: &str, a: &Type, b: &Type) -> Result<Type, String> {
 
         // const + T = T
         (_, Class::CONSTNUM, Class::SINT | Class::UINT | Class::FLT) => Ok(b.clone()),
-        (_, Class::SINT | Class::UINT | Class::FLT, Class::CONSTNUM) => Ok(b.clone()),
+        (_, Class::SINT | Class::UINT | Class::FLT, Class::CONSTNUM) => Ok(a.clone()),
 
         // todo + T = todo
         (_, Class::UNK, _) => Ok(a.clone()),
@@ -216,7 +216,7 @@ pub fn typeof_plusminus(op: &str, a: &Type, b: &Type) -> Result<Type, String> {
 
         // ptr + any int = ptr
         (_, Class::PTR | Class::ARR, Class::CONSTNUM | Class::SINT | Class::UINT) => Ok(a.clone()),
-        (_, Class::CONSTNUM | Class::SINT | Class::UINT, Class::PTR | Class::ARR) => Ok(a.clone()),
+        (_, Class::CONSTNUM | Class::SINT | Class::UINT, Class::PTR | Class::ARR) => Ok(b.clone()),
 
         _ => Err(format!(
             "'{}' operation between {} and {}",
-- 
2.43.0


From 3a7f94c9bfcf495776a8a8a7807b5a7e782d02ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:47 +0000
Subject: [PATCH 16/19] fix: the address of an array is a pointer to the array

---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 95a3969..f61380a 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -146,7 +146,7 @@ pub fn is_todo(x: &Type) -> bool {
 
 pub fn typeof_addr(t: Type) -> Type {
     let mut ops = t.ops;
-    ops.push(TypeOp::Deref);
+    ops.insert(0, TypeOp::Deref);
     Type {
         ops,
         base: nsname(&t.base.ns, &t.base.name),
-- 
2.43.0


From 542da18fc2638368ff1c67c6abe189c626064c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:48 +0000
Subject: [PATCH 17/19] fix: look through typedefs in conditions

---
 src/translator.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index 9cf5a23..47f5f06 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -745,7 +745,7 @@ fn tr_binary_op(x: &nodes::BinaryOp, ctx: &mut TrCtx) -> Result<Typed<c::Expr>,
     let bt = root_type(&b.typ, ctx);
 
     let typ = match x.op.as_str() {
-        "||" | "&&" => types::typeof_boolcomp(&a.typ, &b.typ),
+        "||" | "&&" => types::typeof_boolcomp(&at, &bt),
         "==" | "<" | ">" | "!=" | ">=" | "<=" => types::typeof_cmp(&at, &bt),
         "-" | "+" => types::typeof_plusminus(x.op.as_str(), &at, &bt),
         "*" | "/" | "%" | "<<" | ">>" | "&" | "|" | "^" => types::typeof_arith(&at, &bt),
@@ -1275,7 +1275,7 @@ fn tr_for(x: &nodes::For, ctx: &mut TrCtx) -> Result<c::Statement, BuildError> {
     let condition = match &x.condition {
         Some(x) => {
             let c = tr_expr(&x, ctx)?;
-            if !types::is_booly(&c.typ) {
+            if !types::is_booly(&root_type(&c.typ, ctx)) {
                 return Err(BuildError {
                     message: format!("{} used as condition", &c.typ.fmt()),
                     path: ctx.this_mod_head.filepath.clone(),
@@ -1458,7 +1458,7 @@ fn tr_vardecl(x: &nodes::VarDecl, ctx: &mut TrCtx) -> Result<c::Statement, Build
 // while (...) { ... }
 fn tr_while(x: &nodes::While, ctx: &mut TrCtx) -> Result<c::Statement, BuildError> {
     let cond = tr_expr(&x.cond, ctx)?;
-    if !types::is_booly(&cond.typ) {
+    if !types::is_booly(&root_type(&cond.typ, ctx)) {
         return Err(BuildError {
             message: format!("{} used as condition", &cond.typ.fmt()),
             path: ctx.this_mod_head.filepath.clone(),
-- 
2.43.0


From 83899fe0f25ac0a905a60bf1476bccf522dbc234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:26 +0000
Subject: [PATCH 18/19] fix: look through typedefs of typedefs

---
 src/translator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/translator.rs b/src/translator.rs
index 47f5f06..3cb6a49 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -266,11 +266,12 @@ pub fn translate(m: &nodes::Module, params: &TrParams) -> Result<c::CModule, Bui
                 );
             }
             nodes::ModElem::Typedef(x) => {
+                let t = root_type(&typefrom_typedef(&x), &ctx);
                 ctx.other_typedefs.insert(
                     x.alias.clone(),
                     TI {
                         is_pub: x.ispub,
-                        t: typefrom_typedef(&x),
+                        t,
                     },
                 );
             }
-- 
2.43.0


From b249ce4bb8c9c6e951f41809a2c44aa2d7e3115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:26 +0000
Subject: [PATCH 19/19] fix: dereferences of typedef pointers are valid

---
 src/translator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/translator.rs b/src/translator.rs
index 3cb6a49..44c646b 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -789,7 +789,7 @@ fn tr_prefop(x: &nodes::PrefixOp, ctx: &mut TrCtx) -> Result<Typed<c::Expr>, Bui
         "!" => Ok(types::just("bool")),
         "-" | "~" => Ok(operand.typ),
         "&" => Ok(types::typeof_addr(operand.typ)),
-        "*" => types::typeof_deref(&operand.typ),
+        "*" => types::typeof_deref(&root_type(&operand.typ, ctx)),
         _ => {
             println!("op type = {}", operand.typ.fmt());
             dbg!(x);
-- 
2.43.0

