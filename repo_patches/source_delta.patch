From 8c71d2fbc88582e7b3d653250ee4d6ee1a57f463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 01/13] fix: bind the label of a labelled literal

A label on a literal (x:"a" { x }) was dropped, so the action failed to
compile with "cannot find value x in this scope". Bind it to the literal's
value like for every other expression.
---
 peg-macros/translate.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/peg-macros/translate.rs b/peg-macros/translate.rs
index 326fa53..69e4926 100644
--- a/peg-macros/translate.rs
+++ b/peg-macros/translate.rs
@@ -457,7 +457,13 @@ fn compile_expr_continuation(
 
     let result_pat = name_or_ignore(result_name);
     match e.expr {
-        LiteralExpr(ref s) => compile_literal_expr(s, continuation),
+        LiteralExpr(ref s) => compile_literal_expr(
+            s,
+            match result_name {
+                Some(name) => quote_spanned! { span => let #name = __val; #continuation },
+                None => continuation,
+            },
+        ),
 
         PatternExpr(ref pattern) => {
             let result_name = result_name
-- 
2.43.0


From 9401de3c84294b6c0471a14fa4c94d78e3067ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 02/13] fix: do not try the separator once a repetition reached
 its maximum

e ** <n,m> sep tried sep again after the m-th element before giving up, so a
following failure was reported as also expecting the separator, which can
never be accepted there.
---
 peg-macros/translate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peg-macros/translate.rs b/peg-macros/translate.rs
index 69e4926..4953da9 100644
--- a/peg-macros/translate.rs
+++ b/peg-macros/translate.rs
@@ -739,8 +739,8 @@ fn compile_expr(context: &Context, e: &SpannedExpr, result_used: bool) -> TokenS
                 loop {
                     let __pos = __repeat_pos;
 
-                    #match_sep
                     #max_check
+                    #match_sep
 
                     let __step_res = #inner;
                     match __step_res {
-- 
2.43.0


From e91c45322440e14a2e4a20f1ee99d8bb2a6c55ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:50 +0000
Subject: [PATCH 03/13] fix: parse a call with explicit generics that carries
 no label

`name::<T>()` without a label was read as the label `name` followed by
`:`, so the call was a syntax error. A label is followed by a single colon.
---
 peg-macros/grammar.rs      | 29 ++++++++++++++++++++++++++++-
 peg-macros/grammar.rustpeg |  2 +-
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/peg-macros/grammar.rs b/peg-macros/grammar.rs
index b77dbe3..ec0df4d 100644
--- a/peg-macros/grammar.rs
+++ b/peg-macros/grammar.rs
@@ -2907,7 +2907,34 @@ pub mod peg {
                     ::peg::RuleResult::Matched(__pos, l) => {
                         match ::peg::ParseLiteral::parse_string_literal(__input, __pos, ":") {
                             ::peg::RuleResult::Matched(__pos, __val) => {
-                                ::peg::RuleResult::Matched(__pos, (|| l)())
+                                let __seq_res = {
+                                    __err_state.suppress_fail += 1;
+                                    let __assert_res =
+                                        match ::peg::ParseLiteral::parse_string_literal(
+                                            __input, __pos, ":",
+                                        ) {
+                                            ::peg::RuleResult::Matched(__pos, __val) => {
+                                                ::peg::RuleResult::Matched(__pos, __val)
+                                            }
+                                            ::peg::RuleResult::Failed => {
+                                                __err_state.mark_failure(__pos, "\":\"");
+                                                ::peg::RuleResult::Failed
+                                            }
+                                        };
+                                    __err_state.suppress_fail -= 1;
+                                    match __assert_res {
+                                        ::peg::RuleResult::Failed => {
+                                            ::peg::RuleResult::Matched(__pos, ())
+                                        }
+                                        ::peg::RuleResult::Matched(..) => ::peg::RuleResult::Failed,
+                                    }
+                                };
+                                match __seq_res {
+                                    ::peg::RuleResult::Matched(__pos, _) => {
+                                        ::peg::RuleResult::Matched(__pos, (|| l)())
+                                    }
+                                    ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
+                                }
                             }
                             ::peg::RuleResult::Failed => {
                                 __err_state.mark_failure(__pos, "\":\"");
diff --git a/peg-macros/grammar.rustpeg b/peg-macros/grammar.rustpeg
index e4dfd4d..542684b 100644
--- a/peg-macros/grammar.rustpeg
+++ b/peg-macros/grammar.rustpeg
@@ -113,7 +113,7 @@ rule sequence() -> SpannedExpr
     }
 
 rule labeled() -> TaggedExpr
-    = label:(l:IDENT() ":" {l})? expression:suffixed()
+    = label:(l:IDENT() ":" !":" {l})? expression:suffixed()
         { TaggedExpr{ name: label, expr: expression } }
 
 rule suffixed() -> SpannedExpr
-- 
2.43.0


From 41a93f04ed6891a4b49804b22867b9a64256bc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:22 +0000
Subject: [PATCH 04/13] fix: look for left recursion through the separator of a
 nullable repetition

An iteration that matches nothing leaves the position where it was, so the
separator is tried there and may re-enter the rule without consuming input.
---
 peg-macros/analysis.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/peg-macros/analysis.rs b/peg-macros/analysis.rs
index 0e2409a..72eb420 100644
--- a/peg-macros/analysis.rs
+++ b/peg-macros/analysis.rs
@@ -138,8 +138,14 @@ impl<'a> LeftRecursionVisitor<'a> {
                 true
             }
 
-            Repeat { ref inner, ref bound, .. } => {
+            Repeat { ref inner, ref bound, ref sep } => {
                 let inner_nullable = self.walk_expr(inner);
+
+                // If an iteration can match nothing, the separator is tried at the same position
+                if let (true, Some(sep)) = (inner_nullable, sep) {
+                    self.walk_expr(sep);
+                }
+
                 inner_nullable | !bound.has_lower_bound()
             }
 
-- 
2.43.0


From 0ec73f52086457e738454286fad9f14f057b0e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:19 +0000
Subject: [PATCH 05/13] fix: look for left recursion behind an operand that can
 match nothing

If an operand of precedence! can match without consuming input, the rest of
an infix or postfix operator starts where the operand did and may re-enter the
rule there.
---
 peg-macros/analysis.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/peg-macros/analysis.rs b/peg-macros/analysis.rs
index 72eb420..41074cf 100644
--- a/peg-macros/analysis.rs
+++ b/peg-macros/analysis.rs
@@ -167,7 +167,20 @@ impl<'a> LeftRecursionVisitor<'a> {
                     }
                 }
 
-               nullable
+                if nullable {
+                    // The left operand can match nothing, so what follows it is tried at the same position
+                    for operator in levels.iter().flat_map(|level| &level.operators) {
+                        if let Some((TaggedExpr { expr: SpannedExpr { expr: MarkerExpr(_), .. }, .. }, rest)) = operator.elements.split_first() {
+                            for element in rest {
+                                if !self.walk_expr(&element.expr) {
+                                    break;
+                                }
+                            }
+                        }
+                    }
+                }
+
+                nullable
             }
 
             | LiteralExpr(_)
-- 
2.43.0


From bb74cf6803d3086251aa26c17ee30ca3bcabed44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:52 +0000
Subject: [PATCH 06/13] fix: report precedence operators that match without
 consuming input

Such an operator is applied again and again at the same position: an infix or
postfix operator in the loop of __infix_parse, a prefix operator by recursion.
---
 peg-macros/analysis.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/peg-macros/analysis.rs b/peg-macros/analysis.rs
index 41074cf..1ff2826 100644
--- a/peg-macros/analysis.rs
+++ b/peg-macros/analysis.rs
@@ -282,14 +282,31 @@ impl<'a> LoopNullabilityVisitor<'a> {
 
             PrecedenceExpr { ref levels } => {
                 let mut nullable = false;
+                let mut operators = Vec::new();
 
                 for level in levels {
                     for operator in &level.operators {
-                        let mut operator_nullable = true;
-                        for element in &operator.elements {
-                            operator_nullable &= self.walk_expr(&element.expr);
-                        }
-                        nullable |= operator_nullable;
+                        let elements: Vec<bool> = operator.elements.iter().map(|element| self.walk_expr(&element.expr)).collect();
+                        nullable |= elements.iter().all(|&n| n);
+                        operators.push((operator, elements));
+                    }
+                }
+
+                // An operator is applied in a loop (infix and postfix) or recursively (prefix).
+                // Report it if it matches without consuming input.
+                for (operator, elements) in operators {
+                    let is_marker = |i: usize| matches!(operator.elements[i].expr.expr, MarkerExpr(_));
+                    let len = elements.len();
+                    let endless = match len {
+                        0 | 1 => false,
+                        _ if is_marker(0) => elements[1..len - 1].iter().all(|&n| n)
+                            && if is_marker(len - 1) { nullable } else { elements[len - 1] },
+                        _ if is_marker(len - 1) => elements[..len - 1].iter().all(|&n| n),
+                        _ => false,
+                    };
+
+                    if endless {
+                        self.errors.push(LoopNullabilityError { span: operator.span });
                     }
                 }
 
-- 
2.43.0


From 879f07009404507ac62a2401b2ce4bfe2cbee9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:21 +0000
Subject: [PATCH 07/13] fix: a repetition with the literal lower bound 0 can
 match nothing

---
 peg-macros/ast.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/peg-macros/ast.rs b/peg-macros/ast.rs
index d5f7e8a..53b2b4d 100644
--- a/peg-macros/ast.rs
+++ b/peg-macros/ast.rs
@@ -129,7 +129,9 @@ impl BoundedRepeat {
     pub fn has_lower_bound(&self) -> bool {
         match self {
             BoundedRepeat::None | BoundedRepeat::Both(None, _) => false,
-            BoundedRepeat::Plus | BoundedRepeat::Exact(_) | BoundedRepeat::Both(Some(_), _) => true
+            BoundedRepeat::Plus => true,
+            // a literal zero is no bound
+            BoundedRepeat::Exact(n) | BoundedRepeat::Both(Some(n), _) => n.to_string().parse() != Ok(0),
         }
     }
 
-- 
2.43.0


From e86da8472a55c17a0e4c331746890a45fa5c986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 08/13] fix: accept every form of Rust use declaration

---
 peg-macros/grammar.rs      | 274 +++++++++++++++++++++++++------------
 peg-macros/grammar.rustpeg |  16 +--
 2 files changed, 192 insertions(+), 98 deletions(-)

diff --git a/peg-macros/grammar.rs b/peg-macros/grammar.rs
index ec0df4d..a43b703 100644
--- a/peg-macros/grammar.rs
+++ b/peg-macros/grammar.rs
@@ -1082,7 +1082,7 @@ pub mod peg {
                 match match ::peg::ParseLiteral::parse_string_literal(__input, __pos, "use") {
                     ::peg::RuleResult::Matched(__pos, __val) => {
                         let __seq_res =
-                            match __parse_rust_path(__input, __state, __err_state, __pos) {
+                            match __parse_rust_use_tree(__input, __state, __err_state, __pos) {
                                 ::peg::RuleResult::Matched(pos, _) => {
                                     ::peg::RuleResult::Matched(pos, ())
                                 }
@@ -1090,54 +1090,15 @@ pub mod peg {
                             };
                         match __seq_res {
                             ::peg::RuleResult::Matched(__pos, _) => {
-                                let __seq_res = {
-                                    let __choice_res =
-                                        match ::peg::ParseLiteral::parse_string_literal(
-                                            __input, __pos, "::",
-                                        ) {
-                                            ::peg::RuleResult::Matched(__pos, __val) => {
-                                                match ::peg::ParseLiteral::parse_string_literal(
-                                                    __input, __pos, "*",
-                                                ) {
-                                                    ::peg::RuleResult::Matched(__pos, __val) => {
-                                                        ::peg::RuleResult::Matched(__pos, ())
-                                                    }
-                                                    ::peg::RuleResult::Failed => {
-                                                        __err_state.mark_failure(__pos, "\"*\"");
-                                                        ::peg::RuleResult::Failed
-                                                    }
-                                                }
-                                            }
-                                            ::peg::RuleResult::Failed => {
-                                                __err_state.mark_failure(__pos, "\"::\"");
-                                                ::peg::RuleResult::Failed
-                                            }
-                                        };
-                                    match __choice_res {
-                                        ::peg::RuleResult::Matched(__pos, __value) => {
-                                            ::peg::RuleResult::Matched(__pos, __value)
-                                        }
-                                        ::peg::RuleResult::Failed => {
-                                            let __choice_res = match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "::") { :: peg :: RuleResult :: Matched (__pos , __val) => { match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "{") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = { let __seq_res = { let mut __repeat_pos = __pos ; let mut __repeat_value = vec ! () ; loop { let __pos = __repeat_pos ; let __pos = if __repeat_value . is_empty () { __pos } else { let __sep_res = match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , ",") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , __val) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\",\"") ; :: peg :: RuleResult :: Failed } } ; match __sep_res { :: peg :: RuleResult :: Matched (__newpos , _) => { __newpos } , :: peg :: RuleResult :: Failed => break , } } ; let __step_res = { let __seq_res = match __parse_IDENT (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (pos , _) => :: peg :: RuleResult :: Matched (pos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { { let __seq_res = match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "as") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = match __parse_IDENT (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (pos , _) => :: peg :: RuleResult :: Matched (pos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"as\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , ()) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , ()) } , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } ; match __step_res { :: peg :: RuleResult :: Matched (__newpos , __value) => { __repeat_pos = __newpos ; __repeat_value . push (__value) ; } , :: peg :: RuleResult :: Failed => { break ; } } } if __repeat_value . len () >= 1 { :: peg :: RuleResult :: Matched (__repeat_pos , ()) } else { :: peg :: RuleResult :: Failed } } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { { let __seq_res = match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , ",") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , __val) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\",\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , ()) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , ()) } , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "}") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"}\"") ; :: peg :: RuleResult :: Failed } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"{\"") ; :: peg :: RuleResult :: Failed } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"::\"") ; :: peg :: RuleResult :: Failed } } ;
-                                            match __choice_res { :: peg :: RuleResult :: Matched (__pos , __value) => :: peg :: RuleResult :: Matched (__pos , __value) , :: peg :: RuleResult :: Failed => match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "as") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = match __parse_IDENT (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (pos , _) => :: peg :: RuleResult :: Matched (pos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"as\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , ()) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , ()) } , } }
-                                        }
+                                match ::peg::ParseLiteral::parse_string_literal(__input, __pos, ";")
+                                {
+                                    ::peg::RuleResult::Matched(__pos, __val) => {
+                                        ::peg::RuleResult::Matched(__pos, ())
                                     }
-                                };
-                                match __seq_res {
-                                    ::peg::RuleResult::Matched(__pos, _) => {
-                                        match ::peg::ParseLiteral::parse_string_literal(
-                                            __input, __pos, ";",
-                                        ) {
-                                            ::peg::RuleResult::Matched(__pos, __val) => {
-                                                ::peg::RuleResult::Matched(__pos, ())
-                                            }
-                                            ::peg::RuleResult::Failed => {
-                                                __err_state.mark_failure(__pos, "\";\"");
-                                                ::peg::RuleResult::Failed
-                                            }
-                                        }
+                                    ::peg::RuleResult::Failed => {
+                                        __err_state.mark_failure(__pos, "\";\"");
+                                        ::peg::RuleResult::Failed
                                     }
-                                    ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                                 }
                             }
                             ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
@@ -1163,7 +1124,7 @@ pub mod peg {
             }
         }
     }
-    fn __parse_rust_path<'input>(
+    fn __parse_rust_use_tree<'input>(
         __input: &'input Input,
         __state: &mut ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
@@ -1172,20 +1133,12 @@ pub mod peg {
         #![allow(non_snake_case, unused, clippy::redundant_closure_call)]
         {
             let __seq_res =
-                match match ::peg::ParseLiteral::parse_string_literal(__input, __pos, "crate") {
+                match match ::peg::ParseLiteral::parse_string_literal(__input, __pos, "::") {
                     ::peg::RuleResult::Matched(__pos, __val) => {
-                        match ::peg::ParseLiteral::parse_string_literal(__input, __pos, "::") {
-                            ::peg::RuleResult::Matched(__pos, __val) => {
-                                ::peg::RuleResult::Matched(__pos, ())
-                            }
-                            ::peg::RuleResult::Failed => {
-                                __err_state.mark_failure(__pos, "\"::\"");
-                                ::peg::RuleResult::Failed
-                            }
-                        }
+                        ::peg::RuleResult::Matched(__pos, __val)
                     }
                     ::peg::RuleResult::Failed => {
-                        __err_state.mark_failure(__pos, "\"crate\"");
+                        __err_state.mark_failure(__pos, "\"::\"");
                         ::peg::RuleResult::Failed
                     }
                 } {
@@ -1198,54 +1151,195 @@ pub mod peg {
                 ::peg::RuleResult::Matched(__pos, _) => {
                     let __seq_res = {
                         let mut __repeat_pos = __pos;
-                        let mut __repeat_value = vec![];
                         loop {
                             let __pos = __repeat_pos;
-                            let __pos = if __repeat_value.is_empty() {
-                                __pos
-                            } else {
-                                let __sep_res = match ::peg::ParseLiteral::parse_string_literal(
-                                    __input, __pos, "::",
-                                ) {
-                                    ::peg::RuleResult::Matched(__pos, __val) => {
-                                        ::peg::RuleResult::Matched(__pos, __val)
-                                    }
-                                    ::peg::RuleResult::Failed => {
-                                        __err_state.mark_failure(__pos, "\"::\"");
-                                        ::peg::RuleResult::Failed
+                            let __step_res = {
+                                let __seq_res =
+                                    match __parse_IDENT(__input, __state, __err_state, __pos) {
+                                        ::peg::RuleResult::Matched(pos, _) => {
+                                            ::peg::RuleResult::Matched(pos, ())
+                                        }
+                                        ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
+                                    };
+                                match __seq_res {
+                                    ::peg::RuleResult::Matched(__pos, _) => {
+                                        match ::peg::ParseLiteral::parse_string_literal(
+                                            __input, __pos, "::",
+                                        ) {
+                                            ::peg::RuleResult::Matched(__pos, __val) => {
+                                                ::peg::RuleResult::Matched(__pos, ())
+                                            }
+                                            ::peg::RuleResult::Failed => {
+                                                __err_state.mark_failure(__pos, "\"::\"");
+                                                ::peg::RuleResult::Failed
+                                            }
+                                        }
                                     }
-                                };
-                                match __sep_res {
-                                    ::peg::RuleResult::Matched(__newpos, _) => __newpos,
-                                    ::peg::RuleResult::Failed => break,
+                                    ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                                 }
                             };
-                            let __step_res =
-                                match __parse_IDENT(__input, __state, __err_state, __pos) {
-                                    ::peg::RuleResult::Matched(pos, _) => {
-                                        ::peg::RuleResult::Matched(pos, ())
-                                    }
-                                    ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
-                                };
                             match __step_res {
                                 ::peg::RuleResult::Matched(__newpos, __value) => {
                                     __repeat_pos = __newpos;
-                                    __repeat_value.push(__value);
                                 }
                                 ::peg::RuleResult::Failed => {
                                     break;
                                 }
                             }
                         }
-                        if __repeat_value.len() >= 1 {
-                            ::peg::RuleResult::Matched(__repeat_pos, ())
-                        } else {
-                            ::peg::RuleResult::Failed
-                        }
+                        ::peg::RuleResult::Matched(__repeat_pos, ())
                     };
                     match __seq_res {
                         ::peg::RuleResult::Matched(__pos, _) => {
-                            ::peg::RuleResult::Matched(__pos, ())
+                            let __seq_res = {
+                                let __choice_res = match ::peg::ParseLiteral::parse_string_literal(
+                                    __input, __pos, "*",
+                                ) {
+                                    ::peg::RuleResult::Matched(__pos, __val) => {
+                                        ::peg::RuleResult::Matched(__pos, __val)
+                                    }
+                                    ::peg::RuleResult::Failed => {
+                                        __err_state.mark_failure(__pos, "\"*\"");
+                                        ::peg::RuleResult::Failed
+                                    }
+                                };
+                                match __choice_res {
+                                    ::peg::RuleResult::Matched(__pos, __value) => {
+                                        ::peg::RuleResult::Matched(__pos, __value)
+                                    }
+                                    ::peg::RuleResult::Failed => {
+                                        let __choice_res =
+                                            match ::peg::ParseLiteral::parse_string_literal(
+                                                __input, __pos, "{",
+                                            ) {
+                                                ::peg::RuleResult::Matched(__pos, __val) => {
+                                                    let __seq_res = match {
+                                                        let __seq_res = {
+                                                            let mut __repeat_pos = __pos;
+                                                            let mut __repeat_value = vec![];
+                                                            loop {
+                                                                let __pos = __repeat_pos;
+                                                                let __pos = if __repeat_value
+                                                                    .is_empty()
+                                                                {
+                                                                    __pos
+                                                                } else {
+                                                                    let __sep_res = match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , ",") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , __val) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\",\"") ; :: peg :: RuleResult :: Failed } } ;
+                                                                    match __sep_res { :: peg :: RuleResult :: Matched (__newpos , _) => { __newpos } , :: peg :: RuleResult :: Failed => break , }
+                                                                };
+                                                                let __step_res = match __parse_rust_use_tree (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (pos , _) => :: peg :: RuleResult :: Matched (pos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ;
+                                                                match __step_res {
+                                                                    ::peg::RuleResult::Matched(
+                                                                        __newpos,
+                                                                        __value,
+                                                                    ) => {
+                                                                        __repeat_pos = __newpos;
+                                                                        __repeat_value
+                                                                            .push(__value);
+                                                                    }
+                                                                    ::peg::RuleResult::Failed => {
+                                                                        break;
+                                                                    }
+                                                                }
+                                                            }
+                                                            if __repeat_value.len() >= 1 {
+                                                                ::peg::RuleResult::Matched(
+                                                                    __repeat_pos,
+                                                                    (),
+                                                                )
+                                                            } else {
+                                                                ::peg::RuleResult::Failed
+                                                            }
+                                                        };
+                                                        match __seq_res {
+                                                            ::peg::RuleResult::Matched(
+                                                                __pos,
+                                                                _,
+                                                            ) => {
+                                                                let __seq_res = match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , ",") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , __val) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\",\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , ()) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , ()) } , } ;
+                                                                match __seq_res {
+                                                                    ::peg::RuleResult::Matched(
+                                                                        __pos,
+                                                                        _,
+                                                                    ) => {
+                                                                        ::peg::RuleResult::Matched(
+                                                                            __pos,
+                                                                            (),
+                                                                        )
+                                                                    }
+                                                                    ::peg::RuleResult::Failed => {
+                                                                        ::peg::RuleResult::Failed
+                                                                    }
+                                                                }
+                                                            }
+                                                            ::peg::RuleResult::Failed => {
+                                                                ::peg::RuleResult::Failed
+                                                            }
+                                                        }
+                                                    } {
+                                                        ::peg::RuleResult::Matched(__newpos, _) => {
+                                                            ::peg::RuleResult::Matched(__newpos, ())
+                                                        }
+                                                        ::peg::RuleResult::Failed => {
+                                                            ::peg::RuleResult::Matched(__pos, ())
+                                                        }
+                                                    };
+                                                    match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "}") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"}\"") ; :: peg :: RuleResult :: Failed } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , }
+                                                }
+                                                ::peg::RuleResult::Failed => {
+                                                    __err_state.mark_failure(__pos, "\"{\"");
+                                                    ::peg::RuleResult::Failed
+                                                }
+                                            };
+                                        match __choice_res {
+                                            ::peg::RuleResult::Matched(__pos, __value) => {
+                                                ::peg::RuleResult::Matched(__pos, __value)
+                                            }
+                                            ::peg::RuleResult::Failed => {
+                                                let __seq_res = match __parse_IDENT(
+                                                    __input,
+                                                    __state,
+                                                    __err_state,
+                                                    __pos,
+                                                ) {
+                                                    ::peg::RuleResult::Matched(pos, _) => {
+                                                        ::peg::RuleResult::Matched(pos, ())
+                                                    }
+                                                    ::peg::RuleResult::Failed => {
+                                                        ::peg::RuleResult::Failed
+                                                    }
+                                                };
+                                                match __seq_res {
+                                                    ::peg::RuleResult::Matched(__pos, _) => {
+                                                        let __seq_res = match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "as") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = match __parse_IDENT (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (pos , _) => :: peg :: RuleResult :: Matched (pos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"as\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , ()) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , ()) } , } ;
+                                                        match __seq_res {
+                                                            ::peg::RuleResult::Matched(
+                                                                __pos,
+                                                                _,
+                                                            ) => ::peg::RuleResult::Matched(
+                                                                __pos,
+                                                                (),
+                                                            ),
+                                                            ::peg::RuleResult::Failed => {
+                                                                ::peg::RuleResult::Failed
+                                                            }
+                                                        }
+                                                    }
+                                                    ::peg::RuleResult::Failed => {
+                                                        ::peg::RuleResult::Failed
+                                                    }
+                                                }
+                                            }
+                                        }
+                                    }
+                                }
+                            };
+                            match __seq_res {
+                                ::peg::RuleResult::Matched(__pos, _) => {
+                                    ::peg::RuleResult::Matched(__pos, ())
+                                }
+                                ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
+                            }
                         }
                         ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                     }
diff --git a/peg-macros/grammar.rustpeg b/peg-macros/grammar.rustpeg
index 542684b..042747d 100644
--- a/peg-macros/grammar.rustpeg
+++ b/peg-macros/grammar.rustpeg
@@ -47,14 +47,14 @@ rule rust_doc_comment() -> Option<TokenStream> = $(("#" "[" "doc" "=" LITERAL()
 rule rust_visibility() -> Option<TokenStream> = $("pub" PAREN_GROUP()?)?
 
 rule rust_use() -> TokenStream
-    = v:$("use" rust_path() (
-        "::" "*"
-        / "::" "{" ((IDENT() ("as" IDENT())?) ++ "," ","?) "}"
-        / ("as" IDENT())?
-    ) ";") { v.to_owned() }
-
-rule rust_path()
-    = ("crate" "::")? IDENT() ++ "::"
+    = v:$("use" rust_use_tree() ";") { v.to_owned() }
+
+rule rust_use_tree()
+    = "::"? (IDENT() "::")* (
+        "*"
+        / "{" (rust_use_tree() ++ "," ","?)? "}"
+        / IDENT() ("as" IDENT())?
+    )
 
 rule rust_type()
     = BRACKET_GROUP()
-- 
2.43.0


From ab4919d3baa3d0b4fc196a03d392df280e47321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:22 +0000
Subject: [PATCH 09/13] fix: name the variants of Option, Result and RuleResult
 and the Fn traits by their paths

---
 peg-macros/translate.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/peg-macros/translate.rs b/peg-macros/translate.rs
index 4953da9..628224c 100644
--- a/peg-macros/translate.rs
+++ b/peg-macros/translate.rs
@@ -203,7 +203,7 @@ fn rule_params_list(context: &Context, rule: &Rule) -> Vec<TokenStream> {
         match &param.ty {
             RuleParamTy::Rust(ty) => quote_spanned!{ span => #name: #ty },
             RuleParamTy::Rule(ty) => quote_spanned!{ span =>
-                #name: impl Fn(#input_ty, #parse_state_ty, &mut ::peg::error::ErrorState, usize) -> ::peg::RuleResult<#ty>
+                #name: impl ::core::ops::Fn(#input_ty, #parse_state_ty, &mut ::peg::error::ErrorState, usize) -> ::peg::RuleResult<#ty>
             },
         }
     }).collect()
@@ -268,7 +268,7 @@ fn compile_rule(context: &Context, rule: &Rule) -> TokenStream {
                     let loc = ::peg::Parse::position_repr(__input, __pos);
                     match &entry {
                         &::peg::RuleResult::Matched(..) => println!("[PEG_TRACE] Cached match of rule `{}` at {}", #str_rule_name, loc),
-                        &Failed => println!("[PEG_TRACE] Cached fail of rule `{}` at {}", #str_rule_name, loc),
+                        &::peg::RuleResult::Failed => println!("[PEG_TRACE] Cached fail of rule `{}` at {}", #str_rule_name, loc),
                     };
                 }
             } else {
@@ -277,7 +277,7 @@ fn compile_rule(context: &Context, rule: &Rule) -> TokenStream {
 
             match cache_type {
                 Cache::Simple => quote_spanned! { span =>
-                    if let Some(entry) = __state.#cache_field.get(&__pos) {
+                    if let ::core::option::Option::Some(entry) = __state.#cache_field.get(&__pos) {
                         #cache_trace
                         return entry.clone();
                     }
@@ -291,7 +291,7 @@ fn compile_rule(context: &Context, rule: &Rule) -> TokenStream {
                 // <https://medium.com/@gvanrossum_83706/left-recursive-peg-grammars-65dab3c580e1>
                 {
                     quote_spanned! { span =>
-                        if let Some(entry) = __state.#cache_field.get(&__pos) {
+                        if let ::core::option::Option::Some(entry) = __state.#cache_field.get(&__pos) {
                             #cache_trace
                             return entry.clone();
                         }
@@ -394,7 +394,7 @@ fn compile_rule_export(context: &Context, rule: &Rule) -> TokenStream {
             match #parse_fn(__input, &mut __state, &mut __err_state, ::peg::Parse::start(__input) #extra_args_call #(, #rule_params_call)*) {
                 ::peg::RuleResult::Matched(__pos, __value) => {
                     if #eof_check {
-                        return Ok(__value)
+                        return ::core::result::Result::Ok(__value)
                     } else {
                         __err_state.mark_failure(__pos, "EOF");
                     }
@@ -409,7 +409,7 @@ fn compile_rule_export(context: &Context, rule: &Rule) -> TokenStream {
                 ::peg::RuleResult::Matched(__pos, __value) => {
                     if #eof_check {
                         panic!("Parser is nondeterministic: succeeded when reparsing for error position");
-                        return Ok(__value); // dead code, but needed for type inference
+                        return ::core::result::Result::Ok(__value); // dead code, but needed for type inference
                     } else {
                         __err_state.mark_failure(__pos, "EOF");
                     }
@@ -417,7 +417,7 @@ fn compile_rule_export(context: &Context, rule: &Rule) -> TokenStream {
                 _ => ()
             }
 
-            Err(__err_state.into_parse_error(__input))
+            ::core::result::Result::Err(__err_state.into_parse_error(__input))
         }
     }
 }
@@ -657,8 +657,8 @@ fn compile_expr(context: &Context, e: &SpannedExpr, result_used: bool) -> TokenS
             if result_used {
                 quote_spanned! { span=>
                     match #optional_res {
-                        ::peg::RuleResult::Matched(__newpos, __value) => { ::peg::RuleResult::Matched(__newpos, Some(__value)) },
-                        ::peg::RuleResult::Failed => { ::peg::RuleResult::Matched(__pos, None) },
+                        ::peg::RuleResult::Matched(__newpos, __value) => { ::peg::RuleResult::Matched(__newpos, ::core::option::Option::Some(__value)) },
+                        ::peg::RuleResult::Failed => { ::peg::RuleResult::Matched(__pos, ::core::option::Option::None) },
                     }
                 }
             } else {
@@ -792,8 +792,8 @@ fn compile_expr(context: &Context, e: &SpannedExpr, result_used: bool) -> TokenS
                 if let Some(body) = group_check_prefix(code, '?') {
                     quote_spanned! {code_span =>
                         match (||{ #body })() {
-                            Ok(res) => ::peg::RuleResult::Matched(__pos, res),
-                            Err(expected) => {
+                            ::core::result::Result::Ok(res) => ::peg::RuleResult::Matched(__pos, res),
+                            ::core::result::Result::Err(expected) => {
                                 __err_state.mark_failure(__pos, expected);
                                 ::peg::RuleResult::Failed
                             },
@@ -974,8 +974,8 @@ fn compile_expr(context: &Context, e: &SpannedExpr, result_used: bool) -> TokenS
                     err_state: &mut ::peg::error::ErrorState,
                     min_prec: i32,
                     lpos: usize,
-                    prefix_atom: &dyn Fn(usize, &mut S, &mut ::peg::error::ErrorState, &dyn Fn(usize, i32, &mut S, &mut ::peg::error::ErrorState) -> ::peg::RuleResult<T>) -> ::peg::RuleResult<T>,
-                    level_code: &dyn Fn(usize, usize, i32, T, &mut S, &mut ::peg::error::ErrorState, &dyn Fn(usize, i32, &mut S, &mut ::peg::error::ErrorState) -> ::peg::RuleResult<T>) -> (T, ::peg::RuleResult<()>),
+                    prefix_atom: &dyn ::core::ops::Fn(usize, &mut S, &mut ::peg::error::ErrorState, &dyn ::core::ops::Fn(usize, i32, &mut S, &mut ::peg::error::ErrorState) -> ::peg::RuleResult<T>) -> ::peg::RuleResult<T>,
+                    level_code: &dyn ::core::ops::Fn(usize, usize, i32, T, &mut S, &mut ::peg::error::ErrorState, &dyn ::core::ops::Fn(usize, i32, &mut S, &mut ::peg::error::ErrorState) -> ::peg::RuleResult<T>) -> (T, ::peg::RuleResult<()>),
                 ) -> ::peg::RuleResult<T> {
                     let initial = {
                         prefix_atom(lpos, state, err_state, &|pos, min_prec, state, err_state| {
-- 
2.43.0


From a1f33535a406eaf22e4feb336816906c59341733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 10/13] fix: a rule parameter is not the rule of the same name
 in the analyses

---
 peg-macros/analysis.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/peg-macros/analysis.rs b/peg-macros/analysis.rs
index 1ff2826..5057b90 100644
--- a/peg-macros/analysis.rs
+++ b/peg-macros/analysis.rs
@@ -33,6 +33,7 @@ pub fn check<'a>(grammar: &'a Grammar) -> GrammarAnalysis<'a> {
 /// recurse until the stack overflows.
 struct LeftRecursionVisitor<'a> {
     stack: Vec<String>,
+    params: &'a [RuleParam],
     rules: &'a HashMap<String, &'a Rule>,
     errors: Vec<LeftRecursionError>,
 }
@@ -57,6 +58,7 @@ impl<'a> LeftRecursionVisitor<'a> {
             rules,
             errors: Vec::new(),
             stack: Vec::new(),
+            params: &[],
         };
 
         let mut rule_nullability: HashMap<String, bool> = HashMap::new();
@@ -72,7 +74,9 @@ impl<'a> LeftRecursionVisitor<'a> {
 
     fn walk_rule(&mut self, rule: &'a Rule) -> bool {
         self.stack.push(rule.name.to_string());
+        let caller_params = std::mem::replace(&mut self.params, &rule.params);
         let res = self.walk_expr(&rule.expr);
+        self.params = caller_params;
         self.stack.pop().unwrap();
         res
     }
@@ -89,6 +93,11 @@ impl<'a> LeftRecursionVisitor<'a> {
             RuleExpr(ref rule_ident, _, _) => {
                 let name = rule_ident.to_string();
 
+                // A parameter of the rule hides a rule of the same name; what it matches is unknown
+                if self.params.iter().any(|param| param.name == name) {
+                    return false;
+                }
+
                 if let Some(rule) = self.rules.get(&name) {
                     if let Some(loop_start) = self
                         .stack
@@ -199,6 +208,7 @@ impl<'a> LeftRecursionVisitor<'a> {
 /// will loop infinitely.
 struct LoopNullabilityVisitor<'a> {
     rule_nullability: &'a HashMap<String, bool>,
+    params: &'a [RuleParam],
     errors: Vec<LoopNullabilityError>,
 }
 
@@ -214,13 +224,15 @@ impl LoopNullabilityError {
 
 
 impl<'a> LoopNullabilityVisitor<'a> {
-    fn check(grammar: &'a Grammar, rule_nullability: &HashMap<String, bool>) -> Vec<LoopNullabilityError> {
+    fn check(grammar: &'a Grammar, rule_nullability: &'a HashMap<String, bool>) -> Vec<LoopNullabilityError> {
         let mut visitor = LoopNullabilityVisitor {
             rule_nullability,
+            params: &[],
             errors: Vec::new(),
         };
 
         for rule in grammar.iter_rules() {
+            visitor.params = &rule.params;
             visitor.walk_expr(&rule.expr);
         }
 
@@ -242,6 +254,12 @@ impl<'a> LoopNullabilityVisitor<'a> {
         match this_expr.expr {
             RuleExpr(ref rule_ident, _, _) => {
                 let name = rule_ident.to_string();
+
+                // A parameter of the rule hides a rule of the same name; what it matches is unknown
+                if self.params.iter().any(|param| param.name == name) {
+                    return false;
+                }
+
                 *self.rule_nullability.get(&name).unwrap_or(&false)
             }
 
-- 
2.43.0


From 0a61200e2e0bd87987eef8f2ca956b85d287daf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 11/13] fix: look for endless loops in the arguments of rule
 calls

---
 peg-macros/analysis.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/peg-macros/analysis.rs b/peg-macros/analysis.rs
index 5057b90..30bfb58 100644
--- a/peg-macros/analysis.rs
+++ b/peg-macros/analysis.rs
@@ -252,7 +252,13 @@ impl<'a> LoopNullabilityVisitor<'a> {
     fn walk_expr(&mut self, this_expr: &SpannedExpr) -> bool {
         use self::Expr::*;
         match this_expr.expr {
-            RuleExpr(ref rule_ident, _, _) => {
+            RuleExpr(ref rule_ident, _, ref args) => {
+                for arg in args {
+                    if let RuleArg::Peg(expr) = arg {
+                        self.walk_expr(expr);
+                    }
+                }
+
                 let name = rule_ident.to_string();
 
                 // A parameter of the rule hides a rule of the same name; what it matches is unknown
-- 
2.43.0


From 18bc94a359a73f00b22ae9c07b63242fdbe2682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 12/13] fix: keep the name of the precedence parsing function
 out of the scope of embedded code

---
 peg-macros/translate.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/peg-macros/translate.rs b/peg-macros/translate.rs
index 628224c..88fd95a 100644
--- a/peg-macros/translate.rs
+++ b/peg-macros/translate.rs
@@ -968,7 +968,11 @@ fn compile_expr(context: &Context, e: &SpannedExpr, result_used: bool) -> TokenS
             // The closures below must be defined within the function call to which they are passed
             // due to https://github.com/rust-lang/rust/issues/41078
 
+            // The function is an item, which is visible to all code in its block (unlike local variables,
+            // items aren't hygienic), so it gets a block of its own, without code of the user.
+
             quote_spanned! { span => {
+                let __infix_parse = {
                 fn __infix_parse<T, S>(
                     state: &mut S,
                     err_state: &mut ::peg::error::ErrorState,
@@ -1013,6 +1017,8 @@ fn compile_expr(context: &Context, e: &SpannedExpr, result_used: bool) -> TokenS
                         ::peg::RuleResult::Failed
                     }
                 }
+                __infix_parse
+                };
 
                 __infix_parse(__state, __err_state, 0, __pos,
                     &|__pos, __state, __err_state, __recurse| {
-- 
2.43.0


From bdacd80d6b7b3c2272d3dd7130a01cd69426caca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:36 +0000
Subject: [PATCH 13/13] fix: keep labels and parameters from meeting the names
 of the generated functions

---
 peg-macros/translate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peg-macros/translate.rs b/peg-macros/translate.rs
index 88fd95a..78b4b9f 100644
--- a/peg-macros/translate.rs
+++ b/peg-macros/translate.rs
@@ -347,7 +347,7 @@ fn compile_rule_export(context: &Context, rule: &Rule) -> TokenStream {
         ..
     } = rule;
     let ret_ty = rule.ret_type.clone().unwrap_or_else(|| quote!(()));
-    let parse_fn = format_ident!("__parse_{}", rule.name, span = name.span());
+    let parse_fn = format_ident!("__parse_{}", rule.name, span = name.span().resolved_at(Span::mixed_site()));
     let ty_params = ty_params_slice(&rule.ty_params);
     let where_clause = rule.where_clause.as_ref().into_iter();
     let rule_params = rule_params_list(context, rule);
@@ -609,7 +609,7 @@ fn compile_expr(context: &Context, e: &SpannedExpr, result_used: bool) -> TokenS
                 );
             }
 
-            let func = format_ident!("__parse_{}", rule_name, span = rule_name.span());
+            let func = format_ident!("__parse_{}", rule_name, span = rule_name.span().resolved_at(Span::mixed_site()));
             let extra_args_call = &context.extra_args_call;
 
             let rule_args_call: Vec<TokenStream> = rule_args
-- 
2.43.0

