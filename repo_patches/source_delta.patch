From 96b3410a1bac2cb738999e7390ac828fc7ded23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 1/4] fix: compare end of parse with byte length of text

Range offsets are byte offsets, so comparing with the number of characters
accepted a text with unread remainder when it contained multi-byte characters.
---
 src/meta_rules/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meta_rules/mod.rs b/src/meta_rules/mod.rs
index c1766a0..3be4666 100644
--- a/src/meta_rules/mod.rs
+++ b/src/meta_rules/mod.rs
@@ -72,7 +72,7 @@ pub fn parse_with_indent(
     match res {
         Ok((range, s, opt_error)) => {
             // Report error if did not reach the end of text.
-            if range.next_offset() < text.chars().count() {
+            if range.next_offset() < text.len() {
                 Err(ret_err(
                     Range::empty(range.next_offset()).wrap(
                         ParseError::ExpectedEnd),
-- 
2.43.0


From ea2d8c809d69d72ceacc94b76198478ad65a3732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 2/4] fix: separated by does not allow trailing unless asked
 for

`.s?(by rule)` and `.s!(by rule)` are documented as "no trailing"; only
`.s?.(by rule)` and `.s!.(by rule)` allow a trailing separator.
---
 src/bootstrap/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index 7f7d5ab..c3cf5cf 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -654,7 +654,7 @@ pub fn convert(
             }
         }
         let optional = optional.unwrap_or(true);
-        let allow_trail = allow_trail.unwrap_or(true);
+        let allow_trail = allow_trail.unwrap_or(false);
         match (by, rule) {
             (Some(by), Some(rule)) => {
                 *debug_id += 1;
-- 
2.43.0


From 861032c605c9fe7d6520f1f7d81347b074f099db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:58 +0000
Subject: [PATCH 3/4] fix: try the last rule of an optimized select at end of
 text

`FastSelect` with `tail` failed at the end of the text without trying the last
rule, so a select ending with an optional rule rejected what it accepts when
not optimized.
---
 src/meta_rules/fast_select.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/meta_rules/fast_select.rs b/src/meta_rules/fast_select.rs
index 9e4fb57..8da5ea1 100644
--- a/src/meta_rules/fast_select.rs
+++ b/src/meta_rules/fast_select.rs
@@ -50,8 +50,8 @@ impl FastSelect {
         indent_settings: &mut IndentSettings,
     ) -> ParseResult<TokenizerState> {
         if self.tail {
+            let mut opt_error: Option<Range<ParseError>> = None;
             if let Some(ch) = read_token.src.chars().next() {
-                let mut opt_error: Option<Range<ParseError>> = None;
                 let mut buf = [0; 4];
                 ch.encode_utf8(&mut buf);
                 let ind = self.table[buf[0] as usize];
@@ -68,20 +68,19 @@ impl FastSelect {
                         }
                     }
                 }
-                let sub_rule = &self.args[self.args.len()-1];
-                match sub_rule.parse(tokens, state, read_token, refs, indent_settings) {
-                    Ok((range, state, err)) => {
-                        err_update(err, &mut opt_error);
-                        Ok((read_token.peek(range.length),
-                            state, opt_error))
-                    }
-                    Err(err) => {
-                        Err(ret_err(err, opt_error))
-                    }
+            }
+            // Try the last rule at the end of text too, since it might succeed
+            // without reading anything.
+            let sub_rule = &self.args[self.args.len()-1];
+            match sub_rule.parse(tokens, state, read_token, refs, indent_settings) {
+                Ok((range, state, err)) => {
+                    err_update(err, &mut opt_error);
+                    Ok((read_token.peek(range.length),
+                        state, opt_error))
+                }
+                Err(err) => {
+                    Err(ret_err(err, opt_error))
                 }
-            } else {
-                Err(read_token.start().wrap(
-                    ParseError::ExpectedSomething(self.debug_id)))
             }
         } else {
             if let Some(ch) = read_token.src.chars().next() {
-- 
2.43.0


From 77215db54b161ff1451c1b8401e72eef8d510ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:23 +0000
Subject: [PATCH 4/4] fix: large rule numbers do not overflow debug ids

---
 src/bootstrap/convert.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index c3cf5cf..381b735 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -851,7 +851,9 @@ pub fn convert(
                 convert.update(range);
                 break;
             } else if let Ok((range, val)) = convert.meta_f64("id") {
-                id = Some(val as usize);
+                // Leave room for debug ids, which are the number times 1000
+                // and up, such that a large number does not overflow.
+                id = Some(::std::cmp::min(val as usize, usize::max_value() / 2000));
                 convert.update(range);
             } else if let Ok((range, val)) = convert.meta_string("name") {
                 name = Some(val);
-- 
2.43.0

