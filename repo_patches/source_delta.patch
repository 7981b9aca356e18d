From a5f54efc9f37a893cb1ac61b2ef04601105bf7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 01/23] fix: do not scope global styles when loading style data

StyleManager::load_style_data rendered every recorded style with its id as
the class name, so a hydrated GlobalStyle reported scoped CSS.
---
 packages/stylist/src/manager/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index c85ef2e..2722102 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -386,7 +386,7 @@ mod feat_hydration {
                         m.insert(
                             StyleContent {
                                 id: id.clone(),
-                                style_str: key.ast.to_style_str(Some(id)),
+                                style_str: key.ast.to_style_str((!key.is_global).then_some(id)),
                                 manager: self.downgrade(),
                                 key: key.clone(),
                             }
-- 
2.43.0


From cefc8c4694d232b396366a34197f1d87cbe56481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 02/23] fix: prepend styles to the container instead of its
 first child

With append(false) the style element was inserted into the first child of
the container before that very child, which the DOM rejects.
---
 packages/stylist/src/manager/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 2722102..ed1da0f 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -234,7 +234,9 @@ impl StyleManager {
             // Prepend element
             if !self.inner.append {
                 if let Some(m) = container.first_child() {
-                    return m.insert_before(&style_element, Some(&m)).map(|_m| ());
+                    return container
+                        .insert_before(&style_element, Some(&m))
+                        .map(|_m| ());
                 }
             }
 
-- 
2.43.0


From c4a72137a0a01da56e0221f4a2e2f29095b6718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 03/23] fix: allow white space inside empty @keyframes and rule
 bodies

---
 packages/stylist-core/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index d51dceb..3a36141 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -355,7 +355,7 @@ impl Parser {
                     cond,
                     tag("{"),
                     // Collect contents with-in rules.
-                    terminated(Self::rule_block_contents, tag("}")),
+                    terminated(Self::trimmed(Self::rule_block_contents), tag("}")),
                 ),
                 // Map Results into a scope
                 |p: (Vec<StringFragment>, Vec<RuleBlockContent>)| Rule {
@@ -437,7 +437,7 @@ impl Parser {
                     tag("{"),
                     // Collect contents with-in rules.
                     terminated(
-                        many0(|i| Parser::rule_block(i, RuleBlockKind::Keyframes)),
+                        Self::trimmed(many0(|i| Parser::rule_block(i, RuleBlockKind::Keyframes))),
                         tag("}"),
                     ),
                 ),
-- 
2.43.0


From 0be6de044ac58d11d1ee84a61f0bdd65ff08a106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:50 +0000
Subject: [PATCH 04/23] fix: reject stray ';' and '}' in selectors and at-rule
 conditions

---
 packages/stylist-core/src/parser.rs | 32 +++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 3a36141..8b8555a 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -246,6 +246,25 @@ impl Parser {
         )(i)
     }
 
+    /// Parse a balanced pair of parentheses and everything between them.
+    fn parens(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
+        traced_context(
+            "Parens",
+            recognize(delimited(
+                tag("("),
+                many0(alt((
+                    Self::cmt,
+                    is_not("${}()\"/"),
+                    tag("/"),
+                    Self::parens,
+                    Self::string,
+                    recognize(Self::interpolation),
+                ))),
+                tag(")"),
+            )),
+        )(i)
+    }
+
     /// Parse a selector.
     // TODO: Parse selector properly.
     fn selector(i: &str) -> IResult<&str, Selector, VerboseError<&str>> {
@@ -253,7 +272,9 @@ impl Parser {
             "Selector",
             Self::trimmed(expect_non_empty(map(
                 recognize(many1(alt((
-                    recognize(preceded(none_of("$,}@{\""), opt(is_not("$,\"{")))),
+                    Self::cmt,
+                    recognize(preceded(none_of("$,;}@{\"/"), opt(is_not("$,;}{\"/")))),
+                    tag("/"),
                     Self::string,
                     recognize(Self::interpolation),
                 )))),
@@ -409,7 +430,14 @@ impl Parser {
                 pair(
                     tags,
                     map(
-                        recognize(many1(alt((is_not("${"), recognize(Self::interpolation))))),
+                        recognize(many1(alt((
+                            Self::cmt,
+                            is_not("${;}()\"/"),
+                            tag("/"),
+                            Self::parens,
+                            Self::string,
+                            recognize(Self::interpolation),
+                        )))),
                         |m: &str| StringFragment {
                             inner: m.trim().to_string().into(),
                         },
-- 
2.43.0


From 4d5c4b5deb51d25f218addc985b8f9450fcec24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:06 +0000
Subject: [PATCH 05/23] fix: do not split selector lists inside parentheses

---
 packages/stylist-core/src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 8b8555a..b98eb5f 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -273,8 +273,9 @@ impl Parser {
             Self::trimmed(expect_non_empty(map(
                 recognize(many1(alt((
                     Self::cmt,
-                    recognize(preceded(none_of("$,;}@{\"/"), opt(is_not("$,;}{\"/")))),
+                    recognize(preceded(none_of("$,;}@{()\"/"), opt(is_not("$,;}{()\"/")))),
                     tag("/"),
+                    Self::parens,
                     Self::string,
                     recognize(Self::interpolation),
                 )))),
-- 
2.43.0


From 06cf74adf211578e12cd48ed67ff7f6baac2ae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:42 +0000
Subject: [PATCH 06/23] fix: accept '$' and '{' that do not start an
 interpolation

Selectors such as [href$=".pdf"] and quoted strings containing a lone '$'
or '{' were rejected.
---
 packages/stylist-core/src/parser.rs            |  2 ++
 packages/stylist-macros/src/literal/fstring.rs | 12 ++++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index b98eb5f..c664a85 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -256,6 +256,7 @@ impl Parser {
                     Self::cmt,
                     is_not("${}()\"/"),
                     tag("/"),
+                    terminated(tag("$"), not(char('{'))),
                     Self::parens,
                     Self::string,
                     recognize(Self::interpolation),
@@ -275,6 +276,7 @@ impl Parser {
                     Self::cmt,
                     recognize(preceded(none_of("$,;}@{()\"/"), opt(is_not("$,;}{()\"/")))),
                     tag("/"),
+                    terminated(tag("$"), not(char('{'))),
                     Self::parens,
                     Self::string,
                     recognize(Self::interpolation),
diff --git a/packages/stylist-macros/src/literal/fstring.rs b/packages/stylist-macros/src/literal/fstring.rs
index 20f9995..cc604b3 100644
--- a/packages/stylist-macros/src/literal/fstring.rs
+++ b/packages/stylist-macros/src/literal/fstring.rs
@@ -1,10 +1,10 @@
 use nom::branch::alt;
 use nom::bytes::complete::{is_not, tag, take_while};
-use nom::character::complete::{alpha1, alphanumeric1};
-use nom::combinator::{all_consuming, cut, map, opt, recognize};
+use nom::character::complete::{alpha1, alphanumeric1, char};
+use nom::combinator::{all_consuming, cut, map, not, opt, recognize};
 use nom::error::{context, convert_error, ErrorKind, ParseError, VerboseError};
 use nom::multi::many0;
-use nom::sequence::{delimited, preceded};
+use nom::sequence::{delimited, preceded, terminated};
 use nom::IResult;
 use stylist_core::{Error, Result};
 
@@ -99,7 +99,11 @@ impl Parser {
 
         let result = context(
             "Literal",
-            map(is_not("${"), |m: &str| Fragment::Literal(m.to_string())),
+            map(
+                // A lone dollar sign does not start an interpolation.
+                alt((is_not("$"), terminated(tag("$"), not(char('{'))))),
+                |m: &str| Fragment::Literal(m.to_string()),
+            ),
         )(i);
 
         #[cfg(test)]
-- 
2.43.0


From fb9ff9bbfcbbc33a9539eae1698a236f8353e9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 07/23] fix: leave quoted strings in selectors untouched when
 scoping

---
 packages/stylist-core/src/ast/selector.rs | 47 +++++++++++++++++++----
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/packages/stylist-core/src/ast/selector.rs b/packages/stylist-core/src/ast/selector.rs
index 6eefcb9..72a0221 100644
--- a/packages/stylist-core/src/ast/selector.rs
+++ b/packages/stylist-core/src/ast/selector.rs
@@ -26,12 +26,8 @@ impl ToStyleStr for Selector {
         if let Some(ref m) = ctx.class_name {
             let scoped_class = format!(".{m}");
             // If contains current selector or root pseudo class, replace them with class name.
-            if joined_s.contains('&') || joined_s.contains(":root") {
-                w.push_str(
-                    &joined_s
-                        .replace('&', scoped_class.as_str())
-                        .replace(":root", scoped_class.as_str()),
-                );
+            if let Some(replaced) = replace_unquoted(&joined_s, &["&", ":root"], &scoped_class) {
+                w.push_str(&replaced);
             } else {
                 w.push_str(&scoped_class);
 
@@ -44,8 +40,8 @@ impl ToStyleStr for Selector {
             }
 
         // For global styles, if it contains &, it will be replaced with html.
-        } else if joined_s.contains('&') {
-            w.push_str(&joined_s.replace('&', ":root"));
+        } else if let Some(replaced) = replace_unquoted(&joined_s, &["&"], ":root") {
+            w.push_str(&replaced);
         // For other styles, it will be written as is.
         } else {
             w.push_str(&joined_s);
@@ -53,6 +49,41 @@ impl ToStyleStr for Selector {
     }
 }
 
+/// Replaces every pattern with `to`, leaving quoted strings and escaped characters untouched.
+///
+/// Returns [`None`] if there is nothing to replace.
+fn replace_unquoted(s: &str, patterns: &[&str], to: &str) -> Option<String> {
+    let mut output = String::with_capacity(s.len());
+    let mut replaced = false;
+    let mut quote = None;
+    let mut rest = s;
+
+    'outer: while let Some(c) = rest.chars().next() {
+        if quote.is_none() {
+            for pattern in patterns {
+                if let Some(m) = rest.strip_prefix(pattern) {
+                    output.push_str(to);
+                    replaced = true;
+                    rest = m;
+                    continue 'outer;
+                }
+            }
+        }
+
+        let mut len = c.len_utf8();
+        match c {
+            '\\' => len += rest[len..].chars().next().map_or(0, char::len_utf8),
+            '"' | '\'' if quote.is_none() => quote = Some(c),
+            _ if quote == Some(c) => quote = None,
+            _ => {}
+        }
+        output.push_str(&rest[..len]);
+        rest = &rest[len..];
+    }
+
+    replaced.then_some(output)
+}
+
 impl<T: Into<Cow<'static, [StringFragment]>>> From<T> for Selector {
     fn from(s: T) -> Self {
         Self {
-- 
2.43.0


From 2d9d04657bc7021fd80c15c54481dd76f525c226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 08/23] fix: accept '/' directly before an interpolation or a
 string in values

---
 packages/stylist-core/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index c664a85..9d0e9aa 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -3,7 +3,7 @@ use std::fmt;
 
 use nom::branch::{alt, Alt};
 use nom::bytes::complete::{is_not, tag, take_while1};
-use nom::character::complete::{alpha1, alphanumeric1, anychar, char, none_of};
+use nom::character::complete::{alpha1, alphanumeric1, anychar, char, none_of, one_of};
 use nom::combinator::{fail, map, not, opt, recognize};
 use nom::error::{convert_error, ErrorKind, ParseError, VerboseError};
 use nom::multi::{many0, many1, separated_list1};
@@ -167,7 +167,7 @@ impl Parser {
                     is_not("${;}/\""),
                     recognize(Self::interpolation),
                     Self::string,
-                    recognize(preceded(tag("/"), none_of("${;}\"*"))),
+                    terminated(tag("/"), not(one_of("{;}*"))),
                 )))),
                 |m: &str| StringFragment {
                     inner: m.to_string().trim().to_string().into(),
-- 
2.43.0


From 6657f7d936b7d04e1270c33cd64f55bbb88ee543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 09/23] fix: parse single-quoted strings

---
 packages/stylist-core/src/parser.rs | 30 ++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 9d0e9aa..2aac8ff 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -164,7 +164,7 @@ impl Parser {
             "StyleAttrValue",
             Self::trimmed(map(
                 recognize(many1(alt((
-                    is_not("${;}/\""),
+                    is_not("${;}/\"'"),
                     recognize(Self::interpolation),
                     Self::string,
                     terminated(tag("/"), not(one_of("{;}*"))),
@@ -217,15 +217,20 @@ impl Parser {
         )(i)
     }
 
-    /// Parse a quoted string.
-    // TODO: Parse ' quoted strings.
+    /// Parse a quoted string, in either double or single quotes.
     fn string(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
-        let escaped_char = traced_context("EscapedChar", recognize(preceded(tag("\\"), anychar)));
+        let quoted = |quote: &'static str, plain: &'static str| {
+            let escaped_char =
+                traced_context("EscapedChar", recognize(preceded(tag("\\"), anychar)));
 
-        let parse_str = recognize(preceded(
-            tag("\""),
-            terminated(many0(alt((is_not(r#"\""#), escaped_char))), tag("\"")),
-        ));
+            recognize(delimited(
+                tag(quote),
+                many0(alt((is_not(plain), escaped_char))),
+                tag(quote),
+            ))
+        };
+
+        let parse_str = alt((quoted("\"", r#"\""#), quoted("'", r"\'")));
 
         traced_context("String", Self::trimmed(expect_non_empty(parse_str)))(i)
     }
@@ -254,7 +259,7 @@ impl Parser {
                 tag("("),
                 many0(alt((
                     Self::cmt,
-                    is_not("${}()\"/"),
+                    is_not("${}()\"'/"),
                     tag("/"),
                     terminated(tag("$"), not(char('{'))),
                     Self::parens,
@@ -274,7 +279,10 @@ impl Parser {
             Self::trimmed(expect_non_empty(map(
                 recognize(many1(alt((
                     Self::cmt,
-                    recognize(preceded(none_of("$,;}@{()\"/"), opt(is_not("$,;}{()\"/")))),
+                    recognize(preceded(
+                        none_of("$,;}@{()\"'/"),
+                        opt(is_not("$,;}{()\"'/")),
+                    )),
                     tag("/"),
                     terminated(tag("$"), not(char('{'))),
                     Self::parens,
@@ -435,7 +443,7 @@ impl Parser {
                     map(
                         recognize(many1(alt((
                             Self::cmt,
-                            is_not("${;}()\"/"),
+                            is_not("${;}()\"'/"),
                             tag("/"),
                             Self::parens,
                             Self::string,
-- 
2.43.0


From 75e24da0c7814a8b41a39f87da81752dcd87e136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 10/23] fix: parse declarations followed by a selector with a
 pseudo-class

'color: red; a:hover { .. }' took 'a:hover' for an unterminated declaration.
---
 packages/stylist-core/src/parser.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 2aac8ff..299eb3c 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -200,20 +200,21 @@ impl Parser {
         i: &str,
         dangling: bool,
     ) -> IResult<&str, Vec<StyleAttribute>, VerboseError<&str>> {
-        let final_semicolon = |i| {
+        let attributes = |i| {
             if dangling {
-                map(tag(";"), Some)(i)
+                // Without a semicolon, it is the beginning of a selector.
+                many1(terminated(Self::attribute, tag(";")))(i)
             } else {
-                opt(tag(";"))(i)
+                terminated(
+                    separated_list1(tag(";"), Self::attribute),
+                    preceded(opt(Self::sp), opt(tag(";"))),
+                )(i)
             }
         };
 
         traced_context(
             "StyleAttributes",
-            Self::trimmed(expect_non_empty(terminated(
-                separated_list1(tag(";"), Self::attribute),
-                preceded(opt(Self::sp), final_semicolon),
-            ))),
+            Self::trimmed(expect_non_empty(attributes)),
         )(i)
     }
 
-- 
2.43.0


From 301408f7ab61dcd79f9bad7e927670275b50c4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 11/23] fix: reject unclosed comments in selectors and at-rule
 conditions

---
 packages/stylist-core/src/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 299eb3c..8b70ee3 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -261,7 +261,7 @@ impl Parser {
                 many0(alt((
                     Self::cmt,
                     is_not("${}()\"'/"),
-                    tag("/"),
+                    terminated(tag("/"), not(char('*'))),
                     terminated(tag("$"), not(char('{'))),
                     Self::parens,
                     Self::string,
@@ -284,7 +284,7 @@ impl Parser {
                         none_of("$,;}@{()\"'/"),
                         opt(is_not("$,;}{()\"'/")),
                     )),
-                    tag("/"),
+                    terminated(tag("/"), not(char('*'))),
                     terminated(tag("$"), not(char('{'))),
                     Self::parens,
                     Self::string,
@@ -445,7 +445,7 @@ impl Parser {
                         recognize(many1(alt((
                             Self::cmt,
                             is_not("${;}()\"'/"),
-                            tag("/"),
+                            terminated(tag("/"), not(char('*'))),
                             Self::parens,
                             Self::string,
                             recognize(Self::interpolation),
-- 
2.43.0


From 5aa4404c759746d619b6e36e78dc485178faaf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:18 +0000
Subject: [PATCH 12/23] fix: do not unregister a newer style through a stale
 handle

---
 packages/stylist/src/manager/content.rs  |  2 +-
 packages/stylist/src/manager/mod.rs      |  4 ++--
 packages/stylist/src/manager/registry.rs | 11 ++++++++---
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/packages/stylist/src/manager/content.rs b/packages/stylist/src/manager/content.rs
index 9c28968..07ea68d 100644
--- a/packages/stylist/src/manager/content.rs
+++ b/packages/stylist/src/manager/content.rs
@@ -35,7 +35,7 @@ impl StyleContent {
 
     pub fn unregister(&self) {
         if let Some(mgr) = self.manager() {
-            mgr.unregister_style(self.key());
+            mgr.unregister_style(self);
         }
     }
 }
diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index ed1da0f..a094e99 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -207,8 +207,8 @@ impl StyleManager {
         Ok(content)
     }
 
-    pub(crate) fn unregister_style(&self, key: &Rc<StyleKey>) {
-        self.inner.registry.borrow_mut().unregister(key);
+    pub(crate) fn unregister_style(&self, content: &StyleContent) {
+        self.inner.registry.borrow_mut().unregister(content);
     }
 
     /// Return a reference of style key.
diff --git a/packages/stylist/src/manager/registry.rs b/packages/stylist/src/manager/registry.rs
index 31ac89d..a7023a3 100644
--- a/packages/stylist/src/manager/registry.rs
+++ b/packages/stylist/src/manager/registry.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::hash_map::{Entry, HashMap};
 use std::rc::Rc;
 
 use super::{StyleContent, StyleKey};
@@ -16,8 +16,13 @@ impl StyleRegistry {
         }
     }
 
-    pub fn unregister(&mut self, key: &StyleKey) {
-        self.styles.remove(key);
+    pub fn unregister(&mut self, content: &StyleContent) {
+        // A newer style with the same key may have been registered in the meantime.
+        if let Entry::Occupied(m) = self.styles.entry(content.key().clone()) {
+            if std::ptr::eq(m.get().as_ref(), content) {
+                m.remove();
+            }
+        }
     }
 
     pub fn get(&self, key: &StyleKey) -> Option<Rc<StyleContent>> {
-- 
2.43.0


From c3cd2e7070c33273930c107e80ed9f5d75b3b1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:35 +0000
Subject: [PATCH 13/23] fix: keep the space after and, or and not in inline
 at-rule conditions

---
 .../stylist-macros/src/inline/parse/rule.rs   | 25 +++++++++++++++++--
 packages/stylist/src/macros.rs                |  2 ++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-macros/src/inline/parse/rule.rs b/packages/stylist-macros/src/inline/parse/rule.rs
index 35ed37a..6023b5f 100644
--- a/packages/stylist-macros/src/inline/parse/rule.rs
+++ b/packages/stylist-macros/src/inline/parse/rule.rs
@@ -1,12 +1,33 @@
+use proc_macro2::Delimiter;
 use syn::parse::{Error as ParseError, Parse, ParseBuffer, Result as ParseResult};
 use syn::token;
 
-use super::super::component_value::{ComponentValue, ComponentValueStream};
+use super::super::component_value::{ComponentValue, ComponentValueStream, PreservedToken};
 use super::super::css_ident::CssIdent;
 use super::{fragment_spacing, CssScope, IntoOutputContext};
 use crate::output::{OutputFragment, OutputRule};
 use crate::spacing_iterator::SpacedIterator;
 
+/// The keywords combining conditions are no function names: `and (..)` has to keep its space, unlike
+/// `:not(..)` in a selector.
+fn condition_spacing() -> impl FnMut(&OutputFragment, &OutputFragment) -> Option<OutputFragment> {
+    use OutputFragment::{Delimiter as Delim, Token};
+
+    let mut after_colon = false;
+    move |l, r| {
+        let is_keyword = !after_colon
+            && matches!(l, Token(PreservedToken::Ident(i))
+                if ["and", "or", "not"].contains(&i.to_output_string().to_lowercase().as_str()));
+        after_colon = matches!(l, Token(PreservedToken::Punct(p)) if p.as_char() == ':');
+
+        if is_keyword && matches!(r, Delim(Delimiter::Parenthesis, true)) {
+            Some(' '.into())
+        } else {
+            fragment_spacing(l, r)
+        }
+    }
+}
+
 #[derive(Debug)]
 pub enum CssAtRuleContent {
     Scope(CssScope),
@@ -77,7 +98,7 @@ impl CssAtRule {
                 .clone()
                 .into_iter()
                 .flat_map(|p| p.to_output_fragments())
-                .spaced_with(fragment_spacing),
+                .spaced_with(condition_spacing()),
         );
 
         prelude
diff --git a/packages/stylist/src/macros.rs b/packages/stylist/src/macros.rs
index e625768..d974b11 100644
--- a/packages/stylist/src/macros.rs
+++ b/packages/stylist/src/macros.rs
@@ -102,6 +102,8 @@
 //!   number `3px`, or the '*' character.
 //! - `R` is either an identifier, a literal string or number, the '*' or '#' character.
 //!
+//! In the condition of an at-rule, there is also a space between `and`, `or` or `not` and `(`.
+//!
 //! Spacing around interpolation is ignored regardless.
 //!
 //! Be aware that the above is subject to change once the Span API is stabilized. To avoid future
-- 
2.43.0


From 9c85193a13bb6cff7431adb47df4acec99a0b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 14/23] fix: keep equal <Global> styles registered while
 rendering statically

During static rendering a component is dropped as soon as it has been rendered,
so the guard of <Global> forgot its style and an equal <Global> later on the page
was recorded again under another id; loading such style data fails on the client.
---
 packages/stylist/src/yew/global.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/packages/stylist/src/yew/global.rs b/packages/stylist/src/yew/global.rs
index a4ddad0..ae23eb5 100644
--- a/packages/stylist/src/yew/global.rs
+++ b/packages/stylist/src/yew/global.rs
@@ -43,15 +43,27 @@ pub fn global(props: &GlobalProps) -> Html {
 
     struct GlobalStyleGuard {
         inner: GlobalStyle,
+        #[cfg(feature = "ssr")]
+        manager: StyleManager,
     }
 
     impl Drop for GlobalStyleGuard {
         fn drop(&mut self) {
+            // When rendering statically, components are dropped as soon as they are rendered. A
+            // recorded style stays part of the page: if it was forgotten here, the same style would
+            // be recorded again under another id and the client could not load the style data.
+            #[cfg(feature = "ssr")]
+            if self.manager.style_data().is_some() {
+                return;
+            }
+
             self.inner.unregister();
         }
     }
 
     use_memo((mgr, css), move |(manager, css)| GlobalStyleGuard {
+        #[cfg(feature = "ssr")]
+        manager: manager.clone(),
         inner: GlobalStyle::new_with_manager(css.clone(), manager)
             .expect_display("Failed to create style."),
     });
-- 
2.43.0


From e6e3403d48925cac2a558b033135ef0fed87e962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:04 +0000
Subject: [PATCH 15/23] fix: accept any white space, or a parenthesis, after an
 at-rule keyword

`@media` followed by a newline or tab, or directly by `(`, was rejected.
---
 packages/stylist-core/src/parser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 8b70ee3..5fee562 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -4,7 +4,7 @@ use std::fmt;
 use nom::branch::{alt, Alt};
 use nom::bytes::complete::{is_not, tag, take_while1};
 use nom::character::complete::{alpha1, alphanumeric1, anychar, char, none_of, one_of};
-use nom::combinator::{fail, map, not, opt, recognize};
+use nom::combinator::{fail, map, not, opt, peek, recognize};
 use nom::error::{convert_error, ErrorKind, ParseError, VerboseError};
 use nom::multi::{many0, many1, separated_list1};
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated};
@@ -434,7 +434,11 @@ impl Parser {
     where
         T: Alt<&'a str, &'a str, VerboseError<&'a str>>,
     {
-        let tags = recognize(terminated(alt(tags), tag(" ")));
+        // The keyword ends at white space or at the parenthesis its condition starts with.
+        let tags = terminated(
+            alt(tags),
+            alt((recognize(one_of(" \t\r\n")), peek(tag("(")))),
+        );
 
         traced_context(
             "AtRuleCondition",
@@ -458,7 +462,7 @@ impl Parser {
                 |p: (&str, StringFragment)| {
                     vec![
                         StringFragment {
-                            inner: p.0.to_string().into(),
+                            inner: format!("{} ", p.0).into(),
                         },
                         p.1,
                     ]
-- 
2.43.0


From e0982a9a2802db8fa27172c21a754aea0e65bea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 16/23] fix: unmount styles in shadow roots, frames and
 fragments, and with ids that are no CSS identifiers

Style elements were looked up from the document by an unquoted attribute selector, which finds
nothing in a ShadowRoot, an <iframe /> or a detached container and fails for prefixes that are not
CSS identifiers. The elements are now remembered when they are mounted or, for styles rendered by
the server, when the style data is loaded.
---
 packages/stylist/src/manager/content.rs |  9 +++-
 packages/stylist/src/manager/mod.rs     | 71 +++++++++++++++++++------
 2 files changed, 64 insertions(+), 16 deletions(-)

diff --git a/packages/stylist/src/manager/content.rs b/packages/stylist/src/manager/content.rs
index 07ea68d..8f95373 100644
--- a/packages/stylist/src/manager/content.rs
+++ b/packages/stylist/src/manager/content.rs
@@ -1,5 +1,8 @@
+use std::cell::OnceCell;
 use std::rc::Rc;
 
+use web_sys::Element;
+
 use crate::manager::{StyleId, StyleKey, StyleManager, WeakStyleManager};
 use crate::Result;
 
@@ -10,6 +13,10 @@ pub(crate) struct StyleContent {
     pub style_str: String,
 
     pub manager: WeakStyleManager,
+
+    /// The `<style />` element, unless the server has rendered it outside of the container.
+    #[cfg_attr(not(target_arch = "wasm32"), allow(dead_code))]
+    pub element: OnceCell<Element>,
 }
 
 impl StyleContent {
@@ -22,7 +29,7 @@ impl StyleContent {
     }
 
     pub fn unmount(&self) -> Result<()> {
-        StyleManager::unmount(self.id())
+        StyleManager::unmount(self)
     }
 
     pub fn key(&self) -> &Rc<StyleKey> {
diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index a094e99..3fa34a9 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -7,7 +7,7 @@
 //! This is an advanced feature and most of the time you don't need to use it.
 
 use std::borrow::Cow;
-use std::cell::RefCell;
+use std::cell::{OnceCell, RefCell};
 use std::rc::{Rc, Weak};
 
 use once_cell::unsync::Lazy;
@@ -180,6 +180,7 @@ impl StyleManager {
             style_str,
             manager: weak_mgr,
             key: Rc::new(key),
+            element: OnceCell::new(),
         }
         .into();
 
@@ -236,25 +237,58 @@ impl StyleManager {
                 if let Some(m) = container.first_child() {
                     return container
                         .insert_before(&style_element, Some(&m))
-                        .map(|_m| ());
+                        .map(|_m| style_element);
                 }
             }
 
             container.append_child(&style_element)?;
-            Ok(())
+            Ok(style_element)
         })()
+        .map(|m| {
+            let _result = content.element.set(m);
+        })
         .map_err(|e| Error::Web(Some(e)))
     }
 
+    /// The `<style />` elements in the container, by their id.
+    #[cfg(all(target_arch = "wasm32", feature = "hydration"))]
+    fn rendered_elements(&self) -> std::collections::HashMap<String, web_sys::Element> {
+        use wasm_bindgen::JsCast;
+
+        let mut elements = std::collections::HashMap::new();
+        let mut next = self.container().and_then(|m| m.first_child());
+
+        while let Some(node) = next {
+            next = node.next_sibling();
+
+            // Elements in an <iframe /> are not an instance of this window's Element.
+            if node.node_type() == Node::ELEMENT_NODE {
+                let element = node.unchecked_into::<web_sys::Element>();
+                if let Some(id) = element.get_attribute("data-style") {
+                    elements.entry(id).or_insert(element);
+                }
+            }
+        }
+
+        elements
+    }
+
     /// Unmount the [`Style`](crate::Style) from the DOM tree.
     #[cfg(target_arch = "wasm32")]
-    pub(crate) fn unmount(id: &StyleId) -> Result<()> {
+    pub(crate) fn unmount(content: &StyleContent) -> Result<()> {
         use crate::arch::document;
         use crate::Error;
 
+        // Elements in a ShadowRoot or an <iframe /> cannot be selected from the document.
+        if let Some(m) = content.element.get() {
+            m.remove();
+            return Ok(());
+        }
+
         let document = document()?;
         (|| {
-            if let Some(m) = document.query_selector(&format!("style[data-style={}]", id))? {
+            let selector = format!("style[data-style=\"{}\"]", content.id());
+            if let Some(m) = document.query_selector(&selector)? {
                 if let Some(parent) = m.parent_element() {
                     parent.remove_child(&m)?;
                 }
@@ -276,7 +310,7 @@ impl StyleManager {
     /// Unmount the [`Style`] from the DOM tree.
     #[cfg(not(target_arch = "wasm32"))]
     #[allow(unused_variables)]
-    pub(crate) fn unmount(id: &StyleId) -> Result<()> {
+    pub(crate) fn unmount(content: &StyleContent) -> Result<()> {
         // Does nothing on non-wasm targets.
         Ok(())
     }
@@ -372,6 +406,8 @@ mod feat_hydration {
         /// If the same style to be loaded already existed in the manager, it will panic.
         pub fn load_style_data(&self, data: &StyleData) {
             let mut reg = self.inner.registry.borrow_mut();
+            #[cfg(target_arch = "wasm32")]
+            let mut elements = self.rendered_elements();
 
             for StyleDataContent { id, key, .. } in data.0.iter() {
                 let key = Rc::new(key.clone());
@@ -385,15 +421,20 @@ mod feat_hydration {
                         );
                     }
                     Entry::Vacant(m) => {
-                        m.insert(
-                            StyleContent {
-                                id: id.clone(),
-                                style_str: key.ast.to_style_str((!key.is_global).then_some(id)),
-                                manager: self.downgrade(),
-                                key: key.clone(),
-                            }
-                            .into(),
-                        );
+                        let content = StyleContent {
+                            id: id.clone(),
+                            style_str: key.ast.to_style_str((!key.is_global).then_some(id)),
+                            manager: self.downgrade(),
+                            key: key.clone(),
+                            element: OnceCell::new(),
+                        };
+
+                        #[cfg(target_arch = "wasm32")]
+                        if let Some(element) = elements.remove(&**id) {
+                            let _result = content.element.set(element);
+                        }
+
+                        m.insert(content.into());
                     }
                 }
             }
-- 
2.43.0


From 5e56f5f6678c475f1204226a4ba7a82f1e71eaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 17/23] fix: read the answer of a media query again when the
 query changes

use_media_query() kept showing the previous query's answer until the new query reported a change.
---
 packages/stylist/src/yew/hooks/use_media_query.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/stylist/src/yew/hooks/use_media_query.rs b/packages/stylist/src/yew/hooks/use_media_query.rs
index f66a5ee..54d42a4 100644
--- a/packages/stylist/src/yew/hooks/use_media_query.rs
+++ b/packages/stylist/src/yew/hooks/use_media_query.rs
@@ -38,6 +38,9 @@ pub fn use_media_query(query: &str) -> bool {
         let match_media = match_media();
         let match_media_clone = match_media.clone();
 
+        // The state still holds the result of the previous query if the query has changed.
+        state_clone.set(match_media.matches());
+
         let listener = EventListener::new(&match_media, "change", move |_event| {
             state_clone.set(match_media_clone.matches());
         });
-- 
2.43.0


From 9fc49f3e92c2bde840401d1b5fa08e4e0454be39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 18/23] fix: load shipped style data only into the manager it
 was rendered with

When a hydrated ManagerProvider was given another manager, the style data of the first one was loaded
into it as well: its styles counted as mounted although no style element was in its container.
---
 packages/stylist/src/yew/provider.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/stylist/src/yew/provider.rs b/packages/stylist/src/yew/provider.rs
index b483324..09be93f 100644
--- a/packages/stylist/src/yew/provider.rs
+++ b/packages/stylist/src/yew/provider.rs
@@ -55,8 +55,11 @@ pub fn manager_provider(props: &ManagerProviderProps) -> HtmlResult {
         #[cfg(feature = "hydration")]
         {
             // We must load the styles immediately before child components are rendered.
+            //
+            // The data is of the manager that the server has used, a manager that replaces it later
+            // has none of these styles.
             let manager = manager.clone();
-            use_memo(manager, move |manager| {
+            use_memo((), move |_| {
                 if let Some(m) = _style_data {
                     manager.load_style_data(m.as_ref());
                 }
-- 
2.43.0


From 044f19cefe728acfd619957495ed987a2e00ac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:22 +0000
Subject: [PATCH 19/23] fix: keep non-ASCII blanks, which are part of names in
 CSS, around values, selectors and conditions

---
 packages/stylist-core/src/parser.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 5fee562..3c26094 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -170,7 +170,7 @@ impl Parser {
                     terminated(tag("/"), not(one_of("{;}*"))),
                 )))),
                 |m: &str| StringFragment {
-                    inner: m.to_string().trim().to_string().into(),
+                    inner: trim_blanks(m).to_string().into(),
                 },
             )),
         )(i)
@@ -189,7 +189,7 @@ impl Parser {
                     Self::style_attr_value,
                 ),
                 move |p: (&str, StringFragment)| StyleAttribute {
-                    key: p.0.trim().to_string().into(),
+                    key: p.0.to_string().into(),
                     value: vec![p.1].into(),
                 },
             ))),
@@ -290,7 +290,7 @@ impl Parser {
                     Self::string,
                     recognize(Self::interpolation),
                 )))),
-                |p: &str| vec![p.trim().to_owned().into()].into(),
+                |p: &str| vec![trim_blanks(p).to_owned().into()].into(),
             ))),
         )(i)
     }
@@ -376,7 +376,7 @@ impl Parser {
                 Self::at_rule_condition(i, (tag("@container"), tag("@media"), tag("@supports")))
             }
             RuleBlockKind::Keyframes => map(recognize(Self::condition), |m| {
-                vec![m.trim().to_string().into()]
+                vec![trim_blanks(m).to_string().into()]
             })(i),
         };
 
@@ -455,7 +455,7 @@ impl Parser {
                             recognize(Self::interpolation),
                         )))),
                         |m: &str| StringFragment {
-                            inner: m.trim().to_string().into(),
+                            inner: trim_blanks(m).to_string().into(),
                         },
                     ),
                 ),
@@ -589,6 +589,14 @@ impl Parser {
     }
 }
 
+/// Removes blanks around a text.
+///
+/// Other characters that are white space in Unicode, such as a no-break space, are part of names in
+/// CSS.
+fn trim_blanks(s: &str) -> &str {
+    s.trim_matches([' ', '\t', '\r', '\n', '\x0c'])
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From cffd18c57f0cab213604e2534ce6c38c6153fe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:37 +0000
Subject: [PATCH 20/23] fix: report parse errors beyond column 65535 instead of
 panicking

---
 packages/stylist-core/src/parser.rs | 32 ++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 3c26094..d41b13a 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -571,7 +571,7 @@ impl Parser {
         match Self::sheet(css) {
             // Converting to String, primarily due to lifetime requirements.
             Err(nom::Err::Error(e)) | Err(nom::Err::Failure(e)) => Err(Error::Parse {
-                reason: convert_error(css, e.clone()),
+                reason: describe(css, &e),
                 source: Some(VerboseError {
                     errors: e
                         .errors
@@ -589,6 +589,36 @@ impl Parser {
     }
 }
 
+/// Describes why parsing failed.
+fn describe(css: &str, e: &VerboseError<&str>) -> String {
+    // (line, column) of an error, both starting from 1.
+    let position = |rest: &str| {
+        let before = &css[..css.len() - rest.len()];
+        let line_begin = before.rfind('\n').map_or(0, |m| m + 1);
+        (
+            before.matches('\n').count() + 1,
+            before.len() - line_begin + 1,
+        )
+    };
+
+    // `convert_error` marks columns by means of a formatting width, which cannot exceed `u16::MAX`.
+    if e.errors
+        .iter()
+        .all(|(rest, _)| position(rest).1 <= usize::from(u16::MAX))
+    {
+        return convert_error(css, e.clone());
+    }
+
+    e.errors
+        .iter()
+        .enumerate()
+        .map(|(i, (rest, kind))| {
+            let (line, column) = position(rest);
+            format!("{i}: at line {line}, column {column}: {kind:?}\n\n")
+        })
+        .collect()
+}
+
 /// Removes blanks around a text.
 ///
 /// Other characters that are white space in Unicode, such as a no-break space, are part of names in
-- 
2.43.0


From c7e3cdc5c206ae17b1c23ab8a11626c11dd318f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:38 +0000
Subject: [PATCH 21/23] fix: accept a slash at the end of a value

---
 packages/stylist-core/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index d41b13a..9cd7b6f 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -167,7 +167,7 @@ impl Parser {
                     is_not("${;}/\"'"),
                     recognize(Self::interpolation),
                     Self::string,
-                    terminated(tag("/"), not(one_of("{;}*"))),
+                    terminated(tag("/"), not(char('*'))),
                 )))),
                 |m: &str| StringFragment {
                     inner: trim_blanks(m).to_string().into(),
-- 
2.43.0


From 192aca934e796a5b9af4af7eca2d0a3feef00a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:43 +0000
Subject: [PATCH 22/23] fix: treat a form feed as white space

---
 packages/stylist-core/src/parser.rs            | 4 ++--
 packages/stylist-macros/src/literal/fstring.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 9cd7b6f..5961393 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -126,7 +126,7 @@ impl Parser {
 
     /// Parse whitespace
     fn sp(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
-        let chars = " \t\r\n";
+        let chars = " \t\r\n\x0c";
         let whitespace = take_while1(move |c| chars.contains(c));
         traced_context("Whitespace", recognize(many0(alt((whitespace, Self::cmt)))))(i)
     }
@@ -437,7 +437,7 @@ impl Parser {
         // The keyword ends at white space or at the parenthesis its condition starts with.
         let tags = terminated(
             alt(tags),
-            alt((recognize(one_of(" \t\r\n")), peek(tag("(")))),
+            alt((recognize(one_of(" \t\r\n\x0c")), peek(tag("(")))),
         );
 
         traced_context(
diff --git a/packages/stylist-macros/src/literal/fstring.rs b/packages/stylist-macros/src/literal/fstring.rs
index cc604b3..d408e71 100644
--- a/packages/stylist-macros/src/literal/fstring.rs
+++ b/packages/stylist-macros/src/literal/fstring.rs
@@ -37,7 +37,7 @@ impl Parser {
     fn sp(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
         Self::expect_non_empty(i)?;
 
-        let chars = " \t\r\n";
+        let chars = " \t\r\n\x0c";
         context("Whitespace", take_while(move |c| chars.contains(c)))(i)
     }
 
-- 
2.43.0


From 74d4858723af787495c901afd8b144cae9b7f44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:43 +0000
Subject: [PATCH 23/23] fix: leave comments in selectors untouched when scoping

---
 packages/stylist-core/src/ast/selector.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/stylist-core/src/ast/selector.rs b/packages/stylist-core/src/ast/selector.rs
index 72a0221..e8f1759 100644
--- a/packages/stylist-core/src/ast/selector.rs
+++ b/packages/stylist-core/src/ast/selector.rs
@@ -49,7 +49,8 @@ impl ToStyleStr for Selector {
     }
 }
 
-/// Replaces every pattern with `to`, leaving quoted strings and escaped characters untouched.
+/// Replaces every pattern with `to`, leaving quoted strings, comments and escaped characters
+/// untouched.
 ///
 /// Returns [`None`] if there is nothing to replace.
 fn replace_unquoted(s: &str, patterns: &[&str], to: &str) -> Option<String> {
@@ -60,6 +61,13 @@ fn replace_unquoted(s: &str, patterns: &[&str], to: &str) -> Option<String> {
 
     'outer: while let Some(c) = rest.chars().next() {
         if quote.is_none() {
+            if rest.starts_with("/*") {
+                let len = rest[2..].find("*/").map_or(rest.len(), |m| m + 4);
+                output.push_str(&rest[..len]);
+                rest = &rest[len..];
+                continue;
+            }
+
             for pattern in patterns {
                 if let Some(m) = rest.strip_prefix(pattern) {
                     output.push_str(to);
-- 
2.43.0

