From c87a75f2965fecf8db7c6e4eb468d059b4580fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 01/23] fix: keep dangling attributes followed by a type
 selector with a pseudo-class

'color: red; a:hover { ... }' was parsed as a single block with the
selector 'color: red; a:hover', so the declaration was lost.
---
 packages/stylist-core/src/parser.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index d51dceb..3b37ec9 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -200,20 +200,22 @@ impl Parser {
         i: &str,
         dangling: bool,
     ) -> IResult<&str, Vec<StyleAttribute>, VerboseError<&str>> {
-        let final_semicolon = |i| {
+        let attributes = |i| {
             if dangling {
-                map(tag(";"), Some)(i)
+                // Every dangling attribute has to be followed by a semicolon, otherwise it is the
+                // selector of the next block. (e.g.: `color: red; a:hover { ... }`)
+                many1(terminated(Self::attribute, tag(";")))(i)
             } else {
-                opt(tag(";"))(i)
+                terminated(
+                    separated_list1(tag(";"), Self::attribute),
+                    preceded(opt(Self::sp), opt(tag(";"))),
+                )(i)
             }
         };
 
         traced_context(
             "StyleAttributes",
-            Self::trimmed(expect_non_empty(terminated(
-                separated_list1(tag(";"), Self::attribute),
-                preceded(opt(Self::sp), final_semicolon),
-            ))),
+            Self::trimmed(expect_non_empty(attributes)),
         )(i)
     }
 
-- 
2.43.0


From 4d3c3c4e89732970bdf4d24a928e2065efb5462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 02/23] fix: accept white space and comments in empty keyframes
 and rule blocks

`@keyframes a { }` and `a { @media b { } }` were refused.
---
 packages/stylist-core/src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 3b37ec9..b7a7d23 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -357,7 +357,7 @@ impl Parser {
                     cond,
                     tag("{"),
                     // Collect contents with-in rules.
-                    terminated(Self::rule_block_contents, tag("}")),
+                    terminated(Self::trimmed(Self::rule_block_contents), tag("}")),
                 ),
                 // Map Results into a scope
                 |p: (Vec<StringFragment>, Vec<RuleBlockContent>)| Rule {
@@ -439,7 +439,9 @@ impl Parser {
                     tag("{"),
                     // Collect contents with-in rules.
                     terminated(
-                        many0(|i| Parser::rule_block(i, RuleBlockKind::Keyframes)),
+                        Self::trimmed(many0(|i| {
+                            Parser::rule_block(i, RuleBlockKind::Keyframes)
+                        })),
                         tag("}"),
                     ),
                 ),
-- 
2.43.0


From 6f31e7094a60851c5f3489630817def70f3180ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 03/23] fix: do not start a new attribute after a comment

`a { b: c /* */ d: e }` was split into two attributes.
---
 packages/stylist-core/src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index b7a7d23..6e74c97 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -4,7 +4,7 @@ use std::fmt;
 use nom::branch::{alt, Alt};
 use nom::bytes::complete::{is_not, tag, take_while1};
 use nom::character::complete::{alpha1, alphanumeric1, anychar, char, none_of};
-use nom::combinator::{fail, map, not, opt, recognize};
+use nom::combinator::{fail, map, not, opt, peek, recognize};
 use nom::error::{convert_error, ErrorKind, ParseError, VerboseError};
 use nom::multi::{many0, many1, separated_list1};
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated};
@@ -208,7 +208,8 @@ impl Parser {
             } else {
                 terminated(
                     separated_list1(tag(";"), Self::attribute),
-                    preceded(opt(Self::sp), opt(tag(";"))),
+                    // Only the last attribute of a block can omit its semicolon.
+                    alt((tag(";"), peek(tag("}")))),
                 )(i)
             }
         };
-- 
2.43.0


From 61cdb6c1edab3bdba054d3ba1ae8943bbfd677fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 04/23] fix: parse strings, parentheses, brackets, escapes and
 comments as a whole

The parser split selector lists at commas inside :not(.a, .b), [a='b,c']
and comments, ended values and conditions at delimiters inside
parentheses and single quotes, accepted selectors and conditions
containing unbalanced braces or semicolons, and refused
[href$=".pdf"].
---
 packages/stylist-core/src/parser.rs | 107 ++++++++++++++++++++++------
 1 file changed, 86 insertions(+), 21 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 6e74c97..7f0bc71 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -3,7 +3,7 @@ use std::fmt;
 
 use nom::branch::{alt, Alt};
 use nom::bytes::complete::{is_not, tag, take_while1};
-use nom::character::complete::{alpha1, alphanumeric1, anychar, char, none_of};
+use nom::character::complete::{alpha1, alphanumeric1, anychar, char};
 use nom::combinator::{fail, map, not, opt, peek, recognize};
 use nom::error::{convert_error, ErrorKind, ParseError, VerboseError};
 use nom::multi::{many0, many1, separated_list1};
@@ -131,6 +131,21 @@ impl Parser {
         traced_context("Whitespace", recognize(many0(alt((whitespace, Self::cmt)))))(i)
     }
 
+    /// Trim whitespaces, but keep a trailing whitespace that is escaped.
+    fn trim_str(i: &str) -> &str {
+        let trimmed = i.trim();
+        let backslashes = trimmed.len() - trimmed.trim_end_matches('\\').len();
+
+        if backslashes % 2 == 0 {
+            return trimmed;
+        }
+
+        // Include the character that is escaped by the last backslash.
+        let i = i.trim_start();
+        let escaped = i[trimmed.len()..].chars().next();
+        &i[..trimmed.len() + escaped.map_or(0, |m| m.len_utf8())]
+    }
+
     /// Parse an ident
     ///
     /// [\-_a-zA-Z(non-ascii)]{1}[\-_a-zA-Z0-9(non-ascii)]*
@@ -163,14 +178,9 @@ impl Parser {
         traced_context(
             "StyleAttrValue",
             Self::trimmed(map(
-                recognize(many1(alt((
-                    is_not("${;}/\""),
-                    recognize(Self::interpolation),
-                    Self::string,
-                    recognize(preceded(tag("/"), none_of("${;}\"*"))),
-                )))),
+                recognize(many1(|i| Self::component_value(i, "${;}/\"'\\()[]"))),
                 |m: &str| StringFragment {
-                    inner: m.to_string().trim().to_string().into(),
+                    inner: Self::trim_str(m).to_string().into(),
                 },
             )),
         )(i)
@@ -220,17 +230,70 @@ impl Parser {
         )(i)
     }
 
+    /// Parse an escaped character.
+    fn escaped_char(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
+        traced_context("EscapedChar", recognize(preceded(tag("\\"), anychar)))(i)
+    }
+
     /// Parse a quoted string.
-    // TODO: Parse ' quoted strings.
     fn string(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
-        let escaped_char = traced_context("EscapedChar", recognize(preceded(tag("\\"), anychar)));
-
-        let parse_str = recognize(preceded(
+        let double_quoted = recognize(delimited(
+            tag("\""),
+            many0(alt((is_not(r#"\""#), Self::escaped_char))),
             tag("\""),
-            terminated(many0(alt((is_not(r#"\""#), escaped_char))), tag("\"")),
         ));
+        let single_quoted = recognize(delimited(
+            tag("'"),
+            many0(alt((is_not(r"\'"), Self::escaped_char))),
+            tag("'"),
+        ));
+
+        traced_context(
+            "String",
+            Self::trimmed(expect_non_empty(alt((double_quoted, single_quoted)))),
+        )(i)
+    }
+
+    /// Parse a pair of parentheses or brackets with everything inside.
+    fn enclosed(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
+        let content = |i| {
+            recognize(many0(alt((
+                |i| Self::component_value(i, "${}/\"'\\()[]"),
+                Self::cmt,
+                // A dollar sign that doesn't start an interpolation, e.g.: [href$=".pdf"]
+                terminated(tag("$"), not(char('{'))),
+            ))))(i)
+        };
+
+        traced_context(
+            "Enclosed",
+            recognize(alt((
+                delimited(tag("("), content, tag(")")),
+                delimited(tag("["), content, tag("]")),
+            ))),
+        )(i)
+    }
 
-        traced_context("String", Self::trimmed(expect_non_empty(parse_str)))(i)
+    /// Parse anything that is not one of the delimiters.
+    ///
+    /// Strings, escaped characters, interpolations, parentheses and brackets are parsed as a whole
+    /// and may contain delimiters.
+    fn component_value<'a>(
+        i: &'a str,
+        delimiters: &'static str,
+    ) -> IResult<&'a str, &'a str, VerboseError<&'a str>> {
+        traced_context(
+            "ComponentValue",
+            alt((
+                is_not(delimiters),
+                recognize(Self::interpolation),
+                Self::string,
+                Self::escaped_char,
+                Self::enclosed,
+                // A slash that doesn't start a comment.
+                terminated(tag("/"), not(char('*'))),
+            )),
+        )(i)
     }
 
     /// Parse a string interpolation.
@@ -256,11 +319,10 @@ impl Parser {
             "Selector",
             Self::trimmed(expect_non_empty(map(
                 recognize(many1(alt((
-                    recognize(preceded(none_of("$,}@{\""), opt(is_not("$,\"{")))),
-                    Self::string,
-                    recognize(Self::interpolation),
+                    |i| Self::component_value(i, "$,;{}@/\"'\\()[]"),
+                    Self::cmt,
                 )))),
-                |p: &str| vec![p.trim().to_owned().into()].into(),
+                |p: &str| vec![Self::trim_str(p).to_owned().into()].into(),
             ))),
         )(i)
     }
@@ -346,7 +408,7 @@ impl Parser {
                 Self::at_rule_condition(i, (tag("@container"), tag("@media"), tag("@supports")))
             }
             RuleBlockKind::Keyframes => map(recognize(Self::condition), |m| {
-                vec![m.trim().to_string().into()]
+                vec![Self::trim_str(m).to_string().into()]
             })(i),
         };
 
@@ -412,9 +474,12 @@ impl Parser {
                 pair(
                     tags,
                     map(
-                        recognize(many1(alt((is_not("${"), recognize(Self::interpolation))))),
+                        recognize(many1(alt((
+                            |i| Self::component_value(i, "${;}@/\"'\\()[]"),
+                            Self::cmt,
+                        )))),
                         |m: &str| StringFragment {
-                            inner: m.trim().to_string().into(),
+                            inner: Self::trim_str(m).to_string().into(),
                         },
                     ),
                 ),
-- 
2.43.0


From b87c14950614f5517b5e4374a313aacf3cc05500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 05/23] fix: only replace the current selector outside strings
 and comments

'&' and ':root' were replaced by the class name inside quoted attribute
values, comments and escapes as well, which corrupted them and left the
selector unscoped.
---
 packages/stylist-core/src/ast/selector.rs | 54 +++++++++++++++++++----
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/packages/stylist-core/src/ast/selector.rs b/packages/stylist-core/src/ast/selector.rs
index 6eefcb9..28b3af2 100644
--- a/packages/stylist-core/src/ast/selector.rs
+++ b/packages/stylist-core/src/ast/selector.rs
@@ -26,12 +26,8 @@ impl ToStyleStr for Selector {
         if let Some(ref m) = ctx.class_name {
             let scoped_class = format!(".{m}");
             // If contains current selector or root pseudo class, replace them with class name.
-            if joined_s.contains('&') || joined_s.contains(":root") {
-                w.push_str(
-                    &joined_s
-                        .replace('&', scoped_class.as_str())
-                        .replace(":root", scoped_class.as_str()),
-                );
+            if let Some(replaced) = replace_current(&joined_s, &["&", ":root"], &scoped_class) {
+                w.push_str(&replaced);
             } else {
                 w.push_str(&scoped_class);
 
@@ -44,8 +40,8 @@ impl ToStyleStr for Selector {
             }
 
         // For global styles, if it contains &, it will be replaced with html.
-        } else if joined_s.contains('&') {
-            w.push_str(&joined_s.replace('&', ":root"));
+        } else if let Some(replaced) = replace_current(&joined_s, &["&"], ":root") {
+            w.push_str(&replaced);
         // For other styles, it will be written as is.
         } else {
             w.push_str(&joined_s);
@@ -53,6 +49,48 @@ impl ToStyleStr for Selector {
     }
 }
 
+/// Replaces every pattern in the selector, leaving quoted strings, comments and escaped characters
+/// untouched.
+///
+/// Returns `None` if there's nothing to replace.
+fn replace_current(selector: &str, patterns: &[&str], with: &str) -> Option<String> {
+    let mut replaced = String::new();
+    let mut found = false;
+    let mut rest = selector;
+
+    while let Some(first) = rest.chars().next() {
+        if let Some(m) = patterns.iter().find(|m| rest.starts_with(**m)) {
+            replaced.push_str(with);
+            found = true;
+            rest = &rest[m.len()..];
+            continue;
+        }
+
+        let len = match first {
+            '"' | '\'' => {
+                let mut escaped = false;
+                rest.char_indices()
+                    .skip(1)
+                    .find(|(_, m)| {
+                        let is_end = !escaped && *m == first;
+                        escaped = !escaped && *m == '\\';
+                        is_end
+                    })
+                    .map(|(i, m)| i + m.len_utf8())
+                    .unwrap_or(rest.len())
+            }
+            '/' if rest.starts_with("/*") => rest[2..].find("*/").map_or(rest.len(), |i| i + 4),
+            '\\' => rest.chars().take(2).map(char::len_utf8).sum(),
+            _ => first.len_utf8(),
+        };
+
+        replaced.push_str(&rest[..len]);
+        rest = &rest[len..];
+    }
+
+    found.then_some(replaced)
+}
+
 impl<T: Into<Cow<'static, [StringFragment]>>> From<T> for Selector {
     fn from(s: T) -> Self {
         Self {
-- 
2.43.0


From dfd417d8569c6bbf77ed3ac94f9179869ea2adfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 06/23] fix: do not scope global styles when loading style data

A hydrated global style was rendered with its id as the class name.
---
 packages/stylist/src/manager/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index c85ef2e..39bbd21 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -386,7 +386,8 @@ mod feat_hydration {
                         m.insert(
                             StyleContent {
                                 id: id.clone(),
-                                style_str: key.ast.to_style_str(Some(id)),
+                                // Non-global styles have ids prefixed in classes.
+                                style_str: key.ast.to_style_str((!key.is_global).then_some(id)),
                                 manager: self.downgrade(),
                                 key: key.clone(),
                             }
-- 
2.43.0


From fad0c5d353ad2cf1cc90ea95644970e99ec977be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 07/23] fix: unregister only the registration a handle belongs
 to

---
 packages/stylist/src/manager/content.rs  |  2 +-
 packages/stylist/src/manager/mod.rs      |  4 ++--
 packages/stylist/src/manager/registry.rs | 12 ++++++++++--
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/packages/stylist/src/manager/content.rs b/packages/stylist/src/manager/content.rs
index 9c28968..07ea68d 100644
--- a/packages/stylist/src/manager/content.rs
+++ b/packages/stylist/src/manager/content.rs
@@ -35,7 +35,7 @@ impl StyleContent {
 
     pub fn unregister(&self) {
         if let Some(mgr) = self.manager() {
-            mgr.unregister_style(self.key());
+            mgr.unregister_style(self);
         }
     }
 }
diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 39bbd21..602b4a5 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -207,8 +207,8 @@ impl StyleManager {
         Ok(content)
     }
 
-    pub(crate) fn unregister_style(&self, key: &Rc<StyleKey>) {
-        self.inner.registry.borrow_mut().unregister(key);
+    pub(crate) fn unregister_style(&self, content: &StyleContent) {
+        self.inner.registry.borrow_mut().unregister(content);
     }
 
     /// Return a reference of style key.
diff --git a/packages/stylist/src/manager/registry.rs b/packages/stylist/src/manager/registry.rs
index 31ac89d..4da3dc8 100644
--- a/packages/stylist/src/manager/registry.rs
+++ b/packages/stylist/src/manager/registry.rs
@@ -16,8 +16,16 @@ impl StyleRegistry {
         }
     }
 
-    pub fn unregister(&mut self, key: &StyleKey) {
-        self.styles.remove(key);
+    pub fn unregister(&mut self, content: &StyleContent) {
+        // The same style may have been registered again since this content was unregistered.
+        let is_current = self
+            .styles
+            .get(content.key())
+            .is_some_and(|m| std::ptr::eq(&**m, content));
+
+        if is_current {
+            self.styles.remove(content.key());
+        }
     }
 
     pub fn get(&self, key: &StyleKey) -> Option<Rc<StyleContent>> {
-- 
2.43.0


From f7e599cd90e50baea558d15ad10e539e11a76e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:28 +0000
Subject: [PATCH 08/23] fix: keep a style registered while it is in the static
 data

---
 packages/stylist/src/manager/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 602b4a5..1bdfed3 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -208,6 +208,13 @@ impl StyleManager {
     }
 
     pub(crate) fn unregister_style(&self, content: &StyleContent) {
+        // The style stays in the static data, registering it again would add it a second time under
+        // a different class, which cannot be hydrated.
+        #[cfg(feature = "ssr")]
+        if self.inner.style_data.is_some() {
+            return;
+        }
+
         self.inner.registry.borrow_mut().unregister(content);
     }
 
-- 
2.43.0


From 62ff91151006ac1fd7c180cc543ee964f54478ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 09/23] fix: keep the styles of deserialized style data in its
 static markup

---
 packages/stylist/src/manager/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 1bdfed3..2a6aeff 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -346,9 +346,14 @@ mod feat_ssr_hydration {
         where
             D: serde::Deserializer<'de>,
         {
-            Vec::<StyleDataContent>::deserialize(deserializer)
-                .map(Arc::new)
-                .map(Self)
+            let mut contents = Vec::<StyleDataContent>::deserialize(deserializer)?;
+
+            // The style string is not serialized, as it can be generated again.
+            for StyleDataContent { key, id, style_str } in contents.iter_mut() {
+                *style_str = key.ast.to_style_str((!key.is_global).then_some(id));
+            }
+
+            Ok(Self(Arc::new(contents)))
         }
     }
 }
-- 
2.43.0


From d19ad1094dc12fa853afd1152031e31429a3fb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:15 +0000
Subject: [PATCH 10/23] fix: allow '{' and '$' in the text around string
 interpolations

---
 packages/stylist-macros/src/literal/fstring.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/packages/stylist-macros/src/literal/fstring.rs b/packages/stylist-macros/src/literal/fstring.rs
index 20f9995..870d13b 100644
--- a/packages/stylist-macros/src/literal/fstring.rs
+++ b/packages/stylist-macros/src/literal/fstring.rs
@@ -1,9 +1,9 @@
 use nom::branch::alt;
-use nom::bytes::complete::{is_not, tag, take_while};
-use nom::character::complete::{alpha1, alphanumeric1};
-use nom::combinator::{all_consuming, cut, map, opt, recognize};
+use nom::bytes::complete::{tag, take_while};
+use nom::character::complete::{alpha1, alphanumeric1, anychar};
+use nom::combinator::{all_consuming, cut, map, not, opt, recognize};
 use nom::error::{context, convert_error, ErrorKind, ParseError, VerboseError};
-use nom::multi::many0;
+use nom::multi::{many0, many1};
 use nom::sequence::{delimited, preceded};
 use nom::IResult;
 use stylist_core::{Error, Result};
@@ -99,7 +99,14 @@ impl Parser {
 
         let result = context(
             "Literal",
-            map(is_not("${"), |m: &str| Fragment::Literal(m.to_string())),
+            // Everything until the next interpolation or escape sequence.
+            map(
+                recognize(many1(preceded(
+                    not(alt((tag("$${"), tag("${")))),
+                    anychar,
+                ))),
+                |m: &str| Fragment::Literal(m.to_string()),
+            ),
         )(i);
 
         #[cfg(test)]
-- 
2.43.0


From 422d42ab9a99df90adedd5bafda38b00129fc62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:56 +0000
Subject: [PATCH 11/23] fix: allow commas in expressions of string literal
 macro arguments

---
 packages/stylist-macros/src/literal/mod.rs | 64 ++++++++++------------
 1 file changed, 28 insertions(+), 36 deletions(-)

diff --git a/packages/stylist-macros/src/literal/mod.rs b/packages/stylist-macros/src/literal/mod.rs
index 53dbef7..8cbe716 100644
--- a/packages/stylist-macros/src/literal/mod.rs
+++ b/packages/stylist-macros/src/literal/mod.rs
@@ -4,7 +4,10 @@ use std::collections::{HashMap, HashSet};
 
 use litrs::StringLit;
 use proc_macro_error::{abort, abort_call_site};
+use quote::ToTokens;
 use std::convert::TryFrom;
+use syn::parse::{ParseStream, Parser, Result as ParseResult};
+use syn::Expr;
 
 use stylist_core::ast::Sheet;
 
@@ -45,6 +48,10 @@ pub(crate) fn macro_fn(input: TokenStream) -> TokenStream {
         }
     };
 
+    let parse_expr = |input: ParseStream| -> ParseResult<(Expr, TokenStream)> {
+        Ok((input.parse()?, input.parse()?))
+    };
+
     let is_equal = |t: &TokenTree| -> bool {
         match t {
             TokenTree::Punct(m) => m.as_char() == '=',
@@ -52,19 +59,15 @@ pub(crate) fn macro_fn(input: TokenStream) -> TokenStream {
         }
     };
 
-    let mut comma_read = false;
-
     'outer: loop {
-        if !comma_read {
-            match tokens.next() {
-                Some(m) => {
-                    if !is_comma(&m) {
-                        abort!(m, "expected ',', got: {}", m)
-                    }
+        match tokens.next() {
+            Some(m) => {
+                if !is_comma(&m) {
+                    abort!(m, "expected ',', got: {}", m)
                 }
-                None => break 'outer,
-            };
-        }
+            }
+            None => break 'outer,
+        };
 
         let name_token = match tokens.next() {
             Some(m) => m,
@@ -78,40 +81,29 @@ pub(crate) fn macro_fn(input: TokenStream) -> TokenStream {
 
         let name = name_ident.to_string();
 
-        let mut arg = Argument {
-            name,
-            name_token: name_ident.clone(),
-            tokens: TokenStream::new(),
-        };
-
         if !tokens.next().map(|m| is_equal(&m)).unwrap_or(false) {
             abort!(
                 name_token,
                 "expected = at the end of this ident, only named arguments are allowed at this moment";
-                hint = format!("try: {name} = {name}", name = arg.name),
+                hint = format!("try: {name} = {name}"),
             );
         }
 
-        'inner: loop {
-            let next_token = match tokens.next() {
-                Some(m) => m,
-                None => {
-                    if args.insert(arg.name.clone(), arg).is_some() {
-                        abort!(name_token, "duplicate named argument");
-                    }
-                    break 'outer;
-                }
-            };
+        // An expression may contain commas outside of any delimiter, e.g.: `f::<A, B>()`.
+        let (expr, rest) = match parse_expr.parse2(tokens.collect()) {
+            Ok(m) => m,
+            Err(e) => return e.to_compile_error(),
+        };
+        tokens = rest.into_iter();
 
-            if is_comma(&next_token) {
-                if args.insert(arg.name.clone(), arg).is_some() {
-                    abort!(name_token, "duplicate named argument");
-                }
-                comma_read = true;
-                break 'inner;
-            }
+        let arg = Argument {
+            name: name.clone(),
+            name_token: name_ident.clone(),
+            tokens: expr.to_token_stream(),
+        };
 
-            arg.tokens.extend(TokenStream::from(next_token));
+        if args.insert(name, arg).is_some() {
+            abort!(name_token, "duplicate named argument");
         }
     }
 
-- 
2.43.0


From 33c5226695f8086c8266d99c1887d9f063af951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:39 +0000
Subject: [PATCH 12/23] fix: separate keywords from the conditions of inline
 at-rules

---
 .../src/inline/component_value/mod.rs         | 29 +++++++++++++++++++
 .../stylist-macros/src/inline/parse/rule.rs   |  2 +-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/packages/stylist-macros/src/inline/component_value/mod.rs b/packages/stylist-macros/src/inline/component_value/mod.rs
index 0ba172b..878c38c 100644
--- a/packages/stylist-macros/src/inline/component_value/mod.rs
+++ b/packages/stylist-macros/src/inline/component_value/mod.rs
@@ -113,6 +113,35 @@ impl ComponentValue {
         }
     }
 
+    /// Output for a component of an @-rule prelude.
+    ///
+    /// A condition written as `and (..)` is re-tokenized like a function `and(..)`, since rust
+    /// tokens don't contain whitespace. In css, the two are different: these keywords must be
+    /// separated from the condition they are followed by.
+    pub fn to_prelude_fragments(&self) -> Vec<OutputFragment> {
+        let keywords = ["and", "or", "not", "only"];
+
+        let (mut output, contents) = match self {
+            Self::Function(FunctionToken { name, args, .. })
+                if keywords.contains(&name.to_output_string().to_ascii_lowercase().as_str()) =>
+            {
+                (vec![name.clone().into(), ' '.into(), '('.into()], args)
+            }
+            Self::Block(SimpleBlock {
+                kind: BlockKind::Paren(_),
+                contents,
+                ..
+            }) => (vec!['('.into()], contents),
+            _ => return self.to_output_fragments(),
+        };
+
+        for c in contents.iter() {
+            output.extend(c.to_prelude_fragments());
+        }
+        output.push(')'.into());
+        output
+    }
+
     // Overly simplified parsing of a css attribute
     #[must_use = "validation errors should not be discarded"]
     pub fn validate_attribute_token(&self) -> Vec<ParseError> {
diff --git a/packages/stylist-macros/src/inline/parse/rule.rs b/packages/stylist-macros/src/inline/parse/rule.rs
index 35ed37a..cde3072 100644
--- a/packages/stylist-macros/src/inline/parse/rule.rs
+++ b/packages/stylist-macros/src/inline/parse/rule.rs
@@ -76,7 +76,7 @@ impl CssAtRule {
             self.prelude
                 .clone()
                 .into_iter()
-                .flat_map(|p| p.to_output_fragments())
+                .flat_map(|p| p.to_prelude_fragments())
                 .spaced_with(fragment_spacing),
         );
 
-- 
2.43.0


From b6821707b59bd4fd32725430bece5aa4ca1d2878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:39 +0000
Subject: [PATCH 13/23] fix: do not shadow names used in interpolated
 expressions

---
 packages/stylist-macros/src/output/sheet.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/packages/stylist-macros/src/output/sheet.rs b/packages/stylist-macros/src/output/sheet.rs
index 76f32a7..1eb93e0 100644
--- a/packages/stylist-macros/src/output/sheet.rs
+++ b/packages/stylist-macros/src/output/sheet.rs
@@ -15,11 +15,7 @@ impl Reify for OutputSheet {
 
         ctx.uses_static(); // Sheet::from
         let quoted_sheet = quote! {
-            {
-                use ::std::convert::{From, Into};
-                use ::stylist::ast::Sheet;
-                Sheet::from(#contents)
-            }
+            <::stylist::ast::Sheet as ::std::convert::From<_>>::from(#contents)
         };
 
         if ctx.is_static() {
-- 
2.43.0


From c71759a37f076e754a35320dc01c9894be5d0601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 14/23] fix: evaluate arguments of string literal macros once
 and in order

---
 packages/stylist-macros/src/literal/mod.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/packages/stylist-macros/src/literal/mod.rs b/packages/stylist-macros/src/literal/mod.rs
index 8cbe716..c508550 100644
--- a/packages/stylist-macros/src/literal/mod.rs
+++ b/packages/stylist-macros/src/literal/mod.rs
@@ -1,10 +1,10 @@
-use proc_macro2::{TokenStream, TokenTree};
+use proc_macro2::{Ident, Span, TokenStream, TokenTree};
 
 use std::collections::{HashMap, HashSet};
 
 use litrs::StringLit;
 use proc_macro_error::{abort, abort_call_site};
-use quote::ToTokens;
+use quote::{quote, quote_spanned, ToTokens};
 use std::convert::TryFrom;
 use syn::parse::{ParseStream, Parser, Result as ParseResult};
 use syn::Expr;
@@ -40,6 +40,7 @@ pub(crate) fn macro_fn(input: TokenStream) -> TokenStream {
     };
 
     let mut args = HashMap::new();
+    let mut bindings = TokenStream::new();
 
     let is_comma = |t: &TokenTree| -> bool {
         match t {
@@ -96,10 +97,18 @@ pub(crate) fn macro_fn(input: TokenStream) -> TokenStream {
         };
         tokens = rest.into_iter();
 
+        // Arguments are evaluated once and in the order they are given, no matter how many times and
+        // in which order they are used.
+        // Span::mixed_site avoids capture of the variable in user-provided expressions.
+        let value = Ident::new(&format!("value_{}", args.len()), Span::mixed_site());
+        bindings.extend(quote_spanned! {name_ident.span() =>
+            let #value = ::std::string::ToString::to_string(&(#expr) as &dyn ::std::fmt::Display);
+        });
+
         let arg = Argument {
             name: name.clone(),
             name_token: name_ident.clone(),
-            tokens: expr.to_token_stream(),
+            tokens: value.to_token_stream(),
         };
 
         if args.insert(name, arg).is_some() {
@@ -122,5 +131,7 @@ pub(crate) fn macro_fn(input: TokenStream) -> TokenStream {
     }
 
     let mut ctx = ReifyContext::new();
-    output.into_token_stream(&mut ctx)
+    let sheet = output.into_token_stream(&mut ctx);
+
+    quote! { { #bindings #sheet } }
 }
-- 
2.43.0


From ae77c3743bf89e19c7119aae4868719a9192c89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 15/23] fix: prepend style elements to containers that are not
 empty

---
 packages/stylist/src/manager/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 2a6aeff..e681dfb 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -240,9 +240,9 @@ impl StyleManager {
 
             // Prepend element
             if !self.inner.append {
-                if let Some(m) = container.first_child() {
-                    return m.insert_before(&style_element, Some(&m)).map(|_m| ());
-                }
+                return container
+                    .insert_before(&style_element, container.first_child().as_ref())
+                    .map(|_m| ());
             }
 
             container.append_child(&style_element)?;
-- 
2.43.0


From 107e62181b6a1df4495f87e60956e0e4630f56cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 16/23] fix: remove style elements that the document does not
 find by selector

---
 packages/stylist/src/manager/content.rs | 11 +++++++++-
 packages/stylist/src/manager/mod.rs     | 29 ++++++++++++++++++-------
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/packages/stylist/src/manager/content.rs b/packages/stylist/src/manager/content.rs
index 07ea68d..e124398 100644
--- a/packages/stylist/src/manager/content.rs
+++ b/packages/stylist/src/manager/content.rs
@@ -1,5 +1,10 @@
 use std::rc::Rc;
 
+#[cfg(target_arch = "wasm32")]
+use once_cell::unsync::OnceCell;
+#[cfg(target_arch = "wasm32")]
+use web_sys::Element;
+
 use crate::manager::{StyleId, StyleKey, StyleManager, WeakStyleManager};
 use crate::Result;
 
@@ -10,6 +15,10 @@ pub(crate) struct StyleContent {
     pub style_str: String,
 
     pub manager: WeakStyleManager,
+
+    // The element mounted by the manager, styles rendered by the server do not have one.
+    #[cfg(target_arch = "wasm32")]
+    pub element: OnceCell<Element>,
 }
 
 impl StyleContent {
@@ -22,7 +31,7 @@ impl StyleContent {
     }
 
     pub fn unmount(&self) -> Result<()> {
-        StyleManager::unmount(self.id())
+        StyleManager::unmount(self)
     }
 
     pub fn key(&self) -> &Rc<StyleKey> {
diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index e681dfb..50bf2ce 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -180,6 +180,8 @@ impl StyleManager {
             style_str,
             manager: weak_mgr,
             key: Rc::new(key),
+            #[cfg(target_arch = "wasm32")]
+            element: Default::default(),
         }
         .into();
 
@@ -240,12 +242,12 @@ impl StyleManager {
 
             // Prepend element
             if !self.inner.append {
-                return container
-                    .insert_before(&style_element, container.first_child().as_ref())
-                    .map(|_m| ());
+                container.insert_before(&style_element, container.first_child().as_ref())?;
+            } else {
+                container.append_child(&style_element)?;
             }
 
-            container.append_child(&style_element)?;
+            let _ = content.element.set(style_element);
             Ok(())
         })()
         .map_err(|e| Error::Web(Some(e)))
@@ -253,14 +255,23 @@ impl StyleManager {
 
     /// Unmount the [`Style`](crate::Style) from the DOM tree.
     #[cfg(target_arch = "wasm32")]
-    pub(crate) fn unmount(id: &StyleId) -> Result<()> {
+    pub(crate) fn unmount(content: &StyleContent) -> Result<()> {
         use crate::arch::document;
         use crate::Error;
 
+        // The document does not find elements in ShadowRoots, iframes and detached containers, only
+        // elements that are created by the server are looked up.
+        let element = content.element.get().cloned();
         let document = document()?;
         (|| {
-            if let Some(m) = document.query_selector(&format!("style[data-style={}]", id))? {
-                if let Some(parent) = m.parent_element() {
+            let element = match element {
+                Some(m) => Some(m),
+                None => document
+                    .query_selector(&format!("style[data-style=\"{}\"]", content.id()))?,
+            };
+
+            if let Some(m) = element {
+                if let Some(parent) = m.parent_node() {
                     parent.remove_child(&m)?;
                 }
             }
@@ -281,7 +292,7 @@ impl StyleManager {
     /// Unmount the [`Style`] from the DOM tree.
     #[cfg(not(target_arch = "wasm32"))]
     #[allow(unused_variables)]
-    pub(crate) fn unmount(id: &StyleId) -> Result<()> {
+    pub(crate) fn unmount(content: &StyleContent) -> Result<()> {
         // Does nothing on non-wasm targets.
         Ok(())
     }
@@ -402,6 +413,8 @@ mod feat_hydration {
                                 style_str: key.ast.to_style_str((!key.is_global).then_some(id)),
                                 manager: self.downgrade(),
                                 key: key.clone(),
+                                #[cfg(target_arch = "wasm32")]
+                                element: Default::default(),
                             }
                             .into(),
                         );
-- 
2.43.0


From c16de51f922f5746a34863cc8e5b2a408c2dcc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 17/23] fix: update use_media_query when its query changes

---
 packages/stylist/src/yew/hooks/use_media_query.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/stylist/src/yew/hooks/use_media_query.rs b/packages/stylist/src/yew/hooks/use_media_query.rs
index f66a5ee..d76de7e 100644
--- a/packages/stylist/src/yew/hooks/use_media_query.rs
+++ b/packages/stylist/src/yew/hooks/use_media_query.rs
@@ -38,6 +38,9 @@ pub fn use_media_query(query: &str) -> bool {
         let match_media = match_media();
         let match_media_clone = match_media.clone();
 
+        // The query or the viewport may have changed since the state was set.
+        state_clone.set(match_media.matches());
+
         let listener = EventListener::new(&match_media, "change", move |_event| {
             state_clone.set(match_media_clone.matches());
         });
-- 
2.43.0


From 17d58e929d71774dd9de69d760613120aed05e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 18/23] fix: load hydrated styles into the manager they belong
 to only

---
 packages/stylist/src/yew/provider.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/stylist/src/yew/provider.rs b/packages/stylist/src/yew/provider.rs
index b483324..664d1aa 100644
--- a/packages/stylist/src/yew/provider.rs
+++ b/packages/stylist/src/yew/provider.rs
@@ -55,8 +55,11 @@ pub fn manager_provider(props: &ManagerProviderProps) -> HtmlResult {
         #[cfg(feature = "hydration")]
         {
             // We must load the styles immediately before child components are rendered.
+            //
+            // The styles belong to the manager the component is hydrated with, loading them again
+            // when the manager changes would bring back styles that may have been removed.
             let manager = manager.clone();
-            use_memo(manager, move |manager| {
+            use_memo((), move |_| {
                 if let Some(m) = _style_data {
                     manager.load_style_data(m.as_ref());
                 }
-- 
2.43.0


From 4f1605644a089fd9e6e671d64b3e9196d300e011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 19/23] fix: accept any white space, comments or none after
 at-keywords

'@media(width > 1px)', '@media/**/print' and an at-keyword followed by a line
break or a tab are valid, but were refused.
---
 packages/stylist-core/src/parser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 7f0bc71..86232ad 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -4,7 +4,7 @@ use std::fmt;
 use nom::branch::{alt, Alt};
 use nom::bytes::complete::{is_not, tag, take_while1};
 use nom::character::complete::{alpha1, alphanumeric1, anychar, char};
-use nom::combinator::{fail, map, not, opt, peek, recognize};
+use nom::combinator::{fail, map, not, opt, peek, recognize, verify};
 use nom::error::{convert_error, ErrorKind, ParseError, VerboseError};
 use nom::multi::{many0, many1, separated_list1};
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated};
@@ -466,7 +466,11 @@ impl Parser {
     where
         T: Alt<&'a str, &'a str, VerboseError<&'a str>>,
     {
-        let tags = recognize(terminated(alt(tags), tag(" ")));
+        let tags = terminated(
+            alt(tags),
+            // The whitespace can only be omitted before a parenthesis. (e.g.: `@media(width > 1px)`)
+            alt((verify(Self::sp, |m: &str| !m.is_empty()), peek(tag("(")))),
+        );
 
         traced_context(
             "AtRuleCondition",
@@ -486,7 +490,7 @@ impl Parser {
                 |p: (&str, StringFragment)| {
                     vec![
                         StringFragment {
-                            inner: p.0.to_string().into(),
+                            inner: format!("{} ", p.0).into(),
                         },
                         p.1,
                     ]
-- 
2.43.0


From 26caed03f3a4546a4caf59a0c5acd3cfd353eeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:34 +0000
Subject: [PATCH 20/23] fix: treat white space as CSS does

A form feed is white space, whereas a no-break space and other non-ASCII white
space is a part of a name.
---
 packages/stylist-core/src/parser.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 86232ad..f217605 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -124,16 +124,20 @@ impl Parser {
         )(i)
     }
 
+    /// Whitespaces in CSS, other whitespaces (e.g.: a non-breaking space) are a part of names.
+    fn is_whitespace(c: char) -> bool {
+        matches!(c, ' ' | '\t' | '\r' | '\n' | '\x0c')
+    }
+
     /// Parse whitespace
     fn sp(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
-        let chars = " \t\r\n";
-        let whitespace = take_while1(move |c| chars.contains(c));
+        let whitespace = take_while1(Self::is_whitespace);
         traced_context("Whitespace", recognize(many0(alt((whitespace, Self::cmt)))))(i)
     }
 
     /// Trim whitespaces, but keep a trailing whitespace that is escaped.
     fn trim_str(i: &str) -> &str {
-        let trimmed = i.trim();
+        let trimmed = i.trim_matches(Self::is_whitespace);
         let backslashes = trimmed.len() - trimmed.trim_end_matches('\\').len();
 
         if backslashes % 2 == 0 {
@@ -141,7 +145,7 @@ impl Parser {
         }
 
         // Include the character that is escaped by the last backslash.
-        let i = i.trim_start();
+        let i = i.trim_start_matches(Self::is_whitespace);
         let escaped = i[trimmed.len()..].chars().next();
         &i[..trimmed.len() + escaped.map_or(0, |m| m.len_utf8())]
     }
@@ -199,7 +203,7 @@ impl Parser {
                     Self::style_attr_value,
                 ),
                 move |p: (&str, StringFragment)| StyleAttribute {
-                    key: p.0.trim().to_string().into(),
+                    key: p.0.to_string().into(),
                     value: vec![p.1].into(),
                 },
             ))),
-- 
2.43.0


From 89226f5f3d910f408eeed58c5985ed4df90f9939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:26 +0000
Subject: [PATCH 21/23] fix: names of counters stay unique after loading style
 data

---
 packages/stylist/src/manager/mod.rs |  3 +++
 packages/stylist/src/utils.rs       | 28 ++++++++++++++++++++++++----
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 50bf2ce..fbb9eae 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -377,6 +377,7 @@ mod feat_hydration {
     use super::*;
 
     use crate::ast::ToStyleStr;
+    use crate::utils::skip_entropy;
     use std::collections::hash_map::Entry;
 
     impl StyleManager {
@@ -396,6 +397,8 @@ mod feat_hydration {
 
             for StyleDataContent { id, key, .. } in data.0.iter() {
                 let key = Rc::new(key.clone());
+                // The server may have counted further than current process.
+                skip_entropy(id);
 
                 match reg.styles.entry(key.clone()) {
                     Entry::Occupied(m) => {
diff --git a/packages/stylist/src/utils.rs b/packages/stylist/src/utils.rs
index 21e015a..31527bd 100644
--- a/packages/stylist/src/utils.rs
+++ b/packages/stylist/src/utils.rs
@@ -6,16 +6,36 @@ fn get_rand_str() -> String {
 }
 
 #[cfg(any(test, not(feature = "random")))]
-pub(crate) fn get_next_style_id() -> String {
-    use once_cell::sync::Lazy;
-    use std::sync::atomic::{AtomicU64, Ordering};
+static CTR: once_cell::sync::Lazy<std::sync::atomic::AtomicU64> =
+    once_cell::sync::Lazy::new(Default::default);
 
-    static CTR: Lazy<AtomicU64> = Lazy::new(AtomicU64::default);
+#[cfg(any(test, not(feature = "random")))]
+pub(crate) fn get_next_style_id() -> String {
+    use std::sync::atomic::Ordering;
 
     let ctr = CTR.fetch_add(1, Ordering::SeqCst);
     format!("style-{}", ctr)
 }
 
+/// Makes sure that the entropy of an id that comes from another process is not used again.
+#[cfg(feature = "hydration")]
+#[cfg_attr(feature = "random", allow(unused_variables))]
+pub(crate) fn skip_entropy(id: &str) {
+    #[cfg(not(feature = "random"))]
+    {
+        use std::sync::atomic::Ordering;
+
+        let next = id
+            .rsplit_once("style-")
+            .and_then(|(_, m)| m.parse::<u64>().ok())
+            .and_then(|m| m.checked_add(1));
+
+        if let Some(m) = next {
+            CTR.fetch_max(m, Ordering::SeqCst);
+        }
+    }
+}
+
 pub(crate) fn get_entropy() -> String {
     #[cfg(feature = "random")]
     let entropy = get_rand_str();
-- 
2.43.0


From 22e2ed491f89cc6c22271c7f31c74d653b33cbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:54 +0000
Subject: [PATCH 22/23] fix: class names of different wasm modules differ

---
 packages/stylist/src/utils.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/packages/stylist/src/utils.rs b/packages/stylist/src/utils.rs
index 31527bd..0fc7a5d 100644
--- a/packages/stylist/src/utils.rs
+++ b/packages/stylist/src/utils.rs
@@ -1,4 +1,30 @@
-#[cfg(feature = "random")]
+#[cfg(all(feature = "random", target_arch = "wasm32"))]
+fn get_rand_str() -> String {
+    use std::cell::RefCell;
+    use std::iter::repeat_with;
+
+    use wasm_bindgen::prelude::*;
+
+    #[wasm_bindgen]
+    extern "C" {
+        #[wasm_bindgen(js_namespace = Math, js_name = random)]
+        fn math_random() -> f64;
+    }
+
+    thread_local! {
+        // fastrand starts with the same seed in every wasm module, applications on the same page
+        // would end up with the same class names.
+        static RNG: RefCell<fastrand::Rng> =
+            RefCell::new(fastrand::Rng::with_seed(math_random().to_bits()));
+    }
+
+    RNG.with(|m| {
+        let mut rng = m.borrow_mut();
+        repeat_with(|| rng.alphanumeric()).take(8).collect()
+    })
+}
+
+#[cfg(all(feature = "random", not(target_arch = "wasm32")))]
 fn get_rand_str() -> String {
     use std::iter::repeat_with;
 
-- 
2.43.0


From 298a36e11125e176acb7fc37fef19d7149228eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:26 +0000
Subject: [PATCH 23/23] fix: refuse empty selectors, values and conditions in
 inline macros

---
 .../src/inline/parse/attribute.rs             |  3 +++
 .../src/inline/parse/qualifier.rs             | 19 ++++++++++++++-----
 .../stylist-macros/src/inline/parse/rule.rs   | 13 ++++++++++++-
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/packages/stylist-macros/src/inline/parse/attribute.rs b/packages/stylist-macros/src/inline/parse/attribute.rs
index 2221b5f..0a88fe1 100644
--- a/packages/stylist-macros/src/inline/parse/attribute.rs
+++ b/packages/stylist-macros/src/inline/parse/attribute.rs
@@ -77,6 +77,9 @@ impl Parse for CssAttributeValue {
             }
             errors.extend(token_errors);
         }
+        if values.is_empty() && errors.is_empty() {
+            errors.push(input.error("expected a value"));
+        }
         Ok(Self { values, errors })
     }
 }
diff --git a/packages/stylist-macros/src/inline/parse/qualifier.rs b/packages/stylist-macros/src/inline/parse/qualifier.rs
index 8141614..6e25a1a 100644
--- a/packages/stylist-macros/src/inline/parse/qualifier.rs
+++ b/packages/stylist-macros/src/inline/parse/qualifier.rs
@@ -14,6 +14,10 @@ pub struct CssBlockQualifier {
     errors: Vec<ParseError>,
 }
 
+fn is_not_comma(q: &ComponentValue) -> bool {
+    !matches!(q, ComponentValue::Token(PreservedToken::Punct(ref p)) if p.as_char() == ',')
+}
+
 impl Parse for CssBlockQualifier {
     fn parse(input: &ParseBuffer) -> ParseResult<Self> {
         let mut component_iter = ComponentValueStream::from(input);
@@ -27,12 +31,21 @@ impl Parse for CssBlockQualifier {
             let next_token = component_iter
                 .next()
                 .ok_or_else(|| input.error("ScopeQualifier: unexpected end of input"))??;
-            let token_errors = next_token.validate_selector_token()?;
+            let mut token_errors = next_token.validate_selector_token()?;
+            if !is_not_comma(&next_token) && qualifiers.last().map_or(true, |m| !is_not_comma(m)) {
+                token_errors.push(ParseError::new_spanned(
+                    &next_token,
+                    "expected a selector before ','",
+                ));
+            }
             if token_errors.is_empty() {
                 qualifiers.push(next_token);
             }
             errors.extend(token_errors);
         }
+        if qualifiers.is_empty() && errors.is_empty() {
+            errors.push(input.error("expected a selector"));
+        }
         Ok(Self { qualifiers, errors })
     }
 }
@@ -49,10 +62,6 @@ impl CssBlockQualifier {
     pub fn into_output(self, ctx: &mut IntoOutputContext) -> Vec<OutputSelector> {
         ctx.extend_errors(self.errors);
 
-        fn is_not_comma(q: &ComponentValue) -> bool {
-            !matches!(q, ComponentValue::Token(PreservedToken::Punct(ref p)) if p.as_char() == ',')
-        }
-
         self.qualifiers
             .into_iter()
             .peekable()
diff --git a/packages/stylist-macros/src/inline/parse/rule.rs b/packages/stylist-macros/src/inline/parse/rule.rs
index cde3072..575acfc 100644
--- a/packages/stylist-macros/src/inline/parse/rule.rs
+++ b/packages/stylist-macros/src/inline/parse/rule.rs
@@ -1,7 +1,7 @@
 use syn::parse::{Error as ParseError, Parse, ParseBuffer, Result as ParseResult};
 use syn::token;
 
-use super::super::component_value::{ComponentValue, ComponentValueStream};
+use super::super::component_value::{ComponentValue, ComponentValueStream, PreservedToken};
 use super::super::css_ident::CssIdent;
 use super::{fragment_spacing, CssScope, IntoOutputContext};
 use crate::output::{OutputFragment, OutputRule};
@@ -42,6 +42,10 @@ impl Parse for CssAtRule {
             ));
         }
 
+        if input.peek(token::Brace) && errors.is_empty() {
+            errors.push(input.error("expected a condition"));
+        }
+
         let contents = loop {
             if input.peek(token::Semi) {
                 break CssAtRuleContent::Empty;
@@ -53,6 +57,13 @@ impl Parse for CssAtRule {
             let next_token = component_iter
                 .next()
                 .ok_or_else(|| input.error("AtRule: unexpected end of input"))??;
+            if matches!(next_token, ComponentValue::Token(PreservedToken::Punct(ref p)) if p.as_char() == '@')
+            {
+                errors.push(ParseError::new_spanned(
+                    &next_token,
+                    "unexpected '@' in condition",
+                ));
+            }
             prelude.push(next_token);
         };
 
-- 
2.43.0

