From e4438a56a43e850691c405f5f43728c60caec3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:57 +0000
Subject: [PATCH 01/24] verif: guarded re-export of private spec items for
 external monitors

---
 core/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 8c6070e..ef0c88a 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -30,3 +30,12 @@ pub use crate::version::spec_trees::{
 pub use crate::version::CompOp;
 pub use crate::version::Version;
 pub use crate::version::VersionPart;
+
+/// Verification hook: the private items the monitors outside this repository observe.
+/// Not part of the API; compiled only with `--cfg ronda_verif`.
+#[cfg(ronda_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::version::errors::VersionParsingError;
+    pub use crate::version::spec_trees::{Spec, VersionSpec};
+}
-- 
2.43.0


From 3b9c5e3722e3c54341968b7f314f9b91096a528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 02/24] fix: compare_to_version evaluates "self op other", as
 documented

It evaluated the operator the other way round, so "1.2" was not less than
"1.3.2" (nor was it in Python, whose rich comparison calls it).  The spec
matcher had compensated by swapping its operands; it no longer needs to.
---
 core/src/version/matching.rs |  2 +-
 core/src/version/version.rs  | 10 ++++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index c2ebf99..e7c4fe4 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -146,7 +146,7 @@ pub struct MatchOperator {
 }
 impl MatchFn for MatchOperator {
     fn test(&self, other: &Version) -> bool {
-        self.version.compare_to_version(other, &self.operator)
+        other.compare_to_version(&self.version, &self.operator)
     }
 }
 
diff --git a/core/src/version/version.rs b/core/src/version/version.rs
index 0ec9730..fe4b588 100644
--- a/core/src/version/version.rs
+++ b/core/src/version/version.rs
@@ -208,10 +208,8 @@ impl Version {
 
     pub fn compare_to_version(&self, other: &Version, operator: &CompOp) -> bool {
         match operator {
-            // these look inverted. What we're saying when we have a.b.* (spec) and a.b.c (other version)
-            //     is that a.b.c starts with the spec (up until the star)
-            CompOp::StartsWith => other.startswith(self),
-            CompOp::NotStartsWith => !other.startswith(self),
+            CompOp::StartsWith => self.startswith(other),
+            CompOp::NotStartsWith => !self.startswith(other),
             CompOp::Compatible => unimplemented!(),
             CompOp::Incompatible => unimplemented!(),
             _ => match self.compare_version(other) {
@@ -220,11 +218,11 @@ impl Version {
                     _ => false,
                 },
                 CompOp::Lt => match operator {
-                    &CompOp::Ne | &CompOp::Gt | &CompOp::Ge => true,
+                    &CompOp::Ne | &CompOp::Lt | &CompOp::Le => true,
                     _ => false,
                 },
                 CompOp::Gt => match operator {
-                    &CompOp::Ne | &CompOp::Lt | &CompOp::Le => true,
+                    &CompOp::Ne | &CompOp::Gt | &CompOp::Ge => true,
                     _ => false,
                 },
                 _ => unreachable!(),
-- 
2.43.0


From 05cd69d7afcc40c729e2fad9cbe29d455be0f520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:56 +0000
Subject: [PATCH 03/24] fix: compare every trailing place of the longer version

When one version had run out of places, the first extra place of the other
decided the comparison even when it equalled the implied zero, so that
"1" == "1.0.1" and "1.0.1" < "1.0.2" held together.
---
 core/src/version/version.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/version/version.rs b/core/src/version/version.rs
index fe4b588..8b9038a 100644
--- a/core/src/version/version.rs
+++ b/core/src/version/version.rs
@@ -272,7 +272,7 @@ impl Version {
                 (Some(i), Some(j)) => match i.partial_cmp(j) {
                     Some(Ordering::Greater) => return CompOp::Gt,
                     Some(Ordering::Less) => return CompOp::Lt,
-                    // This is the only loop branch that continues
+                    // Equal so far: go on to the next place
                     Some(Ordering::Equal) => Ordering::Equal,
                     _ => unreachable!("Ignoring ge, le, ne"),
                 },
@@ -282,13 +282,13 @@ impl Version {
                 (Some(i), None) => match i.partial_cmp(&&i.get_empty()) {
                     Some(Ordering::Less) => return CompOp::Lt,
                     Some(Ordering::Greater) => return CompOp::Gt,
-                    Some(Ordering::Equal) => return CompOp::Eq,
+                    Some(Ordering::Equal) => Ordering::Equal,
                     _ => unreachable!("Ignoring ge, le, ne"),
                 },
                 (None, Some(j)) => match &j.get_empty().partial_cmp(j) {
                     Some(Ordering::Less) => return CompOp::Lt,
                     Some(Ordering::Greater) => return CompOp::Gt,
-                    Some(Ordering::Equal) => return CompOp::Eq,
+                    Some(Ordering::Equal) => Ordering::Equal,
                     _ => unreachable!("Ignoring ge, le, ne"),
                 },
 
-- 
2.43.0


From e2ca1d7782c7a3e0939b938b0450b953c98dca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:58 +0000
Subject: [PATCH 04/24] fix: a zero sorts against strings the way a missing
 place does

1.0 == 1.0.0 because a missing place counts as zero, but 1.0 < 1.0.post1 while
1.0.0 > 1.0.post1 (and the same for a local version, 1.0+x), so the order was
not transitive and sorting depended on the order of the input.
---
 core/src/version/version_part.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/version/version_part.rs b/core/src/version/version_part.rs
index c32f80c..efea21c 100644
--- a/core/src/version/version_part.rs
+++ b/core/src/version/version_part.rs
@@ -62,6 +62,12 @@ impl PartialOrd for VersionPart {
             (VersionPart::Integer(a), VersionPart::Integer(b)) => a.partial_cmp(b),
             (VersionPart::LexicographicString(a), VersionPart::LexicographicString(b)) => a.partial_cmp(b),
             (VersionPart::PEP440String(a), VersionPart::PEP440String(b)) => a.partial_cmp(b),
+            // A zero is what a missing place stands for (see get_empty), so against a string it has
+            // to sort the way a missing place does: 1.0 == 1.0.0 and 1.0 < 1.0.post1, 1.0 < 1.0+x
+            (VersionPart::Integer(0), VersionPart::LexicographicString(_))
+            | (VersionPart::Integer(0), VersionPart::PEP440String(_)) => other.get_empty().partial_cmp(other),
+            (VersionPart::LexicographicString(_), VersionPart::Integer(0))
+            | (VersionPart::PEP440String(_), VersionPart::Integer(0)) => self.partial_cmp(&self.get_empty()),
             // Match simple position in the list, but reverse it because things at the top are higher
             _ => Some(match self {
                 VersionPart::Epoch(_a) => 0,
-- 
2.43.0


From 5a41b1c195f4502274a2412e183c9dea06e8a416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 05/24] fix: an invalid epoch is a parse error, not a panic

---
 core/src/version/parsers/conda.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/version/parsers/conda.rs b/core/src/version/parsers/conda.rs
index fd89175..8ed94fa 100644
--- a/core/src/version/parsers/conda.rs
+++ b/core/src/version/parsers/conda.rs
@@ -16,7 +16,11 @@ pub fn conda_parser(
     let epoch_split: Vec<&str> = version.split("!").collect();
     let post_epoch_split: &str = match epoch_split.len() {
         2 => {
-            parts.push(VersionPart::Epoch(epoch_split[0].parse().unwrap()));
+            match epoch_split[0].parse() {
+                Ok(epoch) => parts.push(VersionPart::Epoch(epoch)),
+                Err(_) => return Err(VersionParsingError::Message(
+                    format!("invalid epoch in version string {}", version)))
+            }
             epoch_split[1]
         },
         1 => {
-- 
2.43.0


From 0ffc9586812c28cdff9804f361b39c6f20007d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:03 +0000
Subject: [PATCH 06/24] fix: a version of separators only has an Empty part,
 like an empty string

With no parts at all it compared equal both to "" and to "0", which are not
equal to each other.
---
 core/src/version/parsers/conda.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/version/parsers/conda.rs b/core/src/version/parsers/conda.rs
index 8ed94fa..8660b9b 100644
--- a/core/src/version/parsers/conda.rs
+++ b/core/src/version/parsers/conda.rs
@@ -70,7 +70,8 @@ pub fn conda_parser(
         parts.push(VersionPart::LexicographicString(local.to_string()));
     }
 
-    if parts.is_empty() && version.is_empty() {
+    // nothing but separators is no different from an empty string
+    if parts.is_empty() {
         parts.push(VersionPart::Empty);
     }
 
-- 
2.43.0


From 1aa0c7ff0fd9d65addfcde72ec428277eebc5cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:34 +0000
Subject: [PATCH 07/24] fix: number components up to 64 bits

A component above i32::MAX (a timestamp such as 20190101123456) fell back to
text and sorted below every number.
---
 core/src/version/parsers/conda.rs   | 2 +-
 core/src/version/parsers/default.rs | 2 +-
 core/src/version/version_part.rs    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/version/parsers/conda.rs b/core/src/version/parsers/conda.rs
index 8660b9b..ef8ea7c 100644
--- a/core/src/version/parsers/conda.rs
+++ b/core/src/version/parsers/conda.rs
@@ -53,7 +53,7 @@ pub fn conda_parser(
         // sub-split to separate numbers and letters that are joined together
         for m in LETTER_NUMBER_RE.find_iter(part) {
             let substr: &str = &part[m.start()..m.end()];
-            match substr.parse::<i32>() {
+            match substr.parse::<i64>() {
                 Ok(number) => {
                     // Push the number part to the vector, and set the has number flag
                     parts.push(VersionPart::Integer(number));
diff --git a/core/src/version/parsers/default.rs b/core/src/version/parsers/default.rs
index 0eba28a..ac5f441 100644
--- a/core/src/version/parsers/default.rs
+++ b/core/src/version/parsers/default.rs
@@ -19,7 +19,7 @@ pub fn default_parser(
         }
 
         // Try to parse the value as an number
-        match part.parse::<i32>() {
+        match part.parse::<i64>() {
             Ok(number) => {
                 // Push the number part to the vector, and set the has number flag
                 parts.push(VersionPart::Integer(number));
diff --git a/core/src/version/version_part.rs b/core/src/version/version_part.rs
index efea21c..283b5e5 100644
--- a/core/src/version/version_part.rs
+++ b/core/src/version/version_part.rs
@@ -15,7 +15,7 @@ use std::fmt::{Debug, Display};
 #[derive(Deserialize, Clone)]
 pub enum VersionPart {
     Epoch(i16),
-    Integer(i32),
+    Integer(i64),
     LexicographicString(String),
     PEP440String(PEP440String),
     Empty,
-- 
2.43.0


From 968f9fcdb21823e47c99d691ed53207a462ca733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 08/24] fix: specs that cannot be understood are errors, not
 panics

An empty spec, one starting with a multi-byte character, a regular expression
that does not compile, an operator without its '=' and an unparsable version
all panicked inside a function that returns a Result.
---
 core/src/version/matching.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index e7c4fe4..19b3f10 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -34,9 +34,12 @@ pub(crate) fn create_match_enum_from_operator_str(
         }
         v_str = &v_str[..v_str.len() - 2];
     }
+    let operator = CompOp::from_sign(operator_str).map_err(|_| {
+        VersionParsingError::Message(format!("invalid operator in string {}", input))
+    })?;
     let matcher = MatchOperator {
-        operator: CompOp::from_sign(operator_str).unwrap(),
-        version: v_str.into(),
+        operator,
+        version: v_str.parse()?,
     };
     let _is_exact = operator_str == "==";
     Ok((matcher.into(), _is_exact))
@@ -63,6 +66,10 @@ impl Default for MatchEnum {
     }
 }
 
+fn create_regex(expression: &str) -> Result<Regex, VersionParsingError> {
+    Regex::new(expression).map_err(|e| VersionParsingError::Message(e.to_string()))
+}
+
 pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError> {
     lazy_static! {
         static ref REGEX_SPLIT_RE: Regex = Regex::new(r#".*[()|,^$]"#).unwrap();
@@ -81,10 +88,9 @@ pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError
                 input
             )));
         }
-        let re = Regex::new(input).unwrap();
-        matcher = MatchRegex { expression: re }.into();
+        matcher = MatchRegex { expression: create_regex(input)? }.into();
         _is_exact = false;
-    } else if OPERATOR_START.contains(&input[..1]) {
+    } else if OPERATOR_START.iter().any(|op| input.starts_with(op)) {
         let res = create_match_enum_from_operator_str(input);
         match res {
             Ok((_m, _e)) => {
@@ -101,20 +107,20 @@ pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError
             .replace(".", r"\.")
             .replace("+", r"\+")
             .replace("*", r".*");
-        let rx: Regex = Regex::new(&format!(r"^(?:{})$", rx)).unwrap();
+        let rx: Regex = create_regex(&format!(r"^(?:{})$", rx))?;
         matcher = MatchRegex { expression: rx }.into();
         _is_exact = false;
     } else if input.ends_with("*") {
         matcher = MatchOperator {
             operator: CompOp::StartsWith,
-            version: input.trim_end_matches(|c| c == '*' || c == '.').into(),
+            version: input.trim_end_matches(|c| c == '*' || c == '.').parse()?,
         }
         .into();
         _is_exact = false;
     } else if !input.contains("@") {
         matcher = MatchOperator {
             operator: CompOp::Eq,
-            version: input.into(),
+            version: input.parse()?,
         }
         .into();
         _is_exact = true;
-- 
2.43.0


From 3f34a1359c32b8fc6d415f4f4d51546cf13d1590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:02 +0000
Subject: [PATCH 09/24] fix: reject operators that are not operators (===, ><,
 !!, =<)

The tail of the operator was taken as the beginning of the version, so
"===3.3" quietly meant == "=3.3", which nothing matches.
---
 core/src/version/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index 19b3f10..98f34ec 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -7,7 +7,7 @@ pub(crate) fn create_match_enum_from_operator_str(
     input: &str,
 ) -> Result<(MatchEnum, bool), VersionParsingError> {
     lazy_static! {
-        static ref VERSION_RELATION_RE: Regex = Regex::new(r#"^([<>=!~]=?)(\S+)$"#).unwrap();
+        static ref VERSION_RELATION_RE: Regex = Regex::new(r#"^([<>=!~]=?)([^\s<>=!~]\S*)$"#).unwrap();
     }
 
     let (mut operator_str, mut v_str) = match VERSION_RELATION_RE.captures(input) {
-- 
2.43.0


From 2f1153c53cfbaed0550f240819ba06c037b8a0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 10/24] fix: evaluate regular expression and glob specs

They were accepted (1.*.1, ^1\.7\.[0-9]+$) and then panicked on first use.
---
 core/src/version/matching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index 98f34ec..066c177 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -139,8 +139,8 @@ pub struct MatchRegex {
     pub expression: Regex,
 }
 impl MatchFn for MatchRegex {
-    fn test(&self, _other: &Version) -> bool {
-        panic!("Not implemented")
+    fn test(&self, other: &Version) -> bool {
+        self.expression.is_match(other.as_str())
     }
 }
 
-- 
2.43.0


From 7a49eb169cc52c2082dc9ef921d63d7300743ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 11/24] fix: implement the compatible release operators ~= and
 !~=

They are documented on CompOp and accepted in specs, but evaluating one
panicked with "not implemented".
---
 core/src/version/version.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/core/src/version/version.rs b/core/src/version/version.rs
index 8b9038a..32e54a8 100644
--- a/core/src/version/version.rs
+++ b/core/src/version/version.rs
@@ -206,12 +206,25 @@ impl Version {
         }
     }
 
+    /// PEP 440 compatible release: for a release V.N (and whatever suffix follows it), at least
+    /// that version and within V.*
+    fn is_compatible_with(&self, release: &Version) -> bool {
+        let is_release = |part: &&VersionPart| match part {
+            VersionPart::Epoch(_) | VersionPart::Integer(_) => true,
+            _ => false,
+        };
+        let series = release.parts.iter().take_while(is_release).count().saturating_sub(1);
+        self.compare_version(release) != CompOp::Lt
+            && self.parts.len() >= series
+            && self.parts[..series] == release.parts[..series]
+    }
+
     pub fn compare_to_version(&self, other: &Version, operator: &CompOp) -> bool {
         match operator {
             CompOp::StartsWith => self.startswith(other),
             CompOp::NotStartsWith => !self.startswith(other),
-            CompOp::Compatible => unimplemented!(),
-            CompOp::Incompatible => unimplemented!(),
+            CompOp::Compatible => self.is_compatible_with(other),
+            CompOp::Incompatible => !self.is_compatible_with(other),
             _ => match self.compare_version(other) {
                 CompOp::Eq => match operator {
                     &CompOp::Eq | &CompOp::Le | &CompOp::Ge => true,
-- 
2.43.0


From 7b02572790d1eb20db2d3dfd13f56d300b3407ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 12/24] fix: parse compound specs in
 VersionSpecOrConstraintTree::try_from

The string was split with a regular expression that swallows everything up to
the last delimiter, so every spec with a delimiter in it was rejected.
---
 core/src/version/spec_trees.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index ebe2142..035e30e 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -105,12 +105,14 @@ impl ConstraintTree {
 impl TryFrom<&str> for VersionSpecOrConstraintTree {
     type Error = VersionParsingError;
     fn try_from (input: &str) -> Result<VersionSpecOrConstraintTree, Self::Error> {
-        lazy_static! { static ref REGEX_SPLIT_RE: Regex = Regex::new( r#".*[()|,^$]"# ).unwrap(); }
-        let split_input: Vec<&str> = REGEX_SPLIT_RE.split(input).collect();
-        if split_input.len() > 1 {
-            match ConstraintTree::try_from(split_input) {
-                Ok(v) => Ok(VersionSpecOrConstraintTree::ConstraintTree(v)),
-                Err(e) => Err(e)
+        lazy_static! { static ref COMPOUND_RE: Regex = Regex::new( r#"[()|,^$]"# ).unwrap(); }
+        if COMPOUND_RE.is_match(input) {
+            let mut tree = treeify(input).map_err(VersionParsingError::Message)?;
+            if tree.combinator == Combinator::None && tree.parts.len() == 1 {
+                // nothing to combine, just a spec in parentheses or a regular expression
+                Ok(tree.parts.remove(0))
+            } else {
+                Ok(VersionSpecOrConstraintTree::ConstraintTree(tree))
             }
         } else {
             match VersionSpec::try_from(input) {
-- 
2.43.0


From 79e296bc3e8d6fa8292d8e461e8f614f95a97eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 13/24] fix: report bad parts of a compound spec as errors, not
 panics

treeify, untreeify and ConstraintTree::try_from return a Result, but unwrapped
the errors of the specs and trees they are made of (and indexed into an empty
vec).
---
 core/src/version/spec_trees.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 035e30e..949cf96 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -84,7 +84,7 @@ impl ConstraintTree {
                     str_parts.push(match item {
                         VersionSpecOrConstraintTree::VersionSpec(s) => s.get_spec().to_string(),
                         VersionSpecOrConstraintTree::ConstraintTree(cj) => {
-                            cj.combine(self.combinator == Combinator::And, true).unwrap()
+                            cj.combine(self.combinator == Combinator::And, true)?
                         }
                     });
                 }
@@ -152,14 +152,14 @@ impl TryFrom<Vec<&str>> for ConstraintTree
 {
     type Error = VersionParsingError;
     fn try_from(input: Vec<&str>) -> Result<Self, Self::Error> {
-        let combinator = match input[0].borrow() {
-            "," => Combinator::And,
-            "|" => Combinator::Or,
+        let combinator = match input.first().copied() {
+            Some(",") => Combinator::And,
+            Some("|") => Combinator::Or,
             _ => return Err(VersionParsingError::Message(format!("Unknown first value in vec of str used as ConstraintTree")))
         };
         let tree = ConstraintTree {
             combinator,
-            parts: input[1..].iter().map(|x| VersionSpecOrConstraintTree::try_from(x.clone()).unwrap()).collect()
+            parts: input[1..].iter().map(|x| VersionSpecOrConstraintTree::try_from(x.clone())).collect::<Result<_, _>>()?
         };
         Ok(tree)
     }
@@ -299,7 +299,7 @@ fn _treeify(spec_str: String) -> Result<ConstraintTree, String> {
                         combinator: Combinator::None,
                         parts: vec![VersionSpecOrConstraintTree::ConstraintTree(output)]};
                 }
-                output.parts.push(VersionSpecOrConstraintTree::VersionSpec(VersionSpec::try_from(item).unwrap()))
+                output.parts.push(VersionSpecOrConstraintTree::VersionSpec(VersionSpec::try_from(item).map_err(|e| e.to_string())?))
             }
         }
     }
-- 
2.43.0


From 34670de272246aebe23996f0771e0344770e772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 14/24] fix: reject compound specs with missing operands or
 operators

Operators took whatever operands were around: "1|2," "|1,2" and "1(,2)" were
accepted with some meaning, "(1)(2)" and "" with none.
---
 core/src/version/spec_trees.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 949cf96..c75728e 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -275,7 +275,15 @@ fn _treeify(spec_str: String) -> Result<ConstraintTree, String> {
     let spec_str_in_parens = format!("({})", spec_str);
     let tokens: Vec<&str> = VSPEC_TOKENS.find_iter(&spec_str_in_parens).map(|x| x.as_str().trim()).collect();
 
+    // An opening parenthesis or a spec can only stand where an operand is due, everything else only
+    // where it isn't.
+    let mut operand_due = true;
     for item in tokens {
+        let is_operand = match item { "|" | "," | ")" => false, _ => true };
+        if is_operand != operand_due {
+            return Err(format!("unable to convert ({}) to expression tree: misplaced \"{}\"", spec_str, item));
+        }
+        operand_due = match item { "(" | "|" | "," => true, _ => false };
         match item {
             "(" => { stack.push("(") },
             "|" => {
-- 
2.43.0


From de6546df374c54d5b27180c532a324e60f75f3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:33 +0000
Subject: [PATCH 15/24] fix: a tree of a single spec matches what the spec
 matches

treeify("1.2.3") and treeify("(>=1.2)") gave a tree that matched nothing.
---
 core/src/version/spec_trees.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index c75728e..b63e20f 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -54,7 +54,8 @@ impl Spec for ConstraintTree{
         return match self.combinator {
             Combinator::And => self.parts.iter().all(|x| x.borrow().test_match_version(other)),
             Combinator::Or => self.parts.iter().any(|x| x.borrow().test_match_version(other)),
-            Combinator::None => false,
+            // nothing to combine: a tree of one spec
+            Combinator::None => self.parts.len() == 1 && self.parts[0].test_match_version(other),
         }
     }
 }
-- 
2.43.0


From e272a96b04c1137c23d7ceac8efb2c544e400d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 16/24] fix: constraint trees are equal only if combinator and
 all parts are

The combinator was ignored, and so were the parts of the longer tree.
---
 core/src/version/spec_trees.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index b63e20f..62430f4 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -1,4 +1,3 @@
-use std::ops::Deref;
 use std::fmt;
 use regex::Regex;
 use std::borrow::Borrow;
@@ -142,10 +141,7 @@ impl fmt::Debug for VersionSpecOrConstraintTree {
 
 impl PartialEq for ConstraintTree {
     fn eq(&self, other: &Self) -> bool {
-        for (a, b) in self.parts.iter().zip(&other.parts) {
-            if a.deref() != b.deref() { return false }
-        }
-        return true
+        self.combinator == other.combinator && self.parts == other.parts
     }
 }
 
-- 
2.43.0


From 9757a15cb806eea9f11baa33eb0263bce246e3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 17/24] fix: Debug of a spec or constraint tree no longer
 recurses for ever

---
 core/src/version/spec_trees.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 62430f4..e06e2ae 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -135,7 +135,10 @@ impl PartialEq for VersionSpecOrConstraintTree {
 
 impl fmt::Debug for VersionSpecOrConstraintTree {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{:#?}", self)
+        match self {
+            VersionSpecOrConstraintTree::VersionSpec(s) => write!(f, "{:?}", s.get_spec()),
+            VersionSpecOrConstraintTree::ConstraintTree(t) => fmt::Debug::fmt(t, f)
+        }
     }
 }
 
-- 
2.43.0


From 861a57dc587ee6e98edb31e471faa07bc3e8e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 18/24] fix: an unreadable repodata file is an error, not a
 panic

---
 core/src/repodata/repodata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/repodata/repodata.rs b/core/src/repodata/repodata.rs
index 434f1de..6a7fd7a 100644
--- a/core/src/repodata/repodata.rs
+++ b/core/src/repodata/repodata.rs
@@ -47,7 +47,7 @@ pub struct Repodata {
 }
 
 pub fn read_repodata<'a, P: AsRef<Path>>(path: P) -> Result<Repodata, serde_json::error::Error> {
-    let file = std::fs::read_to_string(path).unwrap();
+    let file = std::fs::read_to_string(path).map_err(de::Error::custom)?;
     // Read the JSON contents of the file as an instance of `Repodata`.
     let r = serde_json::from_str(&file)?;
 
-- 
2.43.0


From 2ba67bb806f3a94232d873cacb186e80e053c0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 19/24] fix: accept repodata versions written with JSON escapes

---
 core/src/repodata/repodata.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/repodata/repodata.rs b/core/src/repodata/repodata.rs
index 6a7fd7a..de15dc0 100644
--- a/core/src/repodata/repodata.rs
+++ b/core/src/repodata/repodata.rs
@@ -24,8 +24,9 @@ fn deserialize_json_str_to_version<'de, D>(deserializer: D) -> Result<Version, D
     where
         D: de::Deserializer<'de>,
 {
-    let s: &str = Deserialize::deserialize(deserializer)?;
-    match Version::parse(s, &conda_parser) {
+    // not &str: a JSON string that contains escapes cannot be borrowed from the input
+    let s = String::deserialize(deserializer)?;
+    match Version::parse(&s, &conda_parser) {
         Ok(v) => Ok(v),
         Err(_e) => Err(de::Error::custom("Version parsing error"))
     }
-- 
2.43.0


From 9ab2ee61b2642725c122cea98b28f6589230f0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 20/24] fix: stringify a tree whose only part is another tree

---
 core/src/version/spec_trees.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index e06e2ae..35ba56e 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -69,12 +69,10 @@ pub enum Combinator {
 impl ConstraintTree {
     fn combine(&self, inand: bool, nested: bool) -> Result<String, String> {
         match self.parts.len() {
-            1 => {
-                if let VersionSpecOrConstraintTree::VersionSpec(s) = self.parts[0].borrow() {
-                    Ok(s.get_spec().to_string())
-                } else {
-                    Err("Can't combine (stringify) single-element ConstraintTree that isn't just a string".to_string())
-                }
+            // nothing to join with
+            1 => match &self.parts[0] {
+                VersionSpecOrConstraintTree::VersionSpec(s) => Ok(s.get_spec().to_string()),
+                VersionSpecOrConstraintTree::ConstraintTree(cj) => cj.combine(inand, nested),
             },
             0 => Err("Can't combine (stringify) a zero-element ConstraintTree".to_string()),
             _ => {
-- 
2.43.0


From 4ac7bcb158f205bc2793921891e23ae6dd5fd71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 21/24] fix: Debug of a constraint tree without parts does not
 panic

---
 core/src/version/spec_trees.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 35ba56e..ed35f27 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -166,9 +166,12 @@ impl TryFrom<Vec<&str>> for ConstraintTree
 impl fmt::Debug for ConstraintTree {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         if f.alternate() {
-            write!(f, "{:#?}{:#?}", self.combinator, self.parts)
-        } else {
-            write!(f, "{:?}", self.get_spec())
+            return write!(f, "{:#?}{:#?}", self.combinator, self.parts);
+        }
+        match self.combine(false, false) {
+            Ok(spec) => write!(f, "{:?}", spec),
+            // a tree without parts has no spec string
+            Err(_) => write!(f, "{:?}{:?}", self.combinator, self.parts),
         }
     }
 }
-- 
2.43.0


From eef7bd67e7dc183ce3b9973e055f93d445bf4245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 22/24] fix: the Python binding raises ValueError for an
 invalid version string

---
 python/src/python_interface.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/src/python_interface.rs b/python/src/python_interface.rs
index 0a4cf28..4a857a9 100644
--- a/python/src/python_interface.rs
+++ b/python/src/python_interface.rs
@@ -1,4 +1,4 @@
-use cpython::{PyResult, CompareOp, ToPyObject, PythonObject};
+use cpython::{exc, PyErr, PyResult, CompareOp, ToPyObject, PythonObject};
 use ronda::{Version, CompOp, read_repodata};
 
 fn py_cmp_to_ronda_cmp(other: CompareOp) -> CompOp {
@@ -26,7 +26,9 @@ py_module_initializer!(_ronda, init_ronda, PyInit__ronda, |py, m| {
 py_class!(class RustyVersion |py| {
     data rust_version: Version;
     def __new__(_cls, arg: &str) -> PyResult<RustyVersion> {
-        RustyVersion::create_instance(py, arg.into())
+        let version = arg.parse::<Version>()
+            .map_err(|e| PyErr::new::<exc::ValueError, _>(py, e.to_string()))?;
+        RustyVersion::create_instance(py, version)
     }
     def __richcmp__(&self, other: &RustyVersion, op: CompareOp) -> PyResult<bool> {
         Ok(self.rust_version(py).compare_to_version(other.rust_version(py), &py_cmp_to_ronda_cmp(op)))
-- 
2.43.0


From d27a0309c72b21ec3a3776e5e02d85c8f6ef9ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 23/24] fix: in a glob every character but '*' stands for
 itself

---
 core/src/version/matching.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index 066c177..752c9ee 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -103,11 +103,9 @@ pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError
         matcher = MatchAlways {}.into();
         _is_exact = false;
     } else if input.trim_end_matches("*").contains("*") {
-        let rx = input
-            .replace(".", r"\.")
-            .replace("+", r"\+")
-            .replace("*", r".*");
-        let rx: Regex = create_regex(&format!(r"^(?:{})$", rx))?;
+        // everything but '*' stands for itself
+        let literals: Vec<String> = input.split('*').map(regex::escape).collect();
+        let rx: Regex = create_regex(&format!(r"^(?s:{})$", literals.join(".*")))?;
         matcher = MatchRegex { expression: rx }.into();
         _is_exact = false;
     } else if input.ends_with("*") {
-- 
2.43.0


From d2edabb2bcd670aadf43817d711794a723fb1e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 24/24] fix: get_spec of a tree without parts does not panic

---
 core/src/version/spec_trees.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index ed35f27..196a008 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -40,7 +40,8 @@ pub struct ConstraintTree {
 // Not sure tw
 impl Spec for ConstraintTree{
     fn get_spec(&self) -> String {
-        untreeify(&VersionSpecOrConstraintTree::ConstraintTree(self.clone())).unwrap()
+        // a tree without parts has no spec string
+        self.combine(false, false).unwrap_or_default()
     }
     fn is_exact(&self) -> bool {
         return false
-- 
2.43.0

