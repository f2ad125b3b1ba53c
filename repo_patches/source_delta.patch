From 937a5ec7338b153cb59a1f30a24c59276aec02b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 01/64] fix: unescape quotes and backslashes when parsing
 quoted path expression keys

---
 rust/pact_models/src/path_exp.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/rust/pact_models/src/path_exp.rs b/rust/pact_models/src/path_exp.rs
index a6e3e88..c4d1ca8 100644
--- a/rust/pact_models/src/path_exp.rs
+++ b/rust/pact_models/src/path_exp.rs
@@ -602,13 +602,21 @@ fn string_path<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path: &s
     chars.next();
     let mut ch = next_char.unwrap();
     next_char = peek(chars);
-    while ch.1 != '\'' && next_char.is_some() {
-      id.push(ch.1);
+    // A quote or backslash in a key is escaped with a backslash (see write_obj_key_for_path)
+    let mut escaped = false;
+    while (ch.1 != '\'' || escaped) && next_char.is_some() {
+      let next = next_char.unwrap();
+      if !escaped && ch.1 == '\\' && (next.1 == '\'' || next.1 == '\\') {
+        escaped = true;
+      } else {
+        id.push(ch.1);
+        escaped = false;
+      }
       chars.next();
-      ch = next_char.unwrap();
+      ch = next;
       next_char = peek(chars);
     }
-    if ch.1 == '\'' {
+    if ch.1 == '\'' && !escaped {
       if id.is_empty() {
         Err(format!("Empty strings are not allowed in path expression \"{}\" at index {}", path, ch.0))
       } else {
-- 
2.43.0


From 23877286c1c7c1b14287b7d2050f96fdcae59f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 02/64] fix: return an error for path indexes that are not
 valid numbers instead of panicking

---
 rust/pact_models/src/path_exp.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/path_exp.rs b/rust/pact_models/src/path_exp.rs
index c4d1ca8..6c0f8a1 100644
--- a/rust/pact_models/src/path_exp.rs
+++ b/rust/pact_models/src/path_exp.rs
@@ -656,7 +656,9 @@ fn index_path<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path: &st
     }
   }
 
-  tokens.push(PathToken::Index(id.parse().unwrap()));
+  let index = id.parse()
+    .map_err(|err| format!("\"{}\" is not a valid index in path expression \"{}\": {}", id, path, err))?;
+  tokens.push(PathToken::Index(index));
   Ok(())
 }
 
-- 
2.43.0


From f05fe846327dd28a5327556d4ed011d1d4307a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 03/64] fix: avoid overflow when calculating the weight of long
 paths

---
 rust/pact_models/src/path_exp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/path_exp.rs b/rust/pact_models/src/path_exp.rs
index 6c0f8a1..225ccfa 100644
--- a/rust/pact_models/src/path_exp.rs
+++ b/rust/pact_models/src/path_exp.rs
@@ -195,7 +195,7 @@ impl DocPath {
       if path.len() >= self.len() {
         (
           self.path_tokens.iter().zip(path.iter())
-          .fold(1, |acc, (token, fragment)| acc * matches_token(fragment, token)),
+          .fold(1, |acc: usize, (token, fragment)| acc.saturating_mul(matches_token(fragment, token))),
           self.len()
         )
       } else {
-- 
2.43.0


From 5f2bd6b82c04f7ea065c977a66ea1cec8198cb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 04/64] fix: select the same best matcher on every run when
 path weights are equal

---
 rust/pact_models/src/matchingrules/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index cc358e7..4b7a444 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -994,7 +994,7 @@ impl MatchingRuleCategory {
   fn max_by_path(&self, path: &[&str]) -> RuleList {
     self.rules.iter().map(|(k, v)| (k, v, k.path_weight(path)))
       .filter(|&(_, _, (w, _))| w > 0)
-      .max_by_key(|&(_, _, (w, t))| w * t)
+      .max_by_key(|&(k, _, (w, t))| (w.saturating_mul(t), k))
       .map(|(_, v, (_, t))| v.as_cascaded(t != path.len()))
       .unwrap_or_default()
   }
-- 
2.43.0


From c91015f39cb5cee191276149c55edc3fe743fa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 05/64] fix: select the same rule list on every run when more
 than one path is defined

---
 rust/pact_models/src/matchingrules/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 4b7a444..4c0ea00 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -1080,7 +1080,9 @@ impl MatchingRuleCategory {
 
   /// Returns this category as a matching rule list. Returns a None if there are no rules
   pub fn as_rule_list(&self) -> RuleList {
-    self.rules.values().next().cloned().unwrap_or_default()
+    self.rules.iter().min_by_key(|&(path, _)| path)
+      .map(|(_, rules)| rules.clone())
+      .unwrap_or_default()
   }
 
   /// Adds the rules to the category from the provided JSON
-- 
2.43.0


From 613b7c5fd07b8b5896d87a3cce13ed078e098d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 06/64] fix: keep the rules of both categories when a category
 is renamed to one that exists

---
 rust/pact_models/src/matchingrules/mod.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 4c0ea00..1c22e4d 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -1426,17 +1426,11 @@ impl MatchingRules {
   /// Clones the matching rules, renaming the category
   pub fn rename<S>(&self, old_name: S, new_name: S) -> Self
     where S: Into<Category> {
-    let old = old_name.into();
-    let new = new_name.into();
-    MatchingRules {
-      rules: self.rules.iter().map(|(key, value)| {
-        if key == &old {
-          (new.clone(), value.rename(new.clone()))
-        } else {
-          (key.clone(), value.clone())
-        }
-      }).collect()
+    let mut matching_rules = self.clone();
+    if let Some(category) = matching_rules.rules.remove(&old_name.into()) {
+      matching_rules.add_rules(new_name, category);
     }
+    matching_rules
   }
 
   /// Add the rules to the category
-- 
2.43.0


From d1d4fc0dd5a6c5eb3bfbe47c55f633841beba798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 07/64] fix: hash the entries of maps in a fixed order so that
 equal values have equal hashes

---
 rust/pact_models/src/generators/mod.rs    | 2 +-
 rust/pact_models/src/matchingrules/mod.rs | 5 +++--
 rust/pact_models/src/provider_states.rs   | 3 ++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 7abba1e..427f106 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -361,7 +361,7 @@ impl Hash for Generator {
         for (index, rules, generators) in variants {
           index.hash(state);
           rules.hash(state);
-          for (s, g) in generators {
+          for (s, g) in generators.iter().sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
             s.hash(state);
             g.hash(state);
           }
diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 1c22e4d..6fc1b99 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -600,7 +600,7 @@ impl Hash for MatchingRule {
         for (index, rules, generators) in variants {
           index.hash(state);
           rules.hash(state);
-          for (s, g) in generators {
+          for (s, g) in generators.iter().sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
             s.hash(state);
             g.hash(state);
           }
@@ -1452,7 +1452,8 @@ impl MatchingRules {
 impl Hash for MatchingRules {
   fn hash<H: Hasher>(&self, state: &mut H) {
     for (k, v) in self.rules.iter()
-      .filter(|(_, cat)| cat.is_not_empty()) {
+      .filter(|(_, cat)| cat.is_not_empty())
+      .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       k.hash(state);
       v.hash(state);
     }
diff --git a/rust/pact_models/src/provider_states.rs b/rust/pact_models/src/provider_states.rs
index e218bac..6f4ad9d 100644
--- a/rust/pact_models/src/provider_states.rs
+++ b/rust/pact_models/src/provider_states.rs
@@ -5,6 +5,7 @@ use std::cmp::Eq;
 use std::collections::HashMap;
 use std::hash::{Hash, Hasher};
 
+use itertools::Itertools;
 use maplit::*;
 use serde::{Deserialize, Serialize};
 use serde_json::*;
@@ -100,7 +101,7 @@ impl ProviderState {
 impl Hash for ProviderState {
   fn hash<H: Hasher>(&self, state: &mut H) {
     self.name.hash(state);
-    for (k, v) in self.params.clone() {
+    for (k, v) in self.params.iter().sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       k.hash(state);
       match v {
         Value::Number(n) => if n.is_u64() {
-- 
2.43.0


From 38b0a3fdc6c3038ada09a8d21f73a9385343d0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 08/64] fix: compare the status of status code matchers

---
 rust/pact_models/src/matchingrules/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 6fc1b99..78cfa63 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -624,6 +624,7 @@ impl PartialEq for MatchingRule {
       (MatchingRule::Include(str1), MatchingRule::Include(str2)) => str1 == str2,
       (MatchingRule::ContentType(str1), MatchingRule::ContentType(str2)) => str1 == str2,
       (MatchingRule::ArrayContains(variants1), MatchingRule::ArrayContains(variants2)) => variants1 == variants2,
+      (MatchingRule::StatusCode(status1), MatchingRule::StatusCode(status2)) => status1 == status2,
       (MatchingRule::EachKey(definition1), MatchingRule::EachKey(definition2)) => definition1 == definition2,
       (MatchingRule::EachValue(definition1), MatchingRule::EachValue(definition2)) => definition1 == definition2,
       _ => mem::discriminant(self) == mem::discriminant(other)
-- 
2.43.0


From 0073c9ddb0050b929b6eac2be5bbbee08cb77246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 09/64] fix: hash the metadata of asynchronous messages in a
 fixed order

---
 rust/pact_models/src/v4/async_message.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/v4/async_message.rs b/rust/pact_models/src/v4/async_message.rs
index 7cc8495..588d41c 100644
--- a/rust/pact_models/src/v4/async_message.rs
+++ b/rust/pact_models/src/v4/async_message.rs
@@ -9,6 +9,7 @@ use std::panic::RefUnwindSafe;
 use std::sync::{Arc, Mutex};
 
 use anyhow::anyhow;
+use itertools::Itertools;
 use maplit::hashmap;
 use serde_json::{json, Map, Value};
 use tracing::warn;
@@ -447,7 +448,8 @@ impl Hash for AsynchronousMessage {
     self.description.hash(state);
     self.provider_states.hash(state);
     self.contents.contents.hash(state);
-    for (k, v) in &self.contents.metadata {
+    for (k, v) in self.contents.metadata.iter()
+      .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       k.hash(state);
       hash_json(v, state);
     }
-- 
2.43.0


From a15df8799caf9e31afae566ed7951eee8fcd3a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:26 +0000
Subject: [PATCH 10/64] fix: use the item and not the whole list for query
 values that are not strings

---
 rust/pact_models/src/query_strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index 7df3f94..2ebf06d 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -159,7 +159,7 @@ pub fn v3_query_from_json(
         Value::Array(array) => array.iter().map(|item| match item {
           Value::String(s) => Some(s.clone()),
           Value::Null => None,
-          _ => Some(v.to_string())
+          _ => Some(item.to_string())
         }).collect(),
         _ => {
           warn!("Query parameter value '{}' is not valid, ignoring", v);
-- 
2.43.0


From 398c7bc001650c471cd7e9e1f5b00cdc71a04000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:26 +0000
Subject: [PATCH 11/64] fix: encode characters with an odd number of hex digits
 without panicking, decode all characters as UTF-8

---
 rust/pact_models/src/query_strings.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index 2ebf06d..659b625 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -34,21 +34,21 @@ pub fn decode_query(query: &str) -> Result<String, String> {
             Err(err) => {
               error!("Failed to decode '%{}{}' to as HEX - {}", v1, v2, err);
               buffer.push('%' as u8);
-              buffer.push(v1 as u8);
-              buffer.push(v2 as u8);
+              buffer.extend_from_slice(v1.to_string().as_bytes());
+              buffer.extend_from_slice(v2.to_string().as_bytes());
             }
           }
         },
         (Some(v1), None) => {
           buffer.push('%' as u8);
-          buffer.push(v1 as u8);
+          buffer.extend_from_slice(v1.to_string().as_bytes());
         },
         _ => buffer.push('%' as u8)
       }
     } else if c == '+' {
       buffer.push(' ' as u8);
     } else {
-      buffer.push(c as u8);
+      buffer.extend_from_slice(c.to_string().as_bytes());
     }
 
     ch = chars.next();
@@ -72,16 +72,12 @@ pub fn encode_query(query: &str) -> String {
       'a'..='z' => ch.to_string(),
       'A'..='Z' => ch.to_string(),
       '0'..='9' => ch.to_string(),
-      _ => ch.escape_unicode()
-        .filter(|u| u.is_digit(16))
-        .batching(|it| {
-          match it.next() {
-            None => None,
-            Some(x) => Some((x, it.next().unwrap()))
-          }
-        })
-        .map(|u| format!("%{}{}", u.0, u.1))
-        .collect()
+      _ => {
+        // The bytes of the code point, without any leading zero bytes
+        let bytes = (ch as u32).to_be_bytes();
+        let start = bytes.iter().position(|b| *b != 0).unwrap_or(3);
+        bytes[start..].iter().map(|b| format!("%{:02x}", b)).collect()
+      }
     }
   }).collect()
 }
-- 
2.43.0


From 0ade881032651a7f87ae0ae35d8546aef91d7989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:26 +0000
Subject: [PATCH 12/64] fix: encode the structural characters of query
 parameter names

---
 rust/pact_models/src/query_strings.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index 659b625..29a7132 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -82,6 +82,15 @@ pub fn encode_query(query: &str) -> String {
   }).collect()
 }
 
+/// Encodes the characters of a query parameter name that would otherwise be read as part of the
+/// structure of the query string
+fn encode_name(name: &str) -> String {
+  name.chars().map(|ch| match ch {
+    '%' | '&' | '=' | '+' | ' ' => encode_query(&ch.to_string()),
+    _ => ch.to_string()
+  }).collect()
+}
+
 /// Parses a query string into an optional map. The query parameter name will be mapped to
 /// a list of values. Where the query parameter is repeated, the order of the values will be
 /// preserved.
@@ -120,10 +129,11 @@ pub fn build_query_string(query: HashMap<String, Vec<Option<String>>>) -> String
     .filter(|(k, _)| !k.is_empty())
     .sorted_by(|a, b| Ord::cmp(&a.0, &b.0))
     .flat_map(|kv| {
+      let name = encode_name(&kv.0);
       kv.1.iter()
         .map(|v| match v {
-          None => kv.0.clone(),
-          Some(s) => format!("{}={}", kv.0, encode_query(s))
+          None => name.clone(),
+          Some(s) => format!("{}={}", name, encode_query(s))
         })
         .collect_vec()
     })
-- 
2.43.0


From 14eba31656e542d97d1ce5f772aaee285bd5b586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 13/64] fix: equal provider state values 0.0 and -0.0 must have
 the same hash

---
 rust/pact_models/src/json_utils.rs      | 3 ++-
 rust/pact_models/src/provider_states.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 53f2d12..f40a01a 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -85,7 +85,8 @@ pub fn hash_json<H: Hasher>(v: &Value, state: &mut H) {
         num.hash(state);
       }
       if let Some(num) = n.as_f64() {
-        num.to_string().hash(state);
+        // 0.0 and -0.0 are equal, so must have the same hash (-0.0 + 0.0 is 0.0)
+        (num + 0.0).to_string().hash(state);
       }
       if let Some(num) = n.as_i64() {
         num.hash(state);
diff --git a/rust/pact_models/src/provider_states.rs b/rust/pact_models/src/provider_states.rs
index 6f4ad9d..2e420f3 100644
--- a/rust/pact_models/src/provider_states.rs
+++ b/rust/pact_models/src/provider_states.rs
@@ -109,7 +109,8 @@ impl Hash for ProviderState {
         } else if n.is_i64() {
           n.as_i64().unwrap().hash(state)
         } else if n.is_f64() {
-          n.as_f64().unwrap().to_string().hash(state)
+          // 0.0 and -0.0 are equal, so must have the same hash (-0.0 + 0.0 is 0.0)
+          (n.as_f64().unwrap() + 0.0).to_string().hash(state)
         },
         Value::String(s) => s.hash(state),
         Value::Bool(b) => b.hash(state),
-- 
2.43.0


From c1a12dd612504f7b920edcb33cfd488ec4fb5e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 14/64] fix: a closing brace before an expression must not
 terminate it

---
 rust/pact_models/src/expression_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/expression_parser.rs b/rust/pact_models/src/expression_parser.rs
index 617fada..71d0d3d 100644
--- a/rust/pact_models/src/expression_parser.rs
+++ b/rust/pact_models/src/expression_parser.rs
@@ -382,7 +382,9 @@ fn replace_expressions(value: &str, value_resolver: &dyn ValueResolver<Value>) -
     if index > 0 {
       result.push(json!(&buffer[0..index]));
     }
-    let end_position = buffer.find('}')
+    // only a closing brace after the opening one terminates the expression
+    let end_position = buffer[index..].find('}')
+      .map(|pos| index + pos)
       .ok_or_else(|| anyhow!("Missing closing brace in expression string '{}'", value))?;
     if end_position - index > 2 {
       let lookup_key = &buffer[(index + 2)..end_position];
-- 
2.43.0


From 8f910891cf463b7e3cdfcb36070d2d3bb9afccf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 15/64] fix: provider state values that do not fit the data
 type must be an error and not wrap

---
 rust/pact_models/src/expression_parser.rs | 42 ++++++++++++++---------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/rust/pact_models/src/expression_parser.rs b/rust/pact_models/src/expression_parser.rs
index 71d0d3d..db81171 100644
--- a/rust/pact_models/src/expression_parser.rs
+++ b/rust/pact_models/src/expression_parser.rs
@@ -102,11 +102,12 @@ impl DataValue {
         } else if let Some(n) = n.as_i64() {
           Ok(json!(n))
         } else if let Some(n) = n.as_f64() {
-          Ok(json!(n as i64))
+          float_to_int::<i64>(n).map(|val| json!(val))
         } else {
           Err(anyhow!("Internal Error: Number is neither u64, i64, or f64"))
         }
-        Value::String(s) => s.parse::<usize>().map(|val| json!(val))
+        Value::String(s) => s.parse::<u64>().map(|val| json!(val))
+          .or_else(|_| s.parse::<i64>().map(|val| json!(val)))
           .map_err(|err| anyhow!("Number can not be generated from '{}' - {}", self.wrapped, err)),
         Value::Array(_) | Value::Object(_) => Err(anyhow!("Number can not be generated from '{}'", self.wrapped))
       },
@@ -151,6 +152,15 @@ impl DataValue {
   }
 }
 
+/// Truncates a float towards zero. Values that do not fit into the integer type are an error.
+fn float_to_int<T>(val: f64) -> anyhow::Result<T> where T: TryFrom<i128> {
+  if val.is_nan() {
+    Err(anyhow!("'{}' can not be converted to an integer", val))
+  } else {
+    T::try_from(val as i128).map_err(|_| anyhow!("'{}' is out of range for an integer", val))
+  }
+}
+
 impl TryFrom<DataValue> for u16 {
   type Error = anyhow::Error;
 
@@ -163,11 +173,11 @@ impl TryFrom<DataValue> for u16 {
         Ok(0)
       }
       Value::Number(n) => if let Some(n) = n.as_u64() {
-        Ok(n as u16)
+        u16::try_from(n).map_err(|err| anyhow!("u16 can not be generated from {} - {}", value.wrapped, err))
       } else if let Some(n) = n.as_i64() {
-        Ok(n as u16)
+        u16::try_from(n).map_err(|err| anyhow!("u16 can not be generated from {} - {}", value.wrapped, err))
       } else if let Some(n) = n.as_f64() {
-        Ok(n as u16)
+        float_to_int::<u16>(n)
       } else {
         Ok(0)
       }
@@ -175,8 +185,8 @@ impl TryFrom<DataValue> for u16 {
         DataType::INTEGER | DataType::RAW | DataType::STRING => s.parse::<u16>()
           .map_err(|err| anyhow!("u16 can not be generated from '{}' - {}", s, err)),
         DataType::DECIMAL | DataType::FLOAT => s.parse::<f64>()
-          .map(|val| val as u16)
-          .map_err(|err| anyhow!("u16 can not be generated from '{}' - {}", s, err)),
+          .map_err(|err| anyhow!("u16 can not be generated from '{}' - {}", s, err))
+          .and_then(float_to_int::<u16>),
         _ => Err(anyhow!("u16 can not be generated from {}", value.wrapped))
       },
       _ => Err(anyhow!("u16 can not be generated from {}", value.wrapped))
@@ -198,9 +208,9 @@ impl TryFrom<DataValue> for u64 {
       Value::Number(n) => if let Some(n) = n.as_u64() {
         Ok(n)
       } else if let Some(n) = n.as_i64() {
-        Ok(n as u64)
+        u64::try_from(n).map_err(|err| anyhow!("u64 can not be generated from {} - {}", value.wrapped, err))
       } else if let Some(n) = n.as_f64() {
-        Ok(n as u64)
+        float_to_int::<u64>(n)
       } else {
         Ok(0)
       }
@@ -208,8 +218,8 @@ impl TryFrom<DataValue> for u64 {
         DataType::INTEGER | DataType::RAW | DataType::STRING => s.parse::<u64>()
           .map_err(|err| anyhow!("u64 can not be generated from '{}' - {}", s, err)),
         DataType::DECIMAL | DataType::FLOAT => s.parse::<f64>()
-          .map(|val| val as u64)
-          .map_err(|err| anyhow!("u64 can not be generated from '{}' - {}", s, err)),
+          .map_err(|err| anyhow!("u64 can not be generated from '{}' - {}", s, err))
+          .and_then(float_to_int::<u64>),
         _ => Err(anyhow!("u64 can not be generated from {}", value.wrapped))
       },
       _ => Err(anyhow!("u64 can not be generated from {}", value.wrapped))
@@ -229,11 +239,11 @@ impl TryFrom<DataValue> for i64 {
         Ok(0)
       }
       Value::Number(n) => if let Some(n) = n.as_u64() {
-        Ok(n as i64)
+        i64::try_from(n).map_err(|err| anyhow!("i64 can not be generated from {} - {}", value.wrapped, err))
       } else if let Some(n) = n.as_i64() {
         Ok(n)
       } else if let Some(n) = n.as_f64() {
-        Ok(n as i64)
+        float_to_int::<i64>(n)
       } else {
         Ok(0)
       }
@@ -241,8 +251,8 @@ impl TryFrom<DataValue> for i64 {
         DataType::INTEGER | DataType::RAW | DataType::STRING => s.parse::<i64>()
           .map_err(|err| anyhow!("i64 can not be generated from '{}' - {}", s, err)),
         DataType::DECIMAL | DataType::FLOAT => s.parse::<f64>()
-          .map(|val| val as i64)
-          .map_err(|err| anyhow!("i64 can not be generated from '{}' - {}", s, err)),
+          .map_err(|err| anyhow!("i64 can not be generated from '{}' - {}", s, err))
+          .and_then(float_to_int::<i64>),
         _ => Err(anyhow!("i64 can not be generated from {}", value.wrapped))
       },
       _ => Err(anyhow!("i64 can not be generated from {}", value.wrapped))
@@ -310,7 +320,7 @@ impl Display for DataValue {
   fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
     match self.data_type {
       DataType::STRING | DataType::RAW => write!(f, "{}", json_to_string(&self.wrapped)),
-      DataType::INTEGER => match i64::try_from(self.clone()) {
+      DataType::INTEGER => match self.as_json() {
         Ok(v) => write!(f, "{}", v),
         Err(err) => {
           error!("Failed to convert value = {}", err);
-- 
2.43.0


From 7f487dc28be3840b42235de00320eccb15bbecb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 16/64] fix: provider state value that can not be converted
 must be an error and not a panic

---
 rust/pact_models/src/generators/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 427f106..88c7bc8 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -2,7 +2,7 @@
 
 use std::collections::HashMap;
 use std::convert::TryFrom;
-use std::fmt::{Debug, Display, Formatter};
+use std::fmt::{Debug, Display, Formatter, Write};
 use std::hash::{Hash, Hasher};
 use std::mem;
 use std::str::FromStr;
@@ -996,7 +996,13 @@ impl GenerateValue<String> for Generator {
         } else {
           context.clone()
         };
-        generate_value_from_context(exp, &provider_state_config, dt).map(|val| val.to_string())
+        generate_value_from_context(exp, &provider_state_config, dt).and_then(|val| {
+          // the value can not be displayed if it can not be converted to the data type
+          let mut text = String::new();
+          write!(text, "{}", val)
+            .map(|_| text)
+            .map_err(|_| anyhow!("'{}' can not be converted to {:?}", val.wrapped, val.data_type))
+        })
       }
       Generator::MockServerURL(example, regex) => if let Some(mock_server_details) = context.get("mockServer") {
         debug!("Generating URL from Mock Server details");
-- 
2.43.0


From 480f5176e29ef4154d9b81e248d2448db020ae95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:32 +0000
Subject: [PATCH 17/64] fix: generator attributes that do not fit must take the
 default and not wrap

---
 rust/pact_models/src/json_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index f40a01a..df10fa8 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -28,7 +28,7 @@ impl JsonToNum<i32> for i32 {
     match map.get(field) {
       Some(Value::Number(num)) => {
          match num.as_i64() {
-          Some(num) => num as i32,
+          Some(num) => i32::try_from(num).unwrap_or(default),
           None => default
         }
       },
@@ -42,7 +42,7 @@ impl JsonToNum<u16> for u16 {
     match map.get(field) {
       Some(Value::Number(num)) => {
         match num.as_u64() {
-          Some(num) => num as u16,
+          Some(num) => u16::try_from(num).unwrap_or(default),
           None => default
         }
       },
-- 
2.43.0


From c75d170473d2dc0c893f07059ccd3eb1c2ef73f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:03 +0000
Subject: [PATCH 18/64] fix: status codes that are not a u16 must be an error
 and not wrap

---
 rust/pact_models/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/lib.rs b/rust/pact_models/src/lib.rs
index e4efabe..62deb85 100644
--- a/rust/pact_models/src/lib.rs
+++ b/rust/pact_models/src/lib.rs
@@ -378,11 +378,14 @@ impl HttpStatus {
       Value::Array(a) => {
         let status_codes = a.iter().map(|status| match status {
           Value::Number(n) => if n.is_u64() {
-            Ok(n.as_u64().unwrap() as u16)
+            u16::try_from(n.as_u64().unwrap()).map_err(|err| anyhow!(err))
           } else if n.is_i64() {
-            Ok(n.as_i64().unwrap() as u16)
+            u16::try_from(n.as_i64().unwrap()).map_err(|err| anyhow!(err))
           } else {
-            Ok(n.as_f64().unwrap() as u16)
+            match n.as_f64().unwrap() {
+              n if n > -1.0 && n < 65536.0 => Ok(n as u16),
+              n => Err(anyhow!("{} is not a valid status code", n))
+            }
           },
           Value::String(s) => s.parse::<u16>().map_err(|err| anyhow!(err)),
           _ => Err(anyhow!("'{}' is not a valid JSON value for an HTTP Status", status))
-- 
2.43.0


From 7e239bde8a0125a7e579b6168169221bbd638bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:03 +0000
Subject: [PATCH 19/64] fix: values of an array contains rule must not panic on
 a generator without a JSON form

---
 rust/pact_models/src/matchingrules/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 78cfa63..04b2c78 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -301,8 +301,8 @@ impl MatchingRule {
       MatchingRule::ContentType(ct) => hashmap!{ "value" => Value::String(ct.clone()) },
       MatchingRule::ArrayContains(variants) => hashmap! { "variants" =>
         variants.iter().map(|(variant, rules, gens)| {
-          Value::Array(vec![json!(variant), rules.to_v3_json(), Value::Object(gens.iter().map(|(key, g)| {
-            (key.to_string(), g.to_json().unwrap())
+          Value::Array(vec![json!(variant), rules.to_v3_json(), Value::Object(gens.iter().filter_map(|(key, g)| {
+            g.to_json().map(|json| (key.to_string(), json))
           }).collect())])
         }).collect()
       },
-- 
2.43.0


From e0097a695ed247e818dd1ade3ec68fe0d2da8981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:03 +0000
Subject: [PATCH 20/64] fix: min-max-type written by MatchingRule::name must be
 readable by MatchingRule::create

---
 rust/pact_models/src/matchingrules/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 04b2c78..dc001f3 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -379,6 +379,10 @@ impl MatchingRule {
         Some(max) => Ok(MatchingRule::MaxType(max)),
         None => Err(anyhow!("Max matcher missing 'max' field")),
       },
+      "min-max-type" => match (json_to_num(attributes.get("min").cloned()), json_to_num(attributes.get("max").cloned())) {
+        (Some(min), Some(max)) => Ok(MatchingRule::MinMaxType(min, max)),
+        _ => Err(anyhow!("Min/Max matcher missing 'min' or 'max' field")),
+      },
       "timestamp" | "datetime" => match attributes.get("format").or_else(|| attributes.get(rule_type)) {
         Some(s) => Ok(MatchingRule::Timestamp(json_to_string(s))),
         None => Ok(MatchingRule::Timestamp(String::default())),
-- 
2.43.0


From 63f972f34dfac9d08b6141bc567f1f30bd837ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:03 +0000
Subject: [PATCH 21/64] fix: only the root of a path is renamed in the V2 form
 of body matching rules

---
 rust/pact_models/src/matchingrules/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index dc001f3..acd5028 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -1030,7 +1030,7 @@ impl MatchingRuleCategory {
         map.insert("$.path".to_string(), v.to_v2_json());
       }
       Category::BODY => for (k, v) in self.rules.clone() {
-        map.insert(String::from(k).replace("$", "$.body"), v.to_v2_json());
+        map.insert(String::from(k).replacen("$", "$.body", 1), v.to_v2_json());
       }
       Category::HEADER | Category::QUERY => for (k, v) in &self.rules {
         let mut path = DocPath::root();
-- 
2.43.0


From 03b4eb192d31a040bf2520a3afd5cf390f0d8439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:03 +0000
Subject: [PATCH 22/64] fix: rules for a header or query parameter named
 matchers must not be lost

---
 rust/pact_models/src/matchingrules/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index acd5028..89e5f48 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -1109,7 +1109,7 @@ impl MatchingRuleCategory {
         }
       }
     } else if let Value::Object(m) = rules {
-      if m.contains_key("matchers") {
+      if m.get("matchers").map_or(false, |matchers| matchers.is_array()) {
         self.add_rule_list(DocPath::empty(), rules)?;
       } else {
         for (k, v) in m {
@@ -1139,7 +1139,7 @@ impl MatchingRuleCategory {
         }
       }
     } else if let Value::Object(m) = rules {
-      if m.contains_key("matchers") {
+      if m.get("matchers").map_or(false, |matchers| matchers.is_array()) {
         self.add_rule_list(DocPath::empty(), rules)?;
       } else if self.name == Category::QUERY || self.name == Category::HEADER {
         for (k, v) in m {
-- 
2.43.0


From 94b110eb79746626733e94a2118620890f113876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:03 +0000
Subject: [PATCH 23/64] fix: V2 matching rules for header and query names that
 are not identifiers must be read back

---
 rust/pact_models/src/matchingrules/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 89e5f48..9644ea4 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -57,6 +57,19 @@ fn rules_from_json(attributes: &Map<String, Value>) -> anyhow::Result<Vec<Either
   }
 }
 
+/// Path for the name of a header or query parameter. Names are not path expressions, so those that
+/// are not a simple identifier are kept as a field name.
+fn path_for_name(name: String) -> DocPath {
+  match DocPath::new(name.as_str()) {
+    Ok(path) if path.len() == 2 && path.first_field() == Some(name.as_str()) => path,
+    _ => {
+      let mut path = DocPath::root();
+      path.push_field(name);
+      path
+    }
+  }
+}
+
 /// Set of all matching rules
 #[derive(Debug, Clone, Eq)]
 pub enum MatchingRule {
@@ -1361,7 +1374,7 @@ impl MatchingRules {
           _ => None
         }).skip(1).next();
         let header = header_name.ok_or_else(|| anyhow!("'{}' is not a valid path value for a matching rule", key))?;
-        self.add_v2_rule("header", DocPath::new(header)?, v)?;
+        self.add_v2_rule("header", path_for_name(header), v)?;
       } else {
         let path = DocPath::new(key)?;
         let mut names = path.tokens().iter().filter_map(|t| match t {
@@ -1372,7 +1385,7 @@ impl MatchingRules {
         let name = names.next();
         self.add_v2_rule(
           category,
-          if let Some(name) = name { DocPath::new(name)? } else { DocPath::empty() },
+          if let Some(name) = name { path_for_name(name) } else { DocPath::empty() },
           v,
         )?;
       }
-- 
2.43.0


From fead7da06ae935e938239ce48afe9b7eef675214 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:07:56 +0000
Subject: [PATCH 24/64] fix: a content type header without values is not a
 content type, and does not panic

---
 rust/pact_models/src/json_utils.rs    |  7 +------
 rust/pact_models/src/v4/http_parts.rs | 11 ++++++-----
 rust/pact_models/src/v4/mod.rs        |  2 +-
 3 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index df10fa8..10555cd 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -152,12 +152,7 @@ enum JsonParsable {
 pub fn body_from_json(request: &Value, fieldname: &str, headers: &Option<HashMap<String, Vec<String>>>) -> OptionalBody {
   let content_type = match headers {
     Some(h) => match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
-      Some(kv) => {
-        match ContentType::parse(kv.1[0].as_str()) {
-          Ok(v) => Some(v),
-          Err(_) => None
-        }
-      },
+      Some(kv) => kv.1.first().and_then(|v| ContentType::parse(v.as_str()).ok()),
       None => None
     },
     None => None
diff --git a/rust/pact_models/src/v4/http_parts.rs b/rust/pact_models/src/v4/http_parts.rs
index 0630fcd..35b15b5 100644
--- a/rust/pact_models/src/v4/http_parts.rs
+++ b/rust/pact_models/src/v4/http_parts.rs
@@ -397,14 +397,15 @@ fn content_type_from_json(headers: &Option<HashMap<String, Vec<String>>>, body_a
       debug!("Body has no content type set, will default to any headers or metadata");
       match headers {
         Some(h) => match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
-          Some((_, v)) => {
-            match ContentType::parse(v[0].as_str()) {
-              Ok(v) => Some(v),
+          Some((_, v)) => match v.first() {
+            Some(v) => match ContentType::parse(v.as_str()) {
+              Ok(ct) => Some(ct),
               Err(err) => {
-                warn!("Failed to parse body content type '{}' - {}", v[0], err);
+                warn!("Failed to parse body content type '{}' - {}", v, err);
                 None
               }
-            }
+            },
+            None => None
           },
           None => None
         },
diff --git a/rust/pact_models/src/v4/mod.rs b/rust/pact_models/src/v4/mod.rs
index 2ecd476..4ad33ab 100644
--- a/rust/pact_models/src/v4/mod.rs
+++ b/rust/pact_models/src/v4/mod.rs
@@ -65,7 +65,7 @@ pub fn calc_content_type(body: &OptionalBody, headers: &Option<HashMap<String, V
   body.content_type()
     .or_else(|| headers.as_ref().map(|h| {
       match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
-        Some((_, v)) => ContentType::parse(v[0].as_str()).ok(),
+        Some((_, v)) => v.first().and_then(|v| ContentType::parse(v.as_str()).ok()),
         None => None
       }
     }).flatten())
-- 
2.43.0


From 805864355986a8d33e91076ea61aaec94d0d4b47 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:09:45 +0000
Subject: [PATCH 25/64] fix: a response status that is not a 16-bit number is
 an error, not a panic or another status

---
 rust/pact_models/src/response.rs      | 4 +++-
 rust/pact_models/src/v4/http_parts.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/response.rs b/rust/pact_models/src/response.rs
index 7fb6f3f..c327004 100644
--- a/rust/pact_models/src/response.rs
+++ b/rust/pact_models/src/response.rs
@@ -3,6 +3,7 @@ use std::fmt::{Display, Formatter};
 use std::hash::{Hash, Hasher};
 use std::str::from_utf8;
 
+use anyhow::anyhow;
 use base64::Engine;
 use base64::engine::general_purpose::STANDARD as BASE64;
 use itertools::Itertools;
@@ -39,7 +40,8 @@ impl Response {
   pub fn from_json(response: &Value, _: &PactSpecification
   ) -> anyhow::Result<Response> {
     let status_val = match response.get("status") {
-      Some(v) => v.as_u64().unwrap() as u16,
+      Some(v) => v.as_u64().and_then(|status| u16::try_from(status).ok())
+        .ok_or_else(|| anyhow!("'{}' is not a valid response status", v))?,
       None => 200
     };
     let headers = headers_from_json(response);
diff --git a/rust/pact_models/src/v4/http_parts.rs b/rust/pact_models/src/v4/http_parts.rs
index 35b15b5..a4179aa 100644
--- a/rust/pact_models/src/v4/http_parts.rs
+++ b/rust/pact_models/src/v4/http_parts.rs
@@ -6,6 +6,7 @@ use std::convert::TryFrom;
 use std::fmt::{Display, Formatter};
 use std::hash::{Hash, Hasher};
 
+use anyhow::anyhow;
 use base64::Engine;
 use base64::engine::general_purpose::STANDARD as BASE64;
 use bytes::BytesMut;
@@ -501,7 +502,8 @@ impl HttpResponse {
   /// Build an `HttpResponse` from a JSON `Value` struct.
   pub fn from_json(response: &Value) -> anyhow::Result<Self> {
     let status_val = match response.get("status") {
-      Some(v) => v.as_u64().unwrap() as u16,
+      Some(v) => v.as_u64().and_then(|status| u16::try_from(status).ok())
+        .ok_or_else(|| anyhow!("'{}' is not a valid response status", v))?,
       None => 200
     };
     let headers = headers_from_json(response);
-- 
2.43.0


From 68e541841172b3fa0334e7904e32045a99bef9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:28 +0000
Subject: [PATCH 26/64] fix: responses and asynchronous messages write the
 content type of their headers or metadata with the body

---
 rust/pact_models/src/v4/async_message.rs | 3 ++-
 rust/pact_models/src/v4/http_parts.rs    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/v4/async_message.rs b/rust/pact_models/src/v4/async_message.rs
index 588d41c..5b53cd4 100644
--- a/rust/pact_models/src/v4/async_message.rs
+++ b/rust/pact_models/src/v4/async_message.rs
@@ -165,7 +165,8 @@ impl V4Interaction for AsynchronousMessage {
       map.insert("key".to_string(), Value::String(key.clone()));
     }
 
-    if let Value::Object(body) = self.contents.contents.to_v4_json() {
+    let body = self.contents.contents.with_content_type_if_not_set(self.contents.message_content_type());
+    if let Value::Object(body) = body.to_v4_json() {
       map.insert("contents".to_string(), Value::Object(body));
     }
 
diff --git a/rust/pact_models/src/v4/http_parts.rs b/rust/pact_models/src/v4/http_parts.rs
index a4179aa..0a3995f 100644
--- a/rust/pact_models/src/v4/http_parts.rs
+++ b/rust/pact_models/src/v4/http_parts.rs
@@ -533,7 +533,8 @@ impl HttpResponse {
         ));
       }
 
-      if let Value::Object(body) = self.body.to_v4_json() {
+      let body = self.body.with_content_type_if_not_set(self.content_type());
+      if let Value::Object(body) = body.to_v4_json() {
         map.insert("body".to_string(), Value::Object(body));
       }
 
-- 
2.43.0


From 364714896e1b08931c0118f73ee2b68d24f665f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:28 +0000
Subject: [PATCH 27/64] fix: a JSON body that is a string with a quote or a
 backslash is read back as JSON

---
 rust/pact_models/src/json_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 10555cd..f3bc6f4 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -170,7 +170,7 @@ pub fn body_from_json(request: &Value, fieldname: &str, headers: &Option<HashMap
           if content_type.is_json() {
             match serde_json::from_str::<JsonParsable>(s) {
               Ok(_) => OptionalBody::Present(s.clone().into(), Some(content_type), None),
-              Err(_) => OptionalBody::Present(format!("\"{}\"", s).into(), Some(content_type), None)
+              Err(_) => OptionalBody::Present(Value::String(s.clone()).to_string().into(), Some(content_type), None)
             }
           } else if content_type.is_text() {
             OptionalBody::Present(s.clone().into(), Some(content_type), None)
-- 
2.43.0


From f1e9b2bf2e91e25c8b94ebf8487b5a2182de9c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:28 +0000
Subject: [PATCH 28/64] fix: the generators of a V3 message are read from its
 JSON

---
 rust/pact_models/src/message.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/message.rs b/rust/pact_models/src/message.rs
index 77daa56..abfffef 100644
--- a/rust/pact_models/src/message.rs
+++ b/rust/pact_models/src/message.rs
@@ -15,7 +15,7 @@ use tracing::warn;
 
 use crate::bodies::OptionalBody;
 use crate::content_types::ContentType;
-use crate::generators::{Generators, generators_to_json};
+use crate::generators::{Generators, generators_from_json, generators_to_json};
 use crate::http_parts::HttpPart;
 use crate::interaction::Interaction;
 use crate::json_utils::{body_from_json, json_to_string};
@@ -226,7 +226,7 @@ impl Message {
                   contents: body,
                   matching_rules: matchers_from_json(json, &None)?,
                   metadata,
-                  generators: Generators::default(),
+                  generators: generators_from_json(json)?,
                 })
             },
             _ => Err(anyhow!("Messages require Pact Specification version 3"))
-- 
2.43.0


From c19cd3bcd51f7a70366953ae9a971412f46ab4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:53 +0000
Subject: [PATCH 29/64] fix: text bodies that look like BASE64 are encoded when
 the content type is not a text type

---
 rust/pact_models/src/json_utils.rs | 22 ++++++++++++++++++----
 rust/pact_models/src/request.rs    |  4 ++--
 rust/pact_models/src/response.rs   |  4 ++--
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index f3bc6f4..bfc3f96 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -148,15 +148,29 @@ enum JsonParsable {
   KeyValue(HashMap<String, Value>)
 }
 
-/// Returns the body from the JSON struct with the provided field name
-pub fn body_from_json(request: &Value, fieldname: &str, headers: &Option<HashMap<String, Vec<String>>>) -> OptionalBody {
-  let content_type = match headers {
+/// The content type given by the headers
+fn content_type_from_headers(headers: &Option<HashMap<String, Vec<String>>>) -> Option<ContentType> {
+  match headers {
     Some(h) => match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
       Some(kv) => kv.1.first().and_then(|v| ContentType::parse(v.as_str()).ok()),
       None => None
     },
     None => None
-  };
+  }
+}
+
+/// Converts a body that is text into a JSON struct, so that `body_from_json` will return the same
+/// text. Text that would be taken for a BASE64 encoded body has to be encoded.
+pub(crate) fn text_body_to_json(body: &str, headers: &Option<HashMap<String, Vec<String>>>) -> Value {
+  match content_type_from_headers(headers) {
+    Some(ct) if !ct.is_text() && BASE64.decode(body).is_ok() => Value::String(BASE64.encode(body)),
+    _ => Value::String(body.to_string())
+  }
+}
+
+/// Returns the body from the JSON struct with the provided field name
+pub fn body_from_json(request: &Value, fieldname: &str, headers: &Option<HashMap<String, Vec<String>>>) -> OptionalBody {
+  let content_type = content_type_from_headers(headers);
 
   match request.get(fieldname) {
     Some(v) => match v {
diff --git a/rust/pact_models/src/request.rs b/rust/pact_models/src/request.rs
index 4a12198..d5766f8 100644
--- a/rust/pact_models/src/request.rs
+++ b/rust/pact_models/src/request.rs
@@ -16,7 +16,7 @@ use crate::{DifferenceType, PactSpecification};
 use crate::bodies::OptionalBody;
 use crate::generators::{Generators, generators_from_json, generators_to_json};
 use crate::http_parts::HttpPart;
-use crate::json_utils::{body_from_json, headers_from_json, headers_to_json};
+use crate::json_utils::{body_from_json, headers_from_json, headers_to_json, text_body_to_json};
 use crate::matchingrules::{matchers_from_json, matchers_to_json, MatchingRules};
 use crate::query_strings::{query_from_json, query_to_json, v3_query_from_json};
 use crate::v4::http_parts::HttpRequest;
@@ -203,7 +203,7 @@ impl Request {
           }
         } else {
           match from_utf8(body) {
-            Ok(s) => map.insert("body".to_string(), Value::String(s.to_string())),
+            Ok(s) => map.insert("body".to_string(), text_body_to_json(s, &self.headers)),
             Err(_) => map.insert("body".to_string(), Value::String(BASE64.encode(body)))
           };
         },
diff --git a/rust/pact_models/src/response.rs b/rust/pact_models/src/response.rs
index c327004..ff20bf2 100644
--- a/rust/pact_models/src/response.rs
+++ b/rust/pact_models/src/response.rs
@@ -15,7 +15,7 @@ use crate::{DifferenceType, PactSpecification};
 use crate::bodies::OptionalBody;
 use crate::generators::{Generators, generators_from_json, generators_to_json};
 use crate::http_parts::HttpPart;
-use crate::json_utils::{body_from_json, headers_from_json, headers_to_json};
+use crate::json_utils::{body_from_json, headers_from_json, headers_to_json, text_body_to_json};
 use crate::matchingrules::{matchers_from_json, matchers_to_json, MatchingRules};
 use crate::v4::http_parts::HttpResponse;
 
@@ -83,7 +83,7 @@ impl Response {
             }
           } else {
             match from_utf8(body) {
-              Ok(s) => map.insert("body".to_string(), Value::String(s.to_string())),
+              Ok(s) => map.insert("body".to_string(), text_body_to_json(s, &self.headers)),
               Err(_) => map.insert("body".to_string(), Value::String(BASE64.encode(body)))
             };
           }
-- 
2.43.0


From d1d4cc605af52947ff76d53e890a2f72f653a5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:23 +0000
Subject: [PATCH 30/64] fix: cloning and displaying a V4 synchronous message as
 a boxed interaction

---
 rust/pact_models/src/interaction.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/pact_models/src/interaction.rs b/rust/pact_models/src/interaction.rs
index b8944d0..b6a6ef4 100644
--- a/rust/pact_models/src/interaction.rs
+++ b/rust/pact_models/src/interaction.rs
@@ -153,6 +153,8 @@ impl Display for dyn Interaction {
       std::fmt::Display::fmt(&mp, f)
     } else if let Some(mp) = self.as_v4_async_message() {
       std::fmt::Display::fmt(&mp, f)
+    } else if let Some(mp) = self.as_v4_sync_message() {
+      std::fmt::Display::fmt(&mp, f)
     } else {
       Err(fmt::Error)
     }
@@ -166,6 +168,8 @@ impl Clone for Box<dyn Interaction> {
         Box::new(http)
       } else if let Some(message) = self.as_v4_async_message() {
         Box::new(message)
+      } else if let Some(message) = self.as_v4_sync_message() {
+        Box::new(message)
       } else {
         panic!("Internal Error - Tried to clone an interaction that was not valid")
       }
-- 
2.43.0


From e5a338b1da19c5a2472c1edf066d9e5cf13f57d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:43 +0000
Subject: [PATCH 31/64] fix: merging pacts did not find the interactions that
 both have when they were not in sorted order

---
 rust/pact_models/src/interaction.rs  |  6 ++++++
 rust/pact_models/src/message_pact.rs | 15 ++++-----------
 rust/pact_models/src/sync_pact.rs    | 15 ++++-----------
 3 files changed, 14 insertions(+), 22 deletions(-)

diff --git a/rust/pact_models/src/interaction.rs b/rust/pact_models/src/interaction.rs
index b6a6ef4..3549f46 100644
--- a/rust/pact_models/src/interaction.rs
+++ b/rust/pact_models/src/interaction.rs
@@ -202,6 +202,12 @@ pub fn message_interaction_from_json(source: &str, json: &Value, spec: &PactSpec
   }
 }
 
+/// What the interactions of a pact are sorted by, and what identifies an interaction, when pacts
+/// are merged: the description and the names of the provider states
+pub(crate) fn merge_key(interaction: &dyn Interaction) -> (String, Vec<String>) {
+  (interaction.description(), interaction.provider_states().iter().map(|p| p.name.clone()).collect())
+}
+
 pub(crate) fn parse_interactions(pact_json: &Value, spec_version: PactSpecification
 ) -> anyhow::Result<Vec<RequestResponseInteraction>> {
   if let Some(&Value::Array(ref array)) = pact_json.get("interactions") {
diff --git a/rust/pact_models/src/message_pact.rs b/rust/pact_models/src/message_pact.rs
index a7e75bc..eb41a59 100644
--- a/rust/pact_models/src/message_pact.rs
+++ b/rust/pact_models/src/message_pact.rs
@@ -1,7 +1,6 @@
 //! The `message_pact` module defines a Pact
 //! that contains Messages instead of Interactions.
 
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, HashMap};
 use std::fs;
 use std::fs::File;
@@ -20,7 +19,7 @@ use tracing::debug;
 use crate::{Consumer, PactSpecification, Provider};
 #[cfg(not(target_family = "wasm"))] use crate::file_utils::with_read_lock;
 #[cfg(not(target_family = "wasm"))] use crate::http_utils::{self, HttpAuth};
-use crate::interaction::Interaction;
+use crate::interaction::{Interaction, merge_key};
 use crate::message::Message;
 use crate::pact::{determine_spec_version, Pact, parse_meta_data, ReadWritePact};
 use crate::PACT_RUST_VERSION;
@@ -306,15 +305,9 @@ impl ReadWritePact for MessagePact {
   fn merge(&self, pact: &dyn Pact) -> anyhow::Result<Box<dyn Pact + Send + Sync + RefUnwindSafe>> {
     if self.consumer.name == pact.consumer().name && self.provider.name == pact.provider().name {
       let messages: Vec<Result<Message, String>> = self.messages.iter()
-        .merge_join_by(pact.interactions().iter(), |a, b| {
-          let cmp = Ord::cmp(&a.description, &b.description());
-          if cmp == Ordering::Equal && ! &a.provider_states().is_empty(){
-            Ord::cmp(&a.provider_states.iter().map(|p| p.name.clone()).collect::<Vec<String>>(),
-                     &b.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>())
-          } else {
-            cmp
-          }
-        })
+        .sorted_by_key(|i| merge_key(*i))
+        .merge_join_by(pact.interactions().iter().sorted_by_key(|i| merge_key(i.as_ref())),
+          |a, b| Ord::cmp(&merge_key(*a), &merge_key(b.as_ref())))
         .map(|either| match either {
           Left(i) => Ok(i.clone()),
           Right(i) => i.as_message()
diff --git a/rust/pact_models/src/sync_pact.rs b/rust/pact_models/src/sync_pact.rs
index a4fd8b4..82771b9 100644
--- a/rust/pact_models/src/sync_pact.rs
+++ b/rust/pact_models/src/sync_pact.rs
@@ -1,6 +1,5 @@
 //! Synchronous HTTP Request/Response Pact
 
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, HashMap};
 use std::panic::RefUnwindSafe;
 use std::path::Path;
@@ -16,7 +15,7 @@ use tracing::warn;
 use crate::{Consumer, PactSpecification, Provider};
 #[cfg(not(target_family = "wasm"))] use crate::file_utils::with_read_lock;
 #[cfg(not(target_family = "wasm"))] use crate::http_utils::{self, HttpAuth};
-use crate::interaction::{Interaction, PactConflict, parse_interactions};
+use crate::interaction::{Interaction, merge_key, PactConflict, parse_interactions};
 use crate::iterator_utils::CartesianProductIterator;
 use crate::message_pact::MessagePact;
 use crate::pact::{determine_spec_version, metadata_schema, Pact, parse_meta_data, ReadWritePact, verify_metadata};
@@ -300,15 +299,9 @@ impl ReadWritePact for RequestResponsePact {
                     num_conflicts))
       } else {
         let interactions: Vec<Result<RequestResponseInteraction, String>> = self.interactions.iter()
-          .merge_join_by(pact.interactions().iter(), |a, b| {
-            let cmp = Ord::cmp(&a.description, &b.description());
-            if cmp == Ordering::Equal && ! &a.provider_states().is_empty(){
-              Ord::cmp(&a.provider_states.iter().map(|p| p.name.clone()).collect::<Vec<String>>(),
-                       &b.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>())
-            } else {
-              cmp
-            }
-          })
+          .sorted_by_key(|i| merge_key(*i))
+          .merge_join_by(pact.interactions().iter().sorted_by_key(|i| merge_key(i.as_ref())),
+            |a, b| Ord::cmp(&merge_key(*a), &merge_key(b.as_ref())))
           .map(|either| match either {
             Left(i) => Ok(i.clone()),
             Right(i) => i.as_request_response()
-- 
2.43.0


From 8a1990b602c9aa7734d82ff0509d672a1f22ef71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:43 +0000
Subject: [PATCH 32/64] fix: merging V4 pacts duplicated the interactions that
 both have when they were not in sorted order

---
 rust/pact_models/src/v4/pact.rs | 55 +++++++++++----------------------
 1 file changed, 18 insertions(+), 37 deletions(-)

diff --git a/rust/pact_models/src/v4/pact.rs b/rust/pact_models/src/v4/pact.rs
index 92548af..02585d4 100644
--- a/rust/pact_models/src/v4/pact.rs
+++ b/rust/pact_models/src/v4/pact.rs
@@ -1,13 +1,11 @@
 //! V4 specification Pact
 
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, HashMap, HashSet};
 use std::panic::RefUnwindSafe;
 use std::path::Path;
 use std::sync::{Arc, Mutex};
 
 use anyhow::{anyhow, Context};
-use itertools::EitherOrBoth::{Both, Left, Right};
 use itertools::Itertools;
 use maplit::btreemap;
 use serde_json::{json, Map, Value};
@@ -15,7 +13,7 @@ use tracing::{trace, warn};
 
 use crate::{Consumer, PactSpecification, Provider};
 #[cfg(not(target_family = "wasm"))] use crate::file_utils::with_read_lock;
-use crate::interaction::Interaction;
+use crate::interaction::{Interaction, merge_key};
 use crate::json_utils::json_to_string;
 use crate::message_pact::MessagePact;
 use crate::pact::{Pact, ReadWritePact};
@@ -357,43 +355,26 @@ impl ReadWritePact for V4Pact {
 
   fn merge(&self, other: &dyn Pact) -> anyhow::Result<Box<dyn Pact + Send + Sync + RefUnwindSafe>> {
     if self.consumer.name == other.consumer().name && self.provider.name == other.provider().name {
+      // The interactions of the other pact, without the ones that this pact already has
+      let mut other_interactions: Vec<_> = other.interactions().iter()
+        .map(|i| i.as_v4().unwrap())
+        .collect();
+      for a in &self.interactions {
+        let index = other_interactions.iter().position(|b| match (a.key(), b.key()) {
+          (Some(key_a), Some(key_b)) => key_a == key_b,
+          (_, _) => merge_key(a.to_super()) == merge_key(b.to_super()) && a.type_of() == b.type_of()
+        });
+        if let Some(index) = index {
+          other_interactions.remove(index);
+        }
+      }
+
       let mut new_pact = V4Pact {
         consumer: self.consumer.clone(),
         provider: self.provider.clone(),
-        interactions: self.interactions.iter()
-          .merge_join_by(other.interactions().iter().map(|i| i.as_v4().unwrap()), |a, b| {
-            match (a.key(), b.key()) {
-              (Some(key_a), Some(key_b)) => Ord::cmp(&key_a, &key_b),
-              (_, _) => {
-                let type_a = a.type_of();
-                let type_b = b.type_of();
-                let cmp = Ord::cmp(&a.description(), &b.description());
-                if cmp == Ordering::Equal && !a.provider_states().is_empty() {
-                  let cmp = Ord::cmp(&a.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>(),
-                  &b.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>());
-                  if cmp == Ordering::Equal {
-                       Ord::cmp(&type_a, &type_b)
-                  } else
-                  {
-                    cmp
-                  }
-                }
-                else if cmp == Ordering::Equal && a.provider_states().is_empty() {
-                  Ord::cmp(&type_a, &type_b)
-                } 
-                 else {
-                  cmp
-                }
-              }
-            }
-          })
-          .map(|either| {
-            match either {
-              Left(i) => i.clone(),
-              Right(i) => i.boxed_v4(),
-              Both(i, _) => i.clone()
-            }
-          })
+        interactions: self.interactions.iter().cloned()
+          .chain(other_interactions)
+          .sorted_by_key(|i| (merge_key(i.to_super()), i.type_of()))
           .collect(),
         metadata: self.metadata.clone(),
         plugin_data: self.plugin_data.clone()
-- 
2.43.0


From f0320ff16a65ec6ecaa096f88a98be851f10abec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:34 +0000
Subject: [PATCH 33/64] fix: resolve paths to JSON pointers with escaped parts
 and empty field names

---
 rust/pact_models/src/json_utils.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index bfc3f96..a94fa5e 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -249,8 +249,11 @@ pub fn resolve_path(value: &Value, expression: &DocPath) -> Vec<String> {
   query_object_graph(expression.tokens(), &mut tree, root, value.clone());
   let expanded_paths = root.descendants(&tree).fold(Vec::<String>::new(), |mut acc, node_id| {
     let node = tree.index(node_id);
-    if !node.get().is_empty() && node.first_child().is_none() {
-      let path: Vec<String> = node_id.ancestors(&tree).map(|n| format!("{}", tree.index(n).get())).collect();
+    if node_id != root && node.first_child().is_none() {
+      // `~` and `/` have to be escaped in a JSON pointer
+      let path: Vec<String> = node_id.ancestors(&tree)
+        .map(|n| tree.index(n).get().replace('~', "~0").replace('/', "~1"))
+        .collect();
       if path.len() == expression.len() {
         acc.push(path.iter().rev().join("/"));
       }
-- 
2.43.0


From c65382e314ed6164c2010429177f5f1253569edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:34 +0000
Subject: [PATCH 34/64] fix: form parameters named by a number or a wildcard
 are found by their path

---
 rust/pact_models/src/generators/form_urlencoded.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/generators/form_urlencoded.rs b/rust/pact_models/src/generators/form_urlencoded.rs
index 09ae0f2..d6270f4 100644
--- a/rust/pact_models/src/generators/form_urlencoded.rs
+++ b/rust/pact_models/src/generators/form_urlencoded.rs
@@ -48,7 +48,7 @@ impl ContentTypeHandler<String> for FormUrlEncodedHandler {
     let mut map: HashMap<String, usize> = HashMap::new();
     for (param_key, param_value) in self.params.iter_mut() {
       let index = map.entry(param_key.clone()).or_insert(0);
-      if key.eq(&DocPath::root().join(param_key.clone())) || key.eq(&DocPath::root().join(param_key.clone()).join_index(*index)) {
+      if key.eq(&DocPath::root().join_field(param_key.clone())) || key.eq(&DocPath::root().join_field(param_key.clone()).join_index(*index)) {
         return match generator.generate_value(&param_value, context, matcher) {
           Ok(new_value) => *param_value = new_value,
           Err(_) => ()
-- 
2.43.0


From 0f49229b55c70e162927fe72af8e619c3890e010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:01 +0000
Subject: [PATCH 35/64] fix: the digits of a random hexadecimal value are
 chosen independently

---
 rust/pact_models/src/generators/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 88c7bc8..206ece7 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -816,7 +816,12 @@ pub fn generate_decimal(digits: usize) -> String {
 const HEX_CHARSET: &str = "0123456789ABCDEF";
 pub fn generate_hexadecimal(digits: usize) -> String {
   let mut rnd = rand::thread_rng();
-  HEX_CHARSET.chars().choose_multiple(&mut rnd, digits).iter().join("")
+  let chars: Vec<char> = HEX_CHARSET.chars().collect();
+  let mut sample = String::new();
+  for _ in 0..digits {
+    sample.push(*chars.choose(&mut rnd).unwrap());
+  }
+  sample
 }
 
 impl GenerateValue<u16> for Generator {
-- 
2.43.0


From b54e38a1deaaad53c0fffdd8922ff04efc48f421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:21 +0000
Subject: [PATCH 36/64] fix: random integers with a range that is empty, or
 that ends at the largest integer, or is outside of a port number

---
 rust/pact_models/src/generators/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 206ece7..6cdd4d1 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -824,6 +824,15 @@ pub fn generate_hexadecimal(digits: usize) -> String {
   sample
 }
 
+/// Generates a random integer between the two values (both inclusive)
+fn generate_int(min: i32, max: i32) -> anyhow::Result<i32> {
+  if min > max {
+    Err(anyhow!("Could not generate a random integer, as the minimum {} is greater than the maximum {}", min, max))
+  } else {
+    Ok(rand::thread_rng().gen_range(min..=max))
+  }
+}
+
 impl GenerateValue<u16> for Generator {
   fn generate_value(
     &self,
@@ -832,7 +841,7 @@ impl GenerateValue<u16> for Generator {
     _matcher: &Box<dyn VariantMatcher + Send + Sync>
   ) -> anyhow::Result<u16> {
     match self {
-      &Generator::RandomInt(min, max) => Ok(rand::thread_rng().gen_range(min as u16..(max as u16).saturating_add(1))),
+      &Generator::RandomInt(min, max) => generate_int(min.max(0), max.min(u16::MAX as i32)).map(|val| val as u16),
       &Generator::ProviderStateGenerator(ref exp, ref dt) => {
         // Provider state values may come under a "providerState" key
         let provider_state_config = if let Some(Object(psc)) = context.get("providerState") {
@@ -887,7 +896,7 @@ impl GenerateValue<String> for Generator {
   ) -> anyhow::Result<String> {
     let mut rnd = rand::thread_rng();
     let result = match self {
-      Generator::RandomInt(min, max) => Ok(format!("{}", rnd.gen_range(*min..max.saturating_add(1)))),
+      Generator::RandomInt(min, max) => generate_int(*min, *max).map(|val| val.to_string()),
       Generator::Uuid(format) => match format.unwrap_or_default() {
         UuidFormat::Simple => Ok(Uuid::new_v4().as_simple().to_string()),
         UuidFormat::LowerCaseHyphenated => Ok(Uuid::new_v4().as_hyphenated().to_string()),
@@ -1054,7 +1063,7 @@ impl GenerateValue<Value> for Generator {
     debug!(context = ?context, "Generating value from {:?}", self);
     let result = match self {
       Generator::RandomInt(min, max) => {
-        let rand_int = rand::thread_rng().gen_range(*min..max.saturating_add(1));
+        let rand_int = generate_int(*min, *max)?;
         match value {
           Value::String(_) => Ok(json!(format!("{}", rand_int))),
           Value::Number(_) => Ok(json!(rand_int)),
-- 
2.43.0


From ce4aa5cac8a7a75fd10acedac00e05c218bd6a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:39 +0000
Subject: [PATCH 37/64] fix: anchors of the mock server URL pattern, and a
 pattern whose group does not match

---
 rust/pact_models/src/generators/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 6cdd4d1..d8e375c 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -867,23 +867,26 @@ pub fn generate_ascii_string(size: usize) -> String {
 }
 
 fn strip_anchors(regex: &str) -> &str {
-  regex
-    .strip_prefix('^').unwrap_or(regex)
-    .strip_suffix('$').unwrap_or(regex)
+  let regex = regex.strip_prefix('^').unwrap_or(regex);
+  match regex.strip_suffix('$') {
+    // An escaped dollar is not an anchor
+    Some(stripped) if (stripped.len() - stripped.trim_end_matches('\\').len()) % 2 == 0 => stripped,
+    _ => regex
+  }
 }
 
 #[cfg(not(target_family = "wasm"))]
 fn replace_with_regex(example: &String, url: String, re: Regex) -> String {
   re.replace(example, |caps: &Captures| {
-    format!("{}{}", url, caps.at(1).unwrap())
+    format!("{}{}", url, caps.at(1).unwrap_or_default())
   }).to_string()
 }
 
 #[cfg(target_family = "wasm")]
 fn replace_with_regex(example: &String, url: String, re: Regex) -> String {
   re.replace(example, |caps: &Captures| {
-    let m = caps.get(1).unwrap();
-    format!("{}{}", url, m.as_str())
+    let m = caps.get(1).map(|m| m.as_str()).unwrap_or_default();
+    format!("{}{}", url, m)
   }).to_string()
 }
 
-- 
2.43.0


From 20a347dbf47a0780e07201b7e05ec7d8e1853f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:56 +0000
Subject: [PATCH 38/64] fix: the mock server URL generator also uses the href
 of the mock server for JSON values

---
 rust/pact_models/src/generators/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index d8e375c..f148c68 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -1025,7 +1025,8 @@ impl GenerateValue<String> for Generator {
         debug!("Generating URL from Mock Server details");
         match mock_server_details.as_object() {
           Some(mock_server_details) => {
-            match get_field_as_string("url", mock_server_details) {
+            match get_field_as_string("url", mock_server_details)
+              .or_else(|| get_field_as_string("href", mock_server_details)) {
               Some(url) => match Regex::new(regex) {
                 Ok(re) => Ok(replace_with_regex(example, url, re)),
                 Err(err) => Err(anyhow!("MockServerURL: Failed to generate value: {}", err))
-- 
2.43.0


From a134de567648c17ee5f88c84de3f7c6ebfd8d5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:11 +0000
Subject: [PATCH 39/64] fix: the UUID format was ignored for values that are
 not strings

---
 rust/pact_models/src/generators/mod.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index f148c68..074b1e5 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -1074,14 +1074,11 @@ impl GenerateValue<Value> for Generator {
           _ => Ok(json!(rand_int))
         }
       },
-      Generator::Uuid(format) => match value {
-        Value::String(_) => match format.unwrap_or_default() {
-          UuidFormat::Simple => Ok(json!(Uuid::new_v4().as_simple().to_string())),
-          UuidFormat::LowerCaseHyphenated => Ok(json!(Uuid::new_v4().as_hyphenated().to_string())),
-          UuidFormat::UpperCaseHyphenated => Ok(json!(Uuid::new_v4().as_hyphenated().to_string().to_uppercase())),
-          UuidFormat::Urn => Ok(json!(Uuid::new_v4().as_urn().to_string()))
-        },
-        _ => Ok(json!(Uuid::new_v4().as_hyphenated().to_string()))
+      Generator::Uuid(format) => match format.unwrap_or_default() {
+        UuidFormat::Simple => Ok(json!(Uuid::new_v4().as_simple().to_string())),
+        UuidFormat::LowerCaseHyphenated => Ok(json!(Uuid::new_v4().as_hyphenated().to_string())),
+        UuidFormat::UpperCaseHyphenated => Ok(json!(Uuid::new_v4().as_hyphenated().to_string().to_uppercase())),
+        UuidFormat::Urn => Ok(json!(Uuid::new_v4().as_urn().to_string()))
       },
       Generator::RandomDecimal(digits) => match value {
         Value::String(_) => Ok(json!(generate_decimal(*digits as usize))),
-- 
2.43.0


From f3cc6af8c502dc6704744bf49942452fe4b15c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:27 +0000
Subject: [PATCH 40/64] fix: date and time formats that are not valid for the
 value are an error and not a panic

---
 rust/pact_models/src/generators/mod.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 074b1e5..8549ede 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -824,6 +824,15 @@ pub fn generate_hexadecimal(digits: usize) -> String {
   sample
 }
 
+/// Formats the date or time value, which fails if the format is not valid for the value
+#[cfg(feature = "datetime")]
+fn format_date_time<D: Display>(value: D, pattern: &str) -> anyhow::Result<String> {
+  let mut text = String::new();
+  write!(text, "{}", value)
+    .map(|_| text)
+    .map_err(|_| anyhow!("The value can not be formatted using '{}'", pattern))
+}
+
 /// Generates a random integer between the two values (both inclusive)
 fn generate_int(min: i32, max: i32) -> anyhow::Result<i32> {
   if min > max {
@@ -939,7 +948,7 @@ impl GenerateValue<String> for Generator {
             Some(pattern) => match parse_pattern(pattern) {
               Ok(tokens) => {
                 #[allow(deprecated)]
-                Ok(date.date().format(&to_chrono_pattern(&tokens)).to_string())
+                format_date_time(date.date().format(&to_chrono_pattern(&tokens)), pattern)
               },
               Err(err) => {
                 warn!("Date format {} is not valid - {}", pattern, err);
@@ -964,7 +973,7 @@ impl GenerateValue<String> for Generator {
           let time = execute_time_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => Ok(time.format(&to_chrono_pattern(&tokens)).to_string()),
+              Ok(tokens) => format_date_time(time.format(&to_chrono_pattern(&tokens)), pattern),
               Err(err) => {
                 warn!("Time format {} is not valid - {}", pattern, err);
                 Err(anyhow!("Time format {} is not valid - {}", pattern, err))
@@ -988,7 +997,7 @@ impl GenerateValue<String> for Generator {
           let date_time = execute_datetime_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => Ok(date_time.format(&to_chrono_pattern(&tokens)).to_string()),
+              Ok(tokens) => format_date_time(date_time.format(&to_chrono_pattern(&tokens)), pattern),
               Err(err) => {
                 warn!("DateTime format {} is not valid - {}", pattern, err);
                 Err(anyhow!("DateTime format {} is not valid - {}", pattern, err))
@@ -1120,7 +1129,7 @@ impl GenerateValue<Value> for Generator {
             Some(pattern) => match parse_pattern(pattern) {
               Ok(tokens) => {
                 #[allow(deprecated)]
-                Ok(json!(date.date().format(&to_chrono_pattern(&tokens)).to_string()))
+                format_date_time(date.date().format(&to_chrono_pattern(&tokens)), pattern).map(Value::String)
               },
               Err(err) => {
                 warn!("Date format {} is not valid - {}", pattern, err);
@@ -1145,7 +1154,7 @@ impl GenerateValue<Value> for Generator {
           let time = execute_time_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => Ok(json!(time.format(&to_chrono_pattern(&tokens)).to_string())),
+              Ok(tokens) => format_date_time(time.format(&to_chrono_pattern(&tokens)), pattern).map(Value::String),
               Err(err) => {
                 warn!("Time format {} is not valid - {}", pattern, err);
                 Err(anyhow!("Could not generate a random time from {} - {}", pattern, err))
@@ -1169,7 +1178,7 @@ impl GenerateValue<Value> for Generator {
           let date_time = execute_datetime_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => Ok(json!(date_time.format(&to_chrono_pattern(&tokens)).to_string())),
+              Ok(tokens) => format_date_time(date_time.format(&to_chrono_pattern(&tokens)), pattern).map(Value::String),
               Err(err) => {
                 warn!("DateTime format {} is not valid - {}", pattern, err);
                 Err(anyhow!("Could not generate a random date-time from {} - {}", pattern, err))
-- 
2.43.0


From 2073fc60dd0534c26cc0e6905df3304f52a5c01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:22 +0000
Subject: [PATCH 41/64] fix: text after a complete date or time expression was
 ignored when it was a single token

---
 rust/pact_models/src/generators/date_expression_parser.rs | 3 ++-
 rust/pact_models/src/generators/time_expression_parser.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/generators/date_expression_parser.rs b/rust/pact_models/src/generators/date_expression_parser.rs
index 044942c..65dcea2 100644
--- a/rust/pact_models/src/generators/date_expression_parser.rs
+++ b/rust/pact_models/src/generators/date_expression_parser.rs
@@ -211,8 +211,9 @@ pub(crate) fn expression<'a>(lex: &mut Lexer<DateExpressionToken>, exp: &str) ->
       return Err(error(exp, "one of now, today, yesterday, tomorrow, +, -, next or last", Some(lex.span().clone())));
     }
 
+    // The last token is empty when all the tokens have been consumed
     let remainder = lex.remainder().trim();
-    if !remainder.is_empty() {
+    if !remainder.is_empty() || !lex.slice().is_empty() {
       Err(error(exp, "no more tokens", Some(lex.span().clone())))
     } else {
       Ok(ParsedDateExpression {
diff --git a/rust/pact_models/src/generators/time_expression_parser.rs b/rust/pact_models/src/generators/time_expression_parser.rs
index c6d4ecd..6adc82f 100644
--- a/rust/pact_models/src/generators/time_expression_parser.rs
+++ b/rust/pact_models/src/generators/time_expression_parser.rs
@@ -149,8 +149,9 @@ pub(crate) fn expression(lex: &mut Lexer<TimeExpressionToken>, exp: &str) -> any
     }
 
     let span = lex.span();
+    // The last token is empty when all the tokens have been consumed
     let remainder = lex.remainder().trim();
-    if !remainder.is_empty() {
+    if !remainder.is_empty() || !lex.slice().is_empty() {
       Err(error(exp, "no more tokens", Some(span)))
     } else {
       Ok(ParsedTimeExpression {
-- 
2.43.0


From 9f67b569b708d4ed41f8d3f68afee2d32c950d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:37 +0000
Subject: [PATCH 42/64] fix: 12 o'clock pm and the next 12 o'clock are noon and
 were ignored

---
 rust/pact_models/src/generators/datetime_expressions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/generators/datetime_expressions.rs b/rust/pact_models/src/generators/datetime_expressions.rs
index d22c6aa..96e9925 100644
--- a/rust/pact_models/src/generators/datetime_expressions.rs
+++ b/rust/pact_models/src/generators/datetime_expressions.rs
@@ -184,9 +184,9 @@ pub fn execute_time_expression<Tz: TimeZone>(dt: &DateTime<Tz>, expression: &str
       TimeBase::Midnight => time.with_hour(0).unwrap_or(dt.clone()),
       TimeBase::Noon => time.with_hour(12).unwrap_or(dt.clone()),
       TimeBase::Am { hour } => time.with_hour(hour as u32).unwrap_or(dt.clone()),
-      TimeBase::Pm { hour } => time.with_hour((12 + hour) as u32).unwrap_or(dt.clone()),
+      TimeBase::Pm { hour } => time.with_hour((12 + hour % 12) as u32).unwrap_or(dt.clone()),
       TimeBase::Next { hour } => if dt.hour() < 12 {
-        time.with_hour((12 + hour) as u32).unwrap_or(dt.clone())
+        time.with_hour((12 + hour % 12) as u32).unwrap_or(dt.clone())
       } else {
         time.with_hour(hour as u32).unwrap_or(dt.clone())
       }
-- 
2.43.0


From 18a8e591daad77d42db815d1254eb1d74b31b56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:51 +0000
Subject: [PATCH 43/64] fix: amounts that overflow in date and time expressions
 are an error and not a wrong date or a panic

---
 .../src/generators/datetime_expressions.rs    | 57 ++++++++++---------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/rust/pact_models/src/generators/datetime_expressions.rs b/rust/pact_models/src/generators/datetime_expressions.rs
index 96e9925..db7f8be 100644
--- a/rust/pact_models/src/generators/datetime_expressions.rs
+++ b/rust/pact_models/src/generators/datetime_expressions.rs
@@ -194,28 +194,21 @@ pub fn execute_time_expression<Tz: TimeZone>(dt: &DateTime<Tz>, expression: &str
 
     let mut date_time = base_time.clone();
     for adjustment in &result.adjustments {
+      let value = i64::try_from(adjustment.value).map_err(|_| overflow(adjustment))?;
       date_time = match adjustment.operation {
         Operation::PLUS => match adjustment.adjustment_type {
-          TimeOffsetType::HOUR => date_time.add(Duration::try_hours(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MINUTE => date_time.add(Duration::try_minutes(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::SECOND => date_time.add(Duration::try_seconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MILLISECOND => date_time.add(Duration::try_milliseconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?)
+          TimeOffsetType::HOUR => plus(&date_time, Duration::try_hours(value)),
+          TimeOffsetType::MINUTE => plus(&date_time, Duration::try_minutes(value)),
+          TimeOffsetType::SECOND => plus(&date_time, Duration::try_seconds(value)),
+          TimeOffsetType::MILLISECOND => plus(&date_time, Duration::try_milliseconds(value))
         },
         Operation::MINUS => match adjustment.adjustment_type {
-          TimeOffsetType::HOUR => date_time.sub(Duration::try_hours(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MINUTE => date_time.sub(Duration::try_minutes(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::SECOND => date_time.sub(Duration::try_seconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MILLISECOND => date_time.sub(Duration::try_milliseconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?)
+          TimeOffsetType::HOUR => minus(&date_time, Duration::try_hours(value)),
+          TimeOffsetType::MINUTE => minus(&date_time, Duration::try_minutes(value)),
+          TimeOffsetType::SECOND => minus(&date_time, Duration::try_seconds(value)),
+          TimeOffsetType::MILLISECOND => minus(&date_time, Duration::try_milliseconds(value))
         }
-      }
+      }.ok_or_else(|| overflow(adjustment))?;
     }
 
     Ok(date_time)
@@ -246,12 +239,11 @@ pub fn execute_datetime_expression<Tz: TimeZone>(dt: &DateTime<Tz>, expression:
 }
 
 fn forward_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date: &DateTime<Tz>) -> anyhow::Result<DateTime<Tz>> {
+  let value = i64::try_from(adjustment.value).map_err(|_| overflow(adjustment))?;
   Ok(match adjustment.adjustment_type {
-    DateOffsetType::DAY => date.clone().add(Duration::try_days(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::WEEK => date.clone().add(Duration::try_weeks(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::MONTH => roll_month(date, adjustment.value as i64),
+    DateOffsetType::DAY => plus(date, Duration::try_days(value)).ok_or_else(|| overflow(adjustment))?,
+    DateOffsetType::WEEK => plus(date, Duration::try_weeks(value)).ok_or_else(|| overflow(adjustment))?,
+    DateOffsetType::MONTH => roll_month(date, value),
     DateOffsetType::YEAR => {
       let date = date.clone();
       let year = date.year();
@@ -349,13 +341,24 @@ fn roll_month<Tz: TimeZone>(date: &DateTime<Tz>, months: i64) -> DateTime<Tz> {
   }
 }
 
+fn plus<Tz: TimeZone>(date: &DateTime<Tz>, duration: Option<Duration>) -> Option<DateTime<Tz>> {
+  date.clone().checked_add_signed(duration?)
+}
+
+fn minus<Tz: TimeZone>(date: &DateTime<Tz>, duration: Option<Duration>) -> Option<DateTime<Tz>> {
+  date.clone().checked_sub_signed(duration?)
+}
+
+fn overflow<T>(adjustment: &Adjustment<T>) -> anyhow::Error {
+  anyhow!("Adjustment value {} overflows the bounds", adjustment.value)
+}
+
 fn reverse_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date: &DateTime<Tz>) -> anyhow::Result<DateTime<Tz>> {
+  let value = i64::try_from(adjustment.value).map_err(|_| overflow(adjustment))?;
   Ok(match adjustment.adjustment_type {
-    DateOffsetType::DAY => date.clone().sub(Duration::try_days(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::WEEK => date.clone().sub(Duration::try_weeks(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::MONTH => roll_month(date, -(adjustment.value as i64)),
+    DateOffsetType::DAY => minus(date, Duration::try_days(value)).ok_or_else(|| overflow(adjustment))?,
+    DateOffsetType::WEEK => minus(date, Duration::try_weeks(value)).ok_or_else(|| overflow(adjustment))?,
+    DateOffsetType::MONTH => roll_month(date, -value),
     DateOffsetType::YEAR => {
       let date = date.clone();
       let year = date.year();
-- 
2.43.0


From 55c624a042b91133300bcf6cf18a72b037f52f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:05 +0000
Subject: [PATCH 44/64] fix: adding months or years to a date ends in the right
 month for days that month does not have

---
 .../src/generators/datetime_expressions.rs    | 59 ++++++-------------
 1 file changed, 18 insertions(+), 41 deletions(-)

diff --git a/rust/pact_models/src/generators/datetime_expressions.rs b/rust/pact_models/src/generators/datetime_expressions.rs
index db7f8be..b6c275d 100644
--- a/rust/pact_models/src/generators/datetime_expressions.rs
+++ b/rust/pact_models/src/generators/datetime_expressions.rs
@@ -62,7 +62,7 @@ use std::str::from_utf8;
 use anyhow::anyhow;
 use ariadne::{Config, Label, Report, ReportKind, Source};
 use bytes::{BytesMut, BufMut};
-use chrono::Duration;
+use chrono::{Duration, Months};
 use chrono::prelude::*;
 use logos::{Logos, Span};
 
@@ -243,12 +243,8 @@ fn forward_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date:
   Ok(match adjustment.adjustment_type {
     DateOffsetType::DAY => plus(date, Duration::try_days(value)).ok_or_else(|| overflow(adjustment))?,
     DateOffsetType::WEEK => plus(date, Duration::try_weeks(value)).ok_or_else(|| overflow(adjustment))?,
-    DateOffsetType::MONTH => roll_month(date, value),
-    DateOffsetType::YEAR => {
-      let date = date.clone();
-      let year = date.year();
-      date.with_year(year + adjustment.value as i32).unwrap_or(date)
-    },
+    DateOffsetType::MONTH => move_months(date, Some(value)).ok_or_else(|| overflow(adjustment))?,
+    DateOffsetType::YEAR => move_months(date, value.checked_mul(12)).ok_or_else(|| overflow(adjustment))?,
     DateOffsetType::MONDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Mon),
     DateOffsetType::TUESDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Tue),
     DateOffsetType::WEDNESDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Wed),
@@ -309,38 +305,23 @@ fn adjust_date_down_to<Tz: TimeZone>(
   date
 }
 
-/// Rolls the month by the adjustment one day at a time
-fn roll_month<Tz: TimeZone>(date: &DateTime<Tz>, months: i64) -> DateTime<Tz> {
-  let mut date = date.clone();
-  let day = date.day();
-  let one_day_duration = Duration::try_days(1).unwrap(); // OK to unwrap, 1 will never overflow
-  let mut month_count = 0;
-
-  if months > 0 {
-    let mut month = date.month();
-    while month_count < months {
-      date = date.add(one_day_duration);
-      if date.month() != month {
-        month = date.month();
-        month_count += 1;
-      }
-    }
-    date.with_day(day).unwrap_or(date)
-  } else if months < 0 {
-    let mut month = date.month();
-    while month_count > months {
-      date = date.sub(one_day_duration);
-      if date.month() != month {
-        month = date.month();
-        month_count -= 1;
-      }
-    }
-    date.with_day(day).unwrap_or(date)
+/// Moves the date by a number of months. A day that the month does not have becomes its last day.
+fn move_months<Tz: TimeZone>(date: &DateTime<Tz>, months: Option<i64>) -> Option<DateTime<Tz>> {
+  let months = months?;
+  let count = Months::new(u32::try_from(months.unsigned_abs()).ok()?);
+  if months < 0 {
+    date.clone().checked_sub_months(count)
   } else {
-    date
+    date.clone().checked_add_months(count)
   }
 }
 
+/// Rolls the month by the adjustment
+#[cfg(test)]
+fn roll_month<Tz: TimeZone>(date: &DateTime<Tz>, months: i64) -> DateTime<Tz> {
+  move_months(date, Some(months)).unwrap()
+}
+
 fn plus<Tz: TimeZone>(date: &DateTime<Tz>, duration: Option<Duration>) -> Option<DateTime<Tz>> {
   date.clone().checked_add_signed(duration?)
 }
@@ -358,12 +339,8 @@ fn reverse_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date:
   Ok(match adjustment.adjustment_type {
     DateOffsetType::DAY => minus(date, Duration::try_days(value)).ok_or_else(|| overflow(adjustment))?,
     DateOffsetType::WEEK => minus(date, Duration::try_weeks(value)).ok_or_else(|| overflow(adjustment))?,
-    DateOffsetType::MONTH => roll_month(date, -value),
-    DateOffsetType::YEAR => {
-      let date = date.clone();
-      let year = date.year();
-      date.with_year(year - adjustment.value as i32).unwrap_or(date)
-    },
+    DateOffsetType::MONTH => move_months(date, Some(-value)).ok_or_else(|| overflow(adjustment))?,
+    DateOffsetType::YEAR => move_months(date, value.checked_mul(-12)).ok_or_else(|| overflow(adjustment))?,
     DateOffsetType::MONDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Mon),
     DateOffsetType::TUESDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Tue),
     DateOffsetType::WEDNESDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Wed),
-- 
2.43.0


From 21708cb3c2d37c01405f8e8096af0567d409c3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:19 +0000
Subject: [PATCH 45/64] fix: text that is no token after a complete matching
 rule definition was accepted

---
 rust/pact_models/src/matchingrules/expressions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index f6de6eb..9d80681 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -353,8 +353,8 @@ pub fn is_matcher_def(v: &str) -> bool {
 //     ;
 fn matching_definition(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<MatchingRuleDefinition> {
   let mut value = matching_definition_exp(lex, v)?;
-  while let Some(Ok(next)) = lex.next() {
-    if next == MatcherDefinitionToken::Comma {
+  while let Some(next) = lex.next() {
+    if let Ok(MatcherDefinitionToken::Comma) = next {
       value = value.merge(&matching_definition_exp(lex, v)?);
     } else {
       return Err(anyhow!("expected comma, got '{}'", lex.slice()));
-- 
2.43.0


From 4e11613475b3c2710cace6b08cfcccdd1d13e39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:34 +0000
Subject: [PATCH 46/64] fix: any token was taken for the digits after the point
 of a number in a matching rule definition

---
 .../src/matchingrules/expressions.rs          | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index 9d80681..e3032b4 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -803,9 +803,7 @@ fn parse_primitive_value(
       // Logos is returning an INT token when a Decimal should match. We need to now parse the
       // remaining pattern if it is a decimal
       if lex.remainder().starts_with('.') {
-        let int_part = lex.slice();
-        let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
-        Ok((format!("{}{}", int_part, lex.slice()), ValueType::Decimal, None))
+        Ok((decimal_value(lex, v)?, ValueType::Decimal, None))
       } else {
         Ok((lex.slice().to_string(), ValueType::Integer, None))
       }
@@ -814,9 +812,7 @@ fn parse_primitive_value(
       // Logos is returning an NUM token when a Decimal should match. We need to now parse the
       // remaining pattern if it is a decimal
       if lex.remainder().starts_with('.') {
-        let int_part = lex.slice();
-        let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
-        Ok((format!("{}{}", int_part, lex.slice()), ValueType::Decimal, None))
+        Ok((decimal_value(lex, v)?, ValueType::Decimal, None))
       } else {
         Ok((lex.slice().to_string(), ValueType::Integer, None))
       }
@@ -830,6 +826,17 @@ fn parse_primitive_value(
   }
 }
 
+// The value of a decimal number where only the part in front of the point has been read
+fn decimal_value(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<String> {
+  let int_part = lex.slice();
+  let next = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
+  if let Ok(MatcherDefinitionToken::DecimalPart) = next {
+    Ok(format!("{}{}", int_part, lex.slice()))
+  } else {
+    Err(anyhow!(error_message(lex, v, "Expected a number", "Expected the digits of a decimal number here")?))
+  }
+}
+
 // COMMA val=( DECIMAL_LITERAL | INTEGER_LITERAL | 'fromProviderState' fromProviderState)
 #[allow(clippy::if_same_then_else)]
 fn parse_number(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<(String, ValueType, Option<MatchingRule>, Option<Generator>, Option<MatchingReference>)> {
@@ -841,9 +848,7 @@ fn parse_number(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Res
     // Logos is returning an INT token when a Decimal should match. We need to now parse the
     // remaining pattern if it is a decimal
     if lex.remainder().starts_with('.') {
-      let int_part = lex.slice();
-      let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
-      Ok((format!("{}{}", int_part, lex.slice()), ValueType::Number, Some(MatchingRule::Number), None, None))
+      Ok((decimal_value(lex, v)?, ValueType::Number, Some(MatchingRule::Number), None, None))
     } else {
       Ok((lex.slice().to_string(), ValueType::Number, Some(MatchingRule::Number), None, None))
     }
@@ -886,9 +891,7 @@ fn parse_decimal(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Re
     // Logos is returning an INT token when a Decimal should match. We need to now parse the
     // remaining pattern if it is a decimal
     if lex.remainder().starts_with('.') {
-      let int_part = lex.slice();
-      let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
-      Ok((format!("{}{}", int_part, lex.slice()), ValueType::Decimal, Some(MatchingRule::Decimal), None, None))
+      Ok((decimal_value(lex, v)?, ValueType::Decimal, Some(MatchingRule::Decimal), None, None))
     } else {
       Ok((lex.slice().to_string(), ValueType::Decimal, Some(MatchingRule::Decimal), None, None))
     }
-- 
2.43.0


From cc66eb547c4606ce396be97335ba6ecdafdb9fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:48 +0000
Subject: [PATCH 47/64] fix: decimal matcher with a value from the provider
 state was a number matcher

---
 rust/pact_models/src/matchingrules/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index e3032b4..18054fd 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -900,7 +900,7 @@ fn parse_decimal(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Re
   } else if let Ok(MatcherDefinitionToken::Id) = next {
     if lex.slice() == "fromProviderState" {
       let (value, value_type, generator) = from_provider_state(lex, v)?;
-      Ok((value, value_type, Some(MatchingRule::Number), generator, None))
+      Ok((value, value_type, Some(MatchingRule::Decimal), generator, None))
     } else {
       Err(anyhow!(error_message(lex, v, "Expected a decimal number", "Expected a decimal number here")?))
     }
-- 
2.43.0


From ccb4025e9526bca59135480831729fd13a601086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:01 +0000
Subject: [PATCH 48/64] fix: the escapes in the strings of type, equalTo and
 notEmpty definitions, and quotes at the ends of strings

---
 rust/pact_models/src/matchingrules/expressions.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index 18054fd..ca47d98 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -797,7 +797,7 @@ fn parse_primitive_value(
 ) -> anyhow::Result<(String, ValueType, Option<Generator>)> {
   let next = lex.next().ok_or_else(|| end_of_expression(v, "expected a primitive value"))?;
   match next {
-    Ok(MatcherDefinitionToken::String) => Ok((lex.slice().trim_matches('\'').to_string(), ValueType::String, None)),
+    Ok(MatcherDefinitionToken::String) => Ok((string_value(lex, v)?, ValueType::String, None)),
     Ok(MatcherDefinitionToken::Null) => Ok((String::new(), ValueType::String, None)),
     Ok(MatcherDefinitionToken::Int(_)) => {
       // Logos is returning an INT token when a Decimal should match. We need to now parse the
@@ -923,9 +923,7 @@ fn parse_boolean(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Re
 fn parse_string(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<String> {
   let next = lex.next().ok_or_else(|| end_of_expression(v, "a string"))?;
   if let Ok(MatcherDefinitionToken::String) = next {
-    let span = lex.span();
-    let raw_str = lex.slice().trim_matches('\'');
-    process_raw_string(raw_str, span, v)
+    string_value(lex, v)
   } else {
     let mut buffer = BytesMut::new().writer();
     let span = lex.span();
@@ -941,6 +939,12 @@ fn parse_string(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Res
   }
 }
 
+// The contents of the string that was just read, without the quotes around it
+fn string_value(lex: &Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<String> {
+  let slice = lex.slice();
+  process_raw_string(&slice[1..slice.len() - 1], lex.span(), v)
+}
+
 fn process_raw_string(raw_str: &str, span: Span, v: &str) -> anyhow::Result<String> {
   let mut buffer = String::with_capacity(raw_str.len());
   let mut chars = raw_str.chars();
-- 
2.43.0


From b5f1416978aaba09c84e15e8774500ee4f6b28ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:19 +0000
Subject: [PATCH 49/64] fix: any word that starts with fromProviderState was
 accepted in date and time matchers

---
 .../src/matchingrules/expressions.rs          | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index ca47d98..2f95ea5 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -253,7 +253,7 @@ impl MatchingRuleDefinition {
   }
 }
 
-#[derive(Logos, Debug, PartialEq)]
+#[derive(Logos, Debug, Clone, PartialEq)]
 #[logos(skip r"[ \t\n\f]+")]
 enum MatcherDefinitionToken {
   #[token("matching")]
@@ -711,14 +711,23 @@ fn parse_type(
   Ok((value, value_type, Some(MatchingRule::Type), generator, None))
 }
 
+// If the next token is the fromProviderState identifier
+fn next_is_provider_state(lex: &Lexer<MatcherDefinitionToken>) -> bool {
+  let mut lex = lex.clone();
+  if let Some(Ok(MatcherDefinitionToken::Id)) = lex.next() {
+    lex.slice() == "fromProviderState"
+  } else {
+    false
+  }
+}
+
 // COMMA format=string COMMA s=(string | 'fromProviderState' fromProviderState)
 fn parse_datetime(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<(String, ValueType, Option<MatchingRule>, Option<Generator>, Option<MatchingReference>)> {
   parse_comma(lex, v)?;
   let format = parse_string(lex, v)?;
   parse_comma(lex, v)?;
 
-  let remainder = lex.remainder().trim_start();
-  let (value, value_type, generator) = if remainder.starts_with("fromProviderState") {
+  let (value, value_type, generator) = if next_is_provider_state(lex) {
     lex.next();
     from_provider_state(lex, v)?
   } else {
@@ -734,8 +743,7 @@ fn parse_date(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Resul
   let format = parse_string(lex, v)?;
   parse_comma(lex, v)?;
 
-  let remainder = lex.remainder().trim_start();
-  let (value, value_type, generator) = if remainder.starts_with("fromProviderState") {
+  let (value, value_type, generator) = if next_is_provider_state(lex) {
     lex.next();
     from_provider_state(lex, v)?
   } else {
@@ -751,8 +759,7 @@ fn parse_time(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Resul
   let format = parse_string(lex, v)?;
   parse_comma(lex, v)?;
 
-  let remainder = lex.remainder().trim_start();
-  let (value, value_type, generator) = if remainder.starts_with("fromProviderState") {
+  let (value, value_type, generator) = if next_is_provider_state(lex) {
     lex.next();
     from_provider_state(lex, v)?
   } else {
-- 
2.43.0


From 8d1c11fb0d32338887462a637feba2d2632c7b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:33 +0000
Subject: [PATCH 50/64] fix: atLeast and atMost were not recognised as matching
 rule definitions

---
 rust/pact_models/src/matchingrules/expressions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index 2f95ea5..74111b6 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -337,7 +337,8 @@ pub fn is_matcher_def(v: &str) -> bool {
     let next = lex.next();
     if let Some(Ok(token)) = next {
       if token == MatcherDefinitionToken::Matching || token == MatcherDefinitionToken::NotEmpty ||
-        token == MatcherDefinitionToken::EachKey || token == MatcherDefinitionToken::EachValue {
+        token == MatcherDefinitionToken::EachKey || token == MatcherDefinitionToken::EachValue ||
+        token == MatcherDefinitionToken::AtLeast || token == MatcherDefinitionToken::AtMost {
         true
       } else {
         false
-- 
2.43.0


From 0f97173e0f60efd25f27c4b3e94a214b5d8ef4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:47 +0000
Subject: [PATCH 51/64] fix: strings that end with an escaped backslash in a
 matching rule definition

---
 rust/pact_models/src/matchingrules/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index 74111b6..250b46e 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -283,7 +283,7 @@ enum MatcherDefinitionToken {
   #[token(",")]
   Comma,
 
-  #[regex(r"'(?:[^']|\\')*'")]
+  #[regex(r"'(?:[^'\\]|\\(?:.|\n))*'")]
   String,
 
   #[regex("[a-zA-Z]+")]
-- 
2.43.0


From a10afde1229dbe7c7de9d3ae4e5629dad638fc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:15 +0000
Subject: [PATCH 52/64] fix: quote content type attribute values that are not
 tokens

---
 rust/pact_models/src/content_types.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/content_types.rs b/rust/pact_models/src/content_types.rs
index 38442d3..c3b00fe 100644
--- a/rust/pact_models/src/content_types.rs
+++ b/rust/pact_models/src/content_types.rs
@@ -188,7 +188,11 @@ impl Display for ContentType {
       write!(f, "{}", base)
     } else {
       write!(f, "{};{}", base, self.attributes.iter()
-        .map(|(key, value)| format!("{}={}", key, value)).join(";"))
+        .map(|(key, value)| if is_token(value) {
+          format!("{}={}", key, value)
+        } else {
+          format!("{}=\"{}\"", key, value)
+        }).join(";"))
     }
   }
 }
@@ -261,6 +265,12 @@ impl PartialEq<&str> for ContentType {
   }
 }
 
+/// If the attribute value can be written without quotes
+fn is_token(value: &str) -> bool {
+  value.chars().all(|ch| ch.is_ascii_alphanumeric() || matches!(ch, '!' | '#' | '$' | '%' | '&' | '\'' | '*' |
+    '+' | '-' | '.' | '^' | '_' | '`' | '|' | '~'))
+}
+
 fn is_match(regex: &Regex, string: &str) -> bool {
   if let Some(m) = regex.find(string) {
     m.start() == 0
-- 
2.43.0


From 9cc4cbc0a87a2bb3a26db568d79e913f2fe69f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:29 +0000
Subject: [PATCH 53/64] fix: content types with different suffixes are not
 equivalent

---
 rust/pact_models/src/content_types.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/content_types.rs b/rust/pact_models/src/content_types.rs
index c3b00fe..088d836 100644
--- a/rust/pact_models/src/content_types.rs
+++ b/rust/pact_models/src/content_types.rs
@@ -148,7 +148,8 @@ impl ContentType {
       self.attributes.is_empty() || self.attributes == other.attributes
     }
     else if self.attributes.is_empty() {
-      self.main_type == other.main_type && self.sub_type == other.sub_type
+      self.main_type == other.main_type && self.sub_type == other.sub_type &&
+        self.suffix == other.suffix
     } else {
       self == other
     }
-- 
2.43.0


From b64c13b894822a39146fdc9ba6b6060fa3fa3d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:42 +0000
Subject: [PATCH 54/64] fix: allow white space before <html> when detecting
 HTML contents

---
 rust/pact_models/src/content_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/content_types.rs b/rust/pact_models/src/content_types.rs
index 088d836..50a6773 100644
--- a/rust/pact_models/src/content_types.rs
+++ b/rust/pact_models/src/content_types.rs
@@ -63,7 +63,7 @@ lazy_static! {
   };
 
   static ref XMLREGEXP: Regex = Regex::new(r"^\s*<\?xml\s*version.*").unwrap();
-  static ref HTMLREGEXP: Regex = Regex::new(r"^\s*(<!DOCTYPE)|(<HTML>).*").unwrap();
+  static ref HTMLREGEXP: Regex = Regex::new(r"^\s*(<!DOCTYPE|<HTML>).*").unwrap();
   static ref JSONREGEXP: Regex = Regex::new(r#"^\s*(true|false|null|[0-9]+|"\w*|\{\s*(}|"\w+)|\[\s*)"#).unwrap();
   static ref XMLREGEXP2: Regex = Regex::new(r#"^\s*<\w+\s*(:\w+=["”][^"”]+["”])?.*"#).unwrap();
 }
-- 
2.43.0


From 48e7f554ee96f6b5481d679173ffbb3c8503f649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:56 +0000
Subject: [PATCH 55/64] fix: detect the content type of bytes with a character
 across the end of the header

---
 rust/pact_models/src/content_types.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/content_types.rs b/rust/pact_models/src/content_types.rs
index 50a6773..4299e13 100644
--- a/rust/pact_models/src/content_types.rs
+++ b/rust/pact_models/src/content_types.rs
@@ -304,7 +304,12 @@ pub fn detect_content_type_from_bytes(s: &[u8]) -> Option<ContentType> {
   } else {
     s
   };
-  match from_utf8(header) {
+  let text = match from_utf8(header) {
+    // the end of the header can be in the middle of a character
+    Err(err) if s.len() > header.len() && err.error_len().is_none() => from_utf8(&header[..err.valid_up_to()]),
+    result => result
+  };
+  match text {
     Ok(s) => {
       if is_match(&XMLREGEXP, s) {
         Some(XML.clone())
-- 
2.43.0


From 3a03c8012bff096c5ce598f2ececa02ed51d3d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:08 +0000
Subject: [PATCH 56/64] fix: use the content type of message metadata whether
 it is a string or a list

---
 rust/pact_models/src/message.rs          | 2 +-
 rust/pact_models/src/v4/async_message.rs | 2 +-
 rust/pact_models/src/v4/message_parts.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/message.rs b/rust/pact_models/src/message.rs
index abfffef..8c3a8ad 100644
--- a/rust/pact_models/src/message.rs
+++ b/rust/pact_models/src/message.rs
@@ -350,7 +350,7 @@ impl HttpPart for Message {
     self.metadata.iter().find(|(k, _)| {
       let key = k.to_ascii_lowercase();
       key == "contenttype" || key == "content-type"
-    }).map(|(_, v)| json_to_string(&v[0]))
+    }).map(|(_, v)| json_to_string(v.get(0).unwrap_or(v)))
   }
 
   fn add_header(&mut self, key: &str, val: Vec<&str>) {
diff --git a/rust/pact_models/src/v4/async_message.rs b/rust/pact_models/src/v4/async_message.rs
index 5b53cd4..dcabfb5 100644
--- a/rust/pact_models/src/v4/async_message.rs
+++ b/rust/pact_models/src/v4/async_message.rs
@@ -505,7 +505,7 @@ impl HttpPart for AsynchronousMessage {
     self.contents.metadata.iter().find(|(k, _)| {
       let key = k.to_ascii_lowercase();
       key == "contenttype" || key == "content-type"
-    }).map(|(_, v)| json_to_string(v))
+    }).map(|(_, v)| json_to_string(v.get(0).unwrap_or(v)))
   }
 }
 
diff --git a/rust/pact_models/src/v4/message_parts.rs b/rust/pact_models/src/v4/message_parts.rs
index 8e9ef9b..75cc3d7 100644
--- a/rust/pact_models/src/v4/message_parts.rs
+++ b/rust/pact_models/src/v4/message_parts.rs
@@ -170,7 +170,7 @@ impl HttpPart for MessageContents {
     self.metadata.iter().find(|(k, _)| {
       let key = k.to_ascii_lowercase();
       key == "contenttype" || key == "content-type"
-    }).map(|(_, v)| json_to_string(&v[0]))
+    }).map(|(_, v)| json_to_string(v.get(0).unwrap_or(v)))
   }
 }
 
-- 
2.43.0


From f2a3e0539269c8158ae2aff1427140ef1fce0eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:22 +0000
Subject: [PATCH 57/64] fix: display every byte of a body as two hexadecimal
 digits

---
 rust/pact_models/src/bodies.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/bodies.rs b/rust/pact_models/src/bodies.rs
index 60e0628..d831e5a 100644
--- a/rust/pact_models/src/bodies.rs
+++ b/rust/pact_models/src/bodies.rs
@@ -189,13 +189,13 @@ impl OptionalBody {
   pub(crate) fn display_bytes(&self, max_bytes: usize) -> String {
     if let OptionalBody::Present(bytes, _, _) = self {
       if bytes.len() <= max_bytes {
-        let b_str: String = bytes.iter().map(|b| format!("{:0X}", b)).collect();
+        let b_str: String = bytes.iter().map(|b| format!("{:02X}", b)).collect();
         format!("{} ({} bytes)", b_str, bytes.len())
       } else {
         let b_str: String = bytes
           .slice(0..max_bytes)
           .iter()
-          .map(|b| format!("{:0X}", b))
+          .map(|b| format!("{:02X}", b))
           .collect();
         format!("{}... ({} bytes)", b_str, bytes.len())
       }
-- 
2.43.0


From 225d38199532a69cbac56679295d2aa0484c0140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:03 +0000
Subject: [PATCH 58/64] fix: a year of more than four digits does not panic
 when its day is checked

---
 rust/pact_models/src/time_utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index e5578e9..1edd7da 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -846,10 +846,11 @@ fn validate_matched_values(matched_values: &Vec<(DateTimePatternToken, String)>)
     // should be safe to unwrap here, as the value should have already been validated
     let day = day.parse::<u8>().unwrap();
     if let Some((_, year)) = year {
-      let year = year.parse::<i16>().unwrap();
       if let Some((_, month_str)) = month {
+        // leap years repeat every 400 years, the year itself can be any number of digits
+        let leap_cycle = year.chars().fold(0, |acc, ch| (acc * 10 + ch.to_digit(10).unwrap_or_default() as i16) % 400);
         // should be safe to unwrap here, as the value should have already been validated
-        let month = month_value(month_str).unwrap().with_year(year);
+        let month = month_value(month_str).unwrap().with_year(leap_cycle);
         if day > month.total_days() {
           Err(format!("'{}' is not a valid day for month '{}' in year {}", day, month_str, year))
         } else {
-- 
2.43.0


From 26a81916977ea630cc58bdee652be463e068b95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:15 +0000
Subject: [PATCH 59/64] fix: any number of fraction digits can be checked
 without overflow

---
 rust/pact_models/src/time_utils.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 1edd7da..1cb2b35 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -574,12 +574,9 @@ fn second(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
 }
 
 fn second_fraction(s: &str, count: usize) -> IResult<&str, String, DateTimeError<&str>> {
-  take_while_m_n(1, count, is_digit)(s).and_then(|(remaining, result)|{
-    match validate_number(result, "fraction of a second".into(), 0, usize::pow(10, count as u32) - 1) {
-      Ok(_) => Ok((remaining, result.into())),
-      Err(_err) => Err(Error(DateTimeError::InvalidSecondFraction(result.to_string())))
-    }
-  })
+  // any digits are a valid fraction
+  take_while_m_n(1, count, is_digit)(s)
+    .map(|(remaining, result)| (remaining, result.into()))
 }
 
 fn timezone_hour_min(s: &str) -> IResult<&str, &str, DateTimeError<&str>> {
-- 
2.43.0


From 8ea9c2d8ca70f2e021e1019a00e208aec74bfc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:27 +0000
Subject: [PATCH 60/64] fix: the day is checked against the month for the
 pattern letter L

---
 rust/pact_models/src/time_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 1cb2b35..03ab177 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -831,7 +831,7 @@ fn validate_matched_values(matched_values: &Vec<(DateTimePatternToken, String)>)
     });
   let month = matched_values.iter()
     .find(|(token, _)| match token {
-      DateTimePatternToken::Month(_) => true,
+      DateTimePatternToken::Month(_) | DateTimePatternToken::MonthNum(_) => true,
       _ => false
     });
   let year = matched_values.iter()
-- 
2.43.0


From aba19267b13e83a9f6bd6beab74ecd79ceb737fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:43 +0000
Subject: [PATCH 61/64] fix: several quotes in a row in quoted pattern text are
 kept

---
 rust/pact_models/src/time_utils.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 03ab177..5cbc54b 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -40,7 +40,6 @@ use std::fmt::{Display, Formatter};
 use anyhow::anyhow;
 use chrono::Local;
 use gregorian::Month;
-use itertools::Itertools;
 use nom::branch::alt;
 use nom::bytes::complete::{is_a, is_not, tag, tag_no_case, take_while_m_n};
 use nom::character::complete::{alphanumeric1, char, digit1};
@@ -294,9 +293,7 @@ fn quarter_pattern(s: &str) -> IResult<&str, DateTimePatternToken, DateTimePatte
 fn quoted_text_pattern(s: &str) -> IResult<&str, DateTimePatternToken, DateTimePatternError<&str>> {
   delimited(char('\''), many1(alt((tag("''"), is_not("'")))), char('\''))(s)
     .map(|(remaining, result)| {
-      (remaining, DateTimePatternToken::Text(result.join("").chars().coalesce(|x, y| {
-        if x == '\'' && y == '\'' { Ok('\'') } else { Err((x, y)) }
-      }).collect()))
+      (remaining, DateTimePatternToken::Text(result.iter().map(|s| if *s == "''" { "'" } else { s }).collect()))
     })
 }
 
-- 
2.43.0


From 6ee4d70be0e85e775e361b9b505ccdca8f1709cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:58 +0000
Subject: [PATCH 62/64] fix: time zone IDs with underscores, more than one or
 no slash are accepted

---
 rust/pact_models/src/time_utils.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 5cbc54b..a4754d1 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -41,14 +41,14 @@ use anyhow::anyhow;
 use chrono::Local;
 use gregorian::Month;
 use nom::branch::alt;
-use nom::bytes::complete::{is_a, is_not, tag, tag_no_case, take_while_m_n};
-use nom::character::complete::{alphanumeric1, char, digit1};
+use nom::bytes::complete::{is_a, is_not, tag, tag_no_case, take_while1, take_while_m_n};
+use nom::character::complete::{char, digit1};
 use nom::combinator::{opt, value};
 use nom::Err::{Error, Failure};
 use nom::error::{ErrorKind, ParseError};
 use nom::IResult;
 use nom::multi::many1;
-use nom::sequence::{delimited, preceded, separated_pair, terminated, tuple};
+use nom::sequence::{delimited, preceded, terminated, tuple};
 use tracing::{debug, error, trace, warn};
 
 use crate::timezone_db::*;
@@ -161,6 +161,10 @@ fn is_uppercase(ch: char) -> bool {
   ch.is_ascii_uppercase()
 }
 
+fn is_timezone_id(ch: char) -> bool {
+  ch.is_ascii_alphanumeric() || "/_+-".contains(ch)
+}
+
 fn validate_number(m: &str, num_type: String, lower: usize, upper: usize) -> Result<&str, String> {
   match m.parse::<usize>() {
     Ok(v) => if v >= lower && v <= upper {
@@ -634,12 +638,11 @@ fn timezone(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
 }
 
 fn timezone_id(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
-  separated_pair(alphanumeric1, char('/'), alphanumeric1)(s).and_then(|(remaining, result)| {
-    let tz = format!("{}/{}", result.0, result.1);
-    if ZONES.contains(tz.as_str()) {
-      Ok((remaining, tz))
-    } else {
-      Err(Error(DateTimeError::InvalidTimezone(tz)))
+  take_while1(is_timezone_id)(s).and_then(|(_, result)| {
+    // take the longest ID, it may be followed by an offset
+    match (1..=result.len()).rev().find(|len| ZONES.contains(&result[..*len])) {
+      Some(len) => Ok((&s[len..], result[..len].to_string())),
+      None => Err(Error(DateTimeError::InvalidTimezone(result.to_string())))
     }
   })
 }
-- 
2.43.0


From 21f15fa794dde5c40267d5c56693d6b510444b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:12 +0000
Subject: [PATCH 63/64] fix: time zone offsets have one sign and up to 18 hours

---
 rust/pact_models/src/time_utils.rs | 35 ++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index a4754d1..464e452 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -165,6 +165,10 @@ fn is_timezone_id(ch: char) -> bool {
   ch.is_ascii_alphanumeric() || "/_+-".contains(ch)
 }
 
+fn is_sign(ch: char) -> bool {
+  ch == '+' || ch == '-'
+}
+
 fn validate_number(m: &str, num_type: String, lower: usize, upper: usize) -> Result<&str, String> {
   match m.parse::<usize>() {
     Ok(v) => if v >= lower && v <= upper {
@@ -580,8 +584,21 @@ fn second_fraction(s: &str, count: usize) -> IResult<&str, String, DateTimeError
     .map(|(remaining, result)| (remaining, result.into()))
 }
 
+fn offset_sign(s: &str) -> IResult<&str, &str, DateTimeError<&str>> {
+  take_while_m_n(1, 1, is_sign)(s)
+}
+
+fn offset_hour(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
+  take_while_m_n(1, 2, is_digit)(s).and_then(|(remaining, result)|{
+    match validate_number(result, "offset hour".into(), 0, 18) {
+      Ok(_) => Ok((remaining, result.into())),
+      Err(_err) => Err(Error(DateTimeError::InvalidHour(result.to_string())))
+    }
+  })
+}
+
 fn timezone_hour_min(s: &str) -> IResult<&str, &str, DateTimeError<&str>> {
-  tuple((is_a("+-"), hour_12_0, tag(":"), minute))(s)
+  tuple((offset_sign, offset_hour, tag(":"), minute))(s)
     .map(|(remaining, _result)| {
       (remaining, "")
     })
@@ -589,23 +606,23 @@ fn timezone_hour_min(s: &str) -> IResult<&str, &str, DateTimeError<&str>> {
 
 fn timezone_long_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
   match d {
-    1 => preceded(is_a("+-"), tuple((hour_12_0, opt(minute))))(s)
+    1 => preceded(offset_sign, tuple((offset_hour, opt(minute))))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1.unwrap_or_else(|| "".to_string()))
         }),
-    2 => preceded(is_a("+-"), tuple((hour_12_0, minute)))(s)
+    2 => preceded(offset_sign, tuple((offset_hour, minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1)
         }),
-    3 => preceded(is_a("+-"), tuple((hour_12_0, tag(":"), minute)))(s)
+    3 => preceded(offset_sign, tuple((offset_hour, tag(":"), minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + result.1 + &result.2)
         }),
-    4 => preceded(is_a("+-"), tuple((hour_12_0, minute, opt(second))))(s)
+    4 => preceded(offset_sign, tuple((offset_hour, minute, opt(second))))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1 + &result.2.unwrap_or_else(|| "".to_string()))
         }),
-    _ => preceded(is_a("+-"), tuple((hour_12_0, tag(":"), minute, opt(tuple((tag(":"), second))))))(s)
+    _ => preceded(offset_sign, tuple((offset_hour, tag(":"), minute, opt(tuple((tag(":"), second))))))(s)
         .map(|(remaining, result)| {
           let seconds = match &result.3 {
             Some((c, s)) => c.to_string() + s,
@@ -649,7 +666,7 @@ fn timezone_id(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
 
 fn timezone_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
   match d {
-    1..=3 => preceded(is_a("+-"), tuple((hour_12_0, minute)))(s)
+    1..=3 => preceded(offset_sign, tuple((offset_hour, minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1)
         }),
@@ -670,7 +687,7 @@ fn timezone_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&st
 
 fn timezone_offset_gmt(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
   match d {
-    1..=3 => preceded(alt((tag("GMT"), tag("UTC"))), tuple((is_a("+-"), hour_12_0, opt(preceded(tag(":"), minute)))))(s)
+    1..=3 => preceded(alt((tag("GMT"), tag("UTC"))), tuple((offset_sign, offset_hour, opt(preceded(tag(":"), minute)))))(s)
         .map(|(remaining, result)| {
           let minute = match result.2 {
             Some(result) => result,
@@ -678,7 +695,7 @@ fn timezone_offset_gmt(s: &str, d: usize) -> IResult<&str, String, DateTimeError
           };
           (remaining, result.1 + &minute)
         }),
-    _ => preceded(alt((tag("GMT"), tag("UTC"))), tuple((is_a("+-"), hour_12_0, tag(":"), minute)))(s)
+    _ => preceded(alt((tag("GMT"), tag("UTC"))), tuple((offset_sign, offset_hour, tag(":"), minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.1 + result.2 + &result.3)
         })
-- 
2.43.0


From b637f24a9be0e36933b49106a531a8eca342e059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:26 +0000
Subject: [PATCH 64/64] fix: a pattern chrono can not print is an error and not
 a panic

---
 rust/pact_models/src/time_utils.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 464e452..b20a4e0 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -35,7 +35,7 @@
 //!   |'     | escape for text           | delimiter    | |
 //!   |''    | single quote              | literal      |  ' |
 
-use std::fmt::{Display, Formatter};
+use std::fmt::{Display, Formatter, Write};
 
 use anyhow::anyhow;
 use chrono::Local;
@@ -951,7 +951,11 @@ pub fn generate_string(format: &str) -> Result<String, String> {
       trace!("parsed date/time patterns: {:?}", pattern_tokens);
       let chrono_pattern = to_chrono_pattern(&pattern_tokens);
       trace!("Chrono pattern: {}", chrono_pattern);
-      Ok(Local::now().format(chrono_pattern.as_str()).to_string())
+      let mut buffer = String::new();
+      match write!(buffer, "{}", Local::now().format(chrono_pattern.as_str())) {
+        Ok(_) => Ok(buffer),
+        Err(_) => Err(format!("Date/time format '{}' is not supported", format))
+      }
     },
     Err(err) => {
       error!("Error parsing '{}': {:?}", format, err);
-- 
2.43.0

