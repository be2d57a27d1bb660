From fcd3f7af3466b675d7c60ece7c14f14bcd041a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 001/115] fix: path expressions read back the escapes written
 for quotes and backslashes in field names

---
 rust/pact_models/src/path_exp.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/path_exp.rs b/rust/pact_models/src/path_exp.rs
index a6e3e88..74d36ae 100644
--- a/rust/pact_models/src/path_exp.rs
+++ b/rust/pact_models/src/path_exp.rs
@@ -603,7 +603,18 @@ fn string_path<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path: &s
     let mut ch = next_char.unwrap();
     next_char = peek(chars);
     while ch.1 != '\'' && next_char.is_some() {
-      id.push(ch.1);
+      match next_char {
+        // escaped characters, as written by write_obj_key_for_path
+        Some(escaped) if ch.1 == '\\' && (escaped.1 == '\'' || escaped.1 == '\\') => {
+          id.push(escaped.1);
+          chars.next();
+          next_char = peek(chars);
+          if next_char.is_none() {
+            return Err(format!("Unterminated string in path expression \"{}\" at index {}", path, escaped.0));
+          }
+        }
+        _ => id.push(ch.1)
+      }
       chars.next();
       ch = next_char.unwrap();
       next_char = peek(chars);
-- 
2.43.0


From 9f6bc2ec876af239a7b1c643db04a17e0775af0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 002/115] fix: return an error for an array index that does not
 fit in a path expression instead of panicking

---
 rust/pact_models/src/path_exp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/path_exp.rs b/rust/pact_models/src/path_exp.rs
index 74d36ae..d144f2d 100644
--- a/rust/pact_models/src/path_exp.rs
+++ b/rust/pact_models/src/path_exp.rs
@@ -659,7 +659,8 @@ fn index_path<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path: &st
     }
   }
 
-  tokens.push(PathToken::Index(id.parse().unwrap()));
+  let index = id.parse().map_err(|err| format!("\"{}\" is not a valid index in path expression \"{}\": {}", id, path, err))?;
+  tokens.push(PathToken::Index(index));
   Ok(())
 }
 
-- 
2.43.0


From 6ecca066c1c069b879f2023a51208db9385202b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 003/115] fix: select the most specific matching rule for every
 category, and independently of hash order

---
 rust/pact_models/src/matchingrules/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index cc358e7..ee51c24 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -994,7 +994,7 @@ impl MatchingRuleCategory {
   fn max_by_path(&self, path: &[&str]) -> RuleList {
     self.rules.iter().map(|(k, v)| (k, v, k.path_weight(path)))
       .filter(|&(_, _, (w, _))| w > 0)
-      .max_by_key(|&(_, _, (w, t))| w * t)
+      .max_by_key(|&(k, _, (w, t))| (w * t, k))
       .map(|(_, v, (_, t))| v.as_cascaded(t != path.len()))
       .unwrap_or_default()
   }
@@ -1074,7 +1074,13 @@ impl MatchingRuleCategory {
   pub fn select_best_matcher(&self, path: &[&str]) -> RuleList {
     match self.name {
       Category::BODY | Category::METADATA => self.max_by_path(path),
-      _ => self.resolve_matchers_for_path(path).as_rule_list()
+      _ => self.resolve_matchers_for_path(path).rules.iter()
+        .max_by_key(|&(k, _)| {
+          let (w, t) = k.path_weight(path);
+          (w * t, k)
+        })
+        .map(|(_, rules)| rules.clone())
+        .unwrap_or_default()
     }
   }
 
-- 
2.43.0


From f8c939c122079a81d1fbe6f0e5ac15cec07bfa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 004/115] fix: status code matching rules with different
 statuses are not equal

---
 rust/pact_models/src/matchingrules/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index ee51c24..22b8a31 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -624,6 +624,7 @@ impl PartialEq for MatchingRule {
       (MatchingRule::Include(str1), MatchingRule::Include(str2)) => str1 == str2,
       (MatchingRule::ContentType(str1), MatchingRule::ContentType(str2)) => str1 == str2,
       (MatchingRule::ArrayContains(variants1), MatchingRule::ArrayContains(variants2)) => variants1 == variants2,
+      (MatchingRule::StatusCode(status1), MatchingRule::StatusCode(status2)) => status1 == status2,
       (MatchingRule::EachKey(definition1), MatchingRule::EachKey(definition2)) => definition1 == definition2,
       (MatchingRule::EachValue(definition1), MatchingRule::EachValue(definition2)) => definition1 == definition2,
       _ => mem::discriminant(self) == mem::discriminant(other)
-- 
2.43.0


From 5720bda786fe40c1d2b4b51a9fdfc5cff78c302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 005/115] fix: min-max-type matching rules can be created from
 their name and values

---
 rust/pact_models/src/matchingrules/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 22b8a31..57106eb 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -379,6 +379,10 @@ impl MatchingRule {
         Some(max) => Ok(MatchingRule::MaxType(max)),
         None => Err(anyhow!("Max matcher missing 'max' field")),
       },
+      "min-max-type" => match (json_to_num(attributes.get("min").cloned()), json_to_num(attributes.get("max").cloned())) {
+        (Some(min), Some(max)) => Ok(MatchingRule::MinMaxType(min, max)),
+        _ => Err(anyhow!("MinMax matcher missing 'min' or 'max' field")),
+      },
       "timestamp" | "datetime" => match attributes.get("format").or_else(|| attributes.get(rule_type)) {
         Some(s) => Ok(MatchingRule::Timestamp(json_to_string(s))),
         None => Ok(MatchingRule::Timestamp(String::default())),
-- 
2.43.0


From a28fe9eb3df796cafdac2e5e68114d68fb60ee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 006/115] fix: only the root marker is replaced when body rules
 are written in V2 form

---
 rust/pact_models/src/matchingrules/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 57106eb..f3bc115 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -1030,7 +1030,7 @@ impl MatchingRuleCategory {
         map.insert("$.path".to_string(), v.to_v2_json());
       }
       Category::BODY => for (k, v) in self.rules.clone() {
-        map.insert(String::from(k).replace("$", "$.body"), v.to_v2_json());
+        map.insert(String::from(k).replacen("$", "$.body", 1), v.to_v2_json());
       }
       Category::HEADER | Category::QUERY => for (k, v) in &self.rules {
         let mut path = DocPath::root();
-- 
2.43.0


From 145e756c2811044163683850b18a03b2a4b50385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 007/115] fix: generator values use the attribute names
 generators are created from

---
 rust/pact_models/src/generators/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 7abba1e..953e3cd 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -270,7 +270,7 @@ impl Generator {
       }
       Generator::RandomDecimal(digits) => hashmap!{ "digits" => json!(digits) },
       Generator::RandomHexadecimal(digits) => hashmap!{ "digits" => json!(digits) },
-      Generator::RandomString(digits) => hashmap!{ "digits" => json!(digits) },
+      Generator::RandomString(size) => hashmap!{ "size" => json!(size) },
       Generator::Regex(r) => hashmap!{ "regex" => json!(r) },
       Generator::Date(format, exp) => {
         match (format, exp) {
@@ -298,7 +298,7 @@ impl Generator {
       }
       Generator::RandomBoolean => empty,
       Generator::ProviderStateGenerator(exp, data_type) => if let Some(data_type) = data_type {
-        hashmap!{ "expression" => Value::String(exp.clone()), "data_type" => data_type.into() }
+        hashmap!{ "expression" => Value::String(exp.clone()), "dataType" => data_type.into() }
       } else {
         hashmap!{ "expression" => Value::String(exp.clone()) }
       }
-- 
2.43.0


From a4b471b5500577491f387d16449782970b699349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 008/115] fix: load the matching rules of a header or query
 parameter named "matchers"

---
 rust/pact_models/src/matchingrules/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index f3bc115..fd0075a 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -1113,7 +1113,7 @@ impl MatchingRuleCategory {
         }
       }
     } else if let Value::Object(m) = rules {
-      if m.contains_key("matchers") {
+      if m.get("matchers").map_or(false, |matchers| matchers.is_array()) {
         self.add_rule_list(DocPath::empty(), rules)?;
       } else {
         for (k, v) in m {
@@ -1143,7 +1143,7 @@ impl MatchingRuleCategory {
         }
       }
     } else if let Value::Object(m) = rules {
-      if m.contains_key("matchers") {
+      if m.get("matchers").map_or(false, |matchers| matchers.is_array()) {
         self.add_rule_list(DocPath::empty(), rules)?;
       } else if self.name == Category::QUERY || self.name == Category::HEADER {
         for (k, v) in m {
-- 
2.43.0


From 3dc5011f1dadf68bd3274fcc4821cdbbcae8b422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 009/115] fix: V4 responses and asynchronous messages write the
 content type of bodies that have none of their own

---
 rust/pact_models/src/v4/async_message.rs | 3 ++-
 rust/pact_models/src/v4/http_parts.rs    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/v4/async_message.rs b/rust/pact_models/src/v4/async_message.rs
index 7cc8495..d6961d0 100644
--- a/rust/pact_models/src/v4/async_message.rs
+++ b/rust/pact_models/src/v4/async_message.rs
@@ -164,7 +164,8 @@ impl V4Interaction for AsynchronousMessage {
       map.insert("key".to_string(), Value::String(key.clone()));
     }
 
-    if let Value::Object(body) = self.contents.contents.to_v4_json() {
+    let body = self.contents.contents.with_content_type_if_not_set(self.message_content_type());
+    if let Value::Object(body) = body.to_v4_json() {
       map.insert("contents".to_string(), Value::Object(body));
     }
 
diff --git a/rust/pact_models/src/v4/http_parts.rs b/rust/pact_models/src/v4/http_parts.rs
index 0630fcd..7ba3eca 100644
--- a/rust/pact_models/src/v4/http_parts.rs
+++ b/rust/pact_models/src/v4/http_parts.rs
@@ -530,7 +530,8 @@ impl HttpResponse {
         ));
       }
 
-      if let Value::Object(body) = self.body.to_v4_json() {
+      let body = self.body.with_content_type_if_not_set(self.content_type());
+      if let Value::Object(body) = body.to_v4_json() {
         map.insert("body".to_string(), Value::Object(body));
       }
 
-- 
2.43.0


From 5f3d393809359b56fbae805e4b9037161190468f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 010/115] fix: content type detection copes with a character
 that crosses the end of the inspected header

---
 rust/pact_models/src/content_types.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rust/pact_models/src/content_types.rs b/rust/pact_models/src/content_types.rs
index 38442d3..48514a4 100644
--- a/rust/pact_models/src/content_types.rs
+++ b/rust/pact_models/src/content_types.rs
@@ -293,6 +293,11 @@ pub fn detect_content_type_from_bytes(s: &[u8]) -> Option<ContentType> {
   } else {
     s
   };
+  // The header may end in the middle of a character, in which case the incomplete character is ignored
+  let header = match from_utf8(header) {
+    Err(err) if header.len() < s.len() && err.error_len().is_none() => &header[0..err.valid_up_to()],
+    _ => header
+  };
   match from_utf8(header) {
     Ok(s) => {
       if is_match(&XMLREGEXP, s) {
-- 
2.43.0


From 0433b53fcc93c284eddd42ef8b247ab81ca52efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 011/115] fix: decoding a query string keeps characters outside
 ASCII

---
 rust/pact_models/src/query_strings.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index 7df3f94..32157a6 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -8,6 +8,11 @@ use tracing::{error, trace, warn};
 
 use crate::PactSpecification;
 
+/// Appends the UTF-8 form of the character to the buffer
+fn push_char(buffer: &mut Vec<u8>, ch: char) {
+  buffer.extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes());
+}
+
 /// Decodes a query string using a percent-encoding scheme
 pub fn decode_query(query: &str) -> Result<String, String> {
   let mut chars = query.chars();
@@ -33,22 +38,22 @@ pub fn decode_query(query: &str) -> Result<String, String> {
             },
             Err(err) => {
               error!("Failed to decode '%{}{}' to as HEX - {}", v1, v2, err);
-              buffer.push('%' as u8);
-              buffer.push(v1 as u8);
-              buffer.push(v2 as u8);
+              push_char(&mut buffer, '%');
+              push_char(&mut buffer, v1);
+              push_char(&mut buffer, v2);
             }
           }
         },
         (Some(v1), None) => {
-          buffer.push('%' as u8);
-          buffer.push(v1 as u8);
+          push_char(&mut buffer, '%');
+          push_char(&mut buffer, v1);
         },
-        _ => buffer.push('%' as u8)
+        _ => push_char(&mut buffer, '%')
       }
     } else if c == '+' {
-      buffer.push(' ' as u8);
+      push_char(&mut buffer, ' ');
     } else {
-      buffer.push(c as u8);
+      push_char(&mut buffer, c);
     }
 
     ch = chars.next();
-- 
2.43.0


From a85c3aa7ad59c30d3df345b9aa2ae6f863be1a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 012/115] fix: control characters in a query parameter are
 percent-encoded instead of panicking

---
 rust/pact_models/src/query_strings.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index 32157a6..409a26d 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -77,6 +77,7 @@ pub fn encode_query(query: &str) -> String {
       'a'..='z' => ch.to_string(),
       'A'..='Z' => ch.to_string(),
       '0'..='9' => ch.to_string(),
+      _ if ch.is_ascii() => format!("%{:02x}", ch as u8),
       _ => ch.escape_unicode()
         .filter(|u| u.is_digit(16))
         .batching(|it| {
-- 
2.43.0


From d9ff2fbe849dc94775233dae55ab127b68744a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 013/115] fix: names of query parameters are encoded when a
 query string is written

---
 rust/pact_models/src/query_strings.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index 409a26d..4c8dd86 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -124,6 +124,16 @@ pub fn parse_query_string(query: &str) -> Option<HashMap<String, Vec<Option<Stri
   }
 }
 
+/// Encodes the characters of a query parameter name that have a meaning in a query string
+fn encode_name(name: &str) -> String {
+  name.chars().map(|ch| {
+    match ch {
+      ' ' | '%' | '&' | '+' | '=' => encode_query(ch.encode_utf8(&mut [0; 4])),
+      _ => ch.to_string()
+    }
+  }).collect()
+}
+
 /// Converts a query string map into a query string
 pub fn build_query_string(query: HashMap<String, Vec<Option<String>>>) -> String {
   query.into_iter()
@@ -132,8 +142,8 @@ pub fn build_query_string(query: HashMap<String, Vec<Option<String>>>) -> String
     .flat_map(|kv| {
       kv.1.iter()
         .map(|v| match v {
-          None => kv.0.clone(),
-          Some(s) => format!("{}={}", kv.0, encode_query(s))
+          None => encode_name(kv.0.as_str()),
+          Some(s) => format!("{}={}", encode_name(kv.0.as_str()), encode_query(s))
         })
         .collect_vec()
     })
-- 
2.43.0


From acc2538912b9c8792cb863ebf6a4c194a8b3e4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 014/115] fix: a query parameter value that is not a string is
 read as that value, not as the whole list

---
 rust/pact_models/src/query_strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index 4c8dd86..1f2a580 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -175,7 +175,7 @@ pub fn v3_query_from_json(
         Value::Array(array) => array.iter().map(|item| match item {
           Value::String(s) => Some(s.clone()),
           Value::Null => None,
-          _ => Some(v.to_string())
+          _ => Some(item.to_string())
         }).collect(),
         _ => {
           warn!("Query parameter value '{}' is not valid, ignoring", v);
-- 
2.43.0


From 3243d138fc23192244e7f800c74c9ae2807c6a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 015/115] fix: a response status that is not a 16 bit number is
 an error instead of a panic or another status

---
 rust/pact_models/src/response.rs      | 4 +++-
 rust/pact_models/src/v4/http_parts.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/response.rs b/rust/pact_models/src/response.rs
index 7fb6f3f..c327004 100644
--- a/rust/pact_models/src/response.rs
+++ b/rust/pact_models/src/response.rs
@@ -3,6 +3,7 @@ use std::fmt::{Display, Formatter};
 use std::hash::{Hash, Hasher};
 use std::str::from_utf8;
 
+use anyhow::anyhow;
 use base64::Engine;
 use base64::engine::general_purpose::STANDARD as BASE64;
 use itertools::Itertools;
@@ -39,7 +40,8 @@ impl Response {
   pub fn from_json(response: &Value, _: &PactSpecification
   ) -> anyhow::Result<Response> {
     let status_val = match response.get("status") {
-      Some(v) => v.as_u64().unwrap() as u16,
+      Some(v) => v.as_u64().and_then(|status| u16::try_from(status).ok())
+        .ok_or_else(|| anyhow!("'{}' is not a valid response status", v))?,
       None => 200
     };
     let headers = headers_from_json(response);
diff --git a/rust/pact_models/src/v4/http_parts.rs b/rust/pact_models/src/v4/http_parts.rs
index 7ba3eca..fd98821 100644
--- a/rust/pact_models/src/v4/http_parts.rs
+++ b/rust/pact_models/src/v4/http_parts.rs
@@ -6,6 +6,7 @@ use std::convert::TryFrom;
 use std::fmt::{Display, Formatter};
 use std::hash::{Hash, Hasher};
 
+use anyhow::anyhow;
 use base64::Engine;
 use base64::engine::general_purpose::STANDARD as BASE64;
 use bytes::BytesMut;
@@ -500,7 +501,8 @@ impl HttpResponse {
   /// Build an `HttpResponse` from a JSON `Value` struct.
   pub fn from_json(response: &Value) -> anyhow::Result<Self> {
     let status_val = match response.get("status") {
-      Some(v) => v.as_u64().unwrap() as u16,
+      Some(v) => v.as_u64().and_then(|status| u16::try_from(status).ok())
+        .ok_or_else(|| anyhow!("'{}' is not a valid response status", v))?,
       None => 200
     };
     let headers = headers_from_json(response);
-- 
2.43.0


From a15cd46d8f73aac259e790802b1513438c4107af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 016/115] fix: a content type header without values does not
 panic

---
 rust/pact_models/src/json_utils.rs    | 5 +----
 rust/pact_models/src/v4/http_parts.rs | 8 ++++----
 rust/pact_models/src/v4/mod.rs        | 2 +-
 3 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 53f2d12..9396fd4 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -152,10 +152,7 @@ pub fn body_from_json(request: &Value, fieldname: &str, headers: &Option<HashMap
   let content_type = match headers {
     Some(h) => match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
       Some(kv) => {
-        match ContentType::parse(kv.1[0].as_str()) {
-          Ok(v) => Some(v),
-          Err(_) => None
-        }
+        kv.1.first().and_then(|v| ContentType::parse(v.as_str()).ok())
       },
       None => None
     },
diff --git a/rust/pact_models/src/v4/http_parts.rs b/rust/pact_models/src/v4/http_parts.rs
index fd98821..b9175a4 100644
--- a/rust/pact_models/src/v4/http_parts.rs
+++ b/rust/pact_models/src/v4/http_parts.rs
@@ -398,15 +398,15 @@ fn content_type_from_json(headers: &Option<HashMap<String, Vec<String>>>, body_a
       debug!("Body has no content type set, will default to any headers or metadata");
       match headers {
         Some(h) => match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
-          Some((_, v)) => {
-            match ContentType::parse(v[0].as_str()) {
+          Some((_, v)) => v.first().and_then(|v| {
+            match ContentType::parse(v.as_str()) {
               Ok(v) => Some(v),
               Err(err) => {
-                warn!("Failed to parse body content type '{}' - {}", v[0], err);
+                warn!("Failed to parse body content type '{}' - {}", v, err);
                 None
               }
             }
-          },
+          }),
           None => None
         },
         None => None
diff --git a/rust/pact_models/src/v4/mod.rs b/rust/pact_models/src/v4/mod.rs
index 2ecd476..4ad33ab 100644
--- a/rust/pact_models/src/v4/mod.rs
+++ b/rust/pact_models/src/v4/mod.rs
@@ -65,7 +65,7 @@ pub fn calc_content_type(body: &OptionalBody, headers: &Option<HashMap<String, V
   body.content_type()
     .or_else(|| headers.as_ref().map(|h| {
       match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
-        Some((_, v)) => ContentType::parse(v[0].as_str()).ok(),
+        Some((_, v)) => v.first().and_then(|v| ContentType::parse(v.as_str()).ok()),
         None => None
       }
     }).flatten())
-- 
2.43.0


From 131c821af07726c44e7534962711a3c651631a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 017/115] fix: the content type of a message is found when its
 metadata holds it as a string

---
 rust/pact_models/src/message.rs          | 5 ++++-
 rust/pact_models/src/v4/message_parts.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/message.rs b/rust/pact_models/src/message.rs
index 77daa56..6d697ea 100644
--- a/rust/pact_models/src/message.rs
+++ b/rust/pact_models/src/message.rs
@@ -350,7 +350,10 @@ impl HttpPart for Message {
     self.metadata.iter().find(|(k, _)| {
       let key = k.to_ascii_lowercase();
       key == "contenttype" || key == "content-type"
-    }).map(|(_, v)| json_to_string(&v[0]))
+    }).map(|(_, v)| match v {
+      Value::Array(values) => values.first().map(json_to_string).unwrap_or_default(),
+      _ => json_to_string(v)
+    })
   }
 
   fn add_header(&mut self, key: &str, val: Vec<&str>) {
diff --git a/rust/pact_models/src/v4/message_parts.rs b/rust/pact_models/src/v4/message_parts.rs
index 8e9ef9b..c64aa4b 100644
--- a/rust/pact_models/src/v4/message_parts.rs
+++ b/rust/pact_models/src/v4/message_parts.rs
@@ -170,7 +170,10 @@ impl HttpPart for MessageContents {
     self.metadata.iter().find(|(k, _)| {
       let key = k.to_ascii_lowercase();
       key == "contenttype" || key == "content-type"
-    }).map(|(_, v)| json_to_string(&v[0]))
+    }).map(|(_, v)| match v {
+      Value::Array(values) => values.first().map(json_to_string).unwrap_or_default(),
+      _ => json_to_string(v)
+    })
   }
 }
 
-- 
2.43.0


From cd0036ed7b9590d27d16eb49f717cb53264d180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 018/115] fix: a JSON string body is escaped when it is loaded
 from a pact file

---
 rust/pact_models/src/json_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 9396fd4..586994d 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -171,7 +171,7 @@ pub fn body_from_json(request: &Value, fieldname: &str, headers: &Option<HashMap
           if content_type.is_json() {
             match serde_json::from_str::<JsonParsable>(s) {
               Ok(_) => OptionalBody::Present(s.clone().into(), Some(content_type), None),
-              Err(_) => OptionalBody::Present(format!("\"{}\"", s).into(), Some(content_type), None)
+              Err(_) => OptionalBody::Present(v.to_string().into(), Some(content_type), None)
             }
           } else if content_type.is_text() {
             OptionalBody::Present(s.clone().into(), Some(content_type), None)
-- 
2.43.0


From b5dc948f6268a3030ddd8a7205d2eca41082e6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 019/115] fix: the generators of a message are read from the
 pact file

---
 rust/pact_models/src/message.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/message.rs b/rust/pact_models/src/message.rs
index 6d697ea..14ef4d5 100644
--- a/rust/pact_models/src/message.rs
+++ b/rust/pact_models/src/message.rs
@@ -15,7 +15,7 @@ use tracing::warn;
 
 use crate::bodies::OptionalBody;
 use crate::content_types::ContentType;
-use crate::generators::{Generators, generators_to_json};
+use crate::generators::{Generators, generators_from_json, generators_to_json};
 use crate::http_parts::HttpPart;
 use crate::interaction::Interaction;
 use crate::json_utils::{body_from_json, json_to_string};
@@ -226,7 +226,7 @@ impl Message {
                   contents: body,
                   matching_rules: matchers_from_json(json, &None)?,
                   metadata,
-                  generators: Generators::default(),
+                  generators: generators_from_json(json)?,
                 })
             },
             _ => Err(anyhow!("Messages require Pact Specification version 3"))
-- 
2.43.0


From 325c9330d79bf3d6747126046fbc388f0492fdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 020/115] fix: pact files with an unknown specification version
 are loaded as V3, as the warning says

---
 rust/pact_models/src/message.rs | 2 +-
 rust/pact_models/src/request.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/message.rs b/rust/pact_models/src/message.rs
index 14ef4d5..b5ada00 100644
--- a/rust/pact_models/src/message.rs
+++ b/rust/pact_models/src/message.rs
@@ -184,7 +184,7 @@ impl Message {
     /// Constructs a `Message` from the `Json` struct.
     pub fn from_json(index: usize, json: &Value, spec_version: &PactSpecification) -> anyhow::Result<Message> {
         match spec_version {
-            PactSpecification::V3 => {
+            PactSpecification::V3 | PactSpecification::Unknown => {
                 let id = json.get("_id").map(|id| json_to_string(id));
                 let description = match json.get("description") {
                     Some(v) => match *v {
diff --git a/rust/pact_models/src/request.rs b/rust/pact_models/src/request.rs
index 4a12198..4b826c9 100644
--- a/rust/pact_models/src/request.rs
+++ b/rust/pact_models/src/request.rs
@@ -158,7 +158,7 @@ impl Request {
     };
     let query_val = match request_json.get("query") {
       Some(v) => match spec_version {
-        &PactSpecification::V3 => v3_query_from_json(v, spec_version),
+        &PactSpecification::V3 | &PactSpecification::Unknown => v3_query_from_json(v, spec_version),
         _ => query_from_json(v, spec_version)
       },
       None => None
-- 
2.43.0


From 17b583a8ada1b3777b2e4818feaf8d35828395ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 021/115] fix: a text body of a non-text type that is also
 valid base64 is not decoded when it is loaded again

---
 rust/pact_models/src/request.rs  | 27 ++++++++++++++++-----------
 rust/pact_models/src/response.rs |  9 ++++++---
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/rust/pact_models/src/request.rs b/rust/pact_models/src/request.rs
index 4b826c9..6159bc4 100644
--- a/rust/pact_models/src/request.rs
+++ b/rust/pact_models/src/request.rs
@@ -193,19 +193,24 @@ impl Request {
       }
 
       match self.body {
-        OptionalBody::Present(ref body, _, _) => if self.content_type().unwrap_or_default().is_json() {
-          match serde_json::from_slice(body) {
-            Ok(json_body) => { map.insert("body".to_string(), json_body); },
-            Err(err) => {
-              warn!("Failed to parse json body: {}", err);
-              map.insert("body".to_string(), Value::String(BASE64.encode(body)));
+        OptionalBody::Present(ref body, _, _) => {
+          let content_type = self.content_type().unwrap_or_default();
+          if content_type.is_json() {
+            match serde_json::from_slice(body) {
+              Ok(json_body) => { map.insert("body".to_string(), json_body); },
+              Err(err) => {
+                warn!("Failed to parse json body: {}", err);
+                map.insert("body".to_string(), Value::String(BASE64.encode(body)));
+              }
             }
+          } else {
+            match from_utf8(body) {
+              // Non-text bodies are decoded when they are loaded, so must not look like they are encoded
+              Ok(s) if content_type.is_text() || BASE64.decode(s).is_err() =>
+                map.insert("body".to_string(), Value::String(s.to_string())),
+              _ => map.insert("body".to_string(), Value::String(BASE64.encode(body)))
+            };
           }
-        } else {
-          match from_utf8(body) {
-            Ok(s) => map.insert("body".to_string(), Value::String(s.to_string())),
-            Err(_) => map.insert("body".to_string(), Value::String(BASE64.encode(body)))
-          };
         },
         OptionalBody::Empty => { map.insert("body".to_string(), Value::String(String::default())); },
         OptionalBody::Missing => (),
diff --git a/rust/pact_models/src/response.rs b/rust/pact_models/src/response.rs
index c327004..a340636 100644
--- a/rust/pact_models/src/response.rs
+++ b/rust/pact_models/src/response.rs
@@ -73,7 +73,8 @@ impl Response {
       }
       match self.body {
         OptionalBody::Present(ref body, _, _) => {
-          if self.content_type().unwrap_or_default().is_json() {
+          let content_type = self.content_type().unwrap_or_default();
+          if content_type.is_json() {
             match serde_json::from_slice(body) {
               Ok(json_body) => { map.insert("body".to_string(), json_body); },
               Err(err) => {
@@ -83,8 +84,10 @@ impl Response {
             }
           } else {
             match from_utf8(body) {
-              Ok(s) => map.insert("body".to_string(), Value::String(s.to_string())),
-              Err(_) => map.insert("body".to_string(), Value::String(BASE64.encode(body)))
+              // Non-text bodies are decoded when they are loaded, so must not look like they are encoded
+              Ok(s) if content_type.is_text() || BASE64.decode(s).is_err() =>
+                map.insert("body".to_string(), Value::String(s.to_string())),
+              _ => map.insert("body".to_string(), Value::String(BASE64.encode(body)))
             };
           }
         },
-- 
2.43.0


From abbeff5f0880b150d201a50c203b9b327c76487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 022/115] fix: path weights of deeply nested paths do not
 overflow

---
 rust/pact_models/src/matchingrules/mod.rs | 4 ++--
 rust/pact_models/src/path_exp.rs          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index fd0075a..b063e6c 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -999,7 +999,7 @@ impl MatchingRuleCategory {
   fn max_by_path(&self, path: &[&str]) -> RuleList {
     self.rules.iter().map(|(k, v)| (k, v, k.path_weight(path)))
       .filter(|&(_, _, (w, _))| w > 0)
-      .max_by_key(|&(k, _, (w, t))| (w * t, k))
+      .max_by_key(|&(k, _, (w, t))| (w.saturating_mul(t), k))
       .map(|(_, v, (_, t))| v.as_cascaded(t != path.len()))
       .unwrap_or_default()
   }
@@ -1082,7 +1082,7 @@ impl MatchingRuleCategory {
       _ => self.resolve_matchers_for_path(path).rules.iter()
         .max_by_key(|&(k, _)| {
           let (w, t) = k.path_weight(path);
-          (w * t, k)
+          (w.saturating_mul(t), k)
         })
         .map(|(_, rules)| rules.clone())
         .unwrap_or_default()
diff --git a/rust/pact_models/src/path_exp.rs b/rust/pact_models/src/path_exp.rs
index d144f2d..5c70593 100644
--- a/rust/pact_models/src/path_exp.rs
+++ b/rust/pact_models/src/path_exp.rs
@@ -195,7 +195,7 @@ impl DocPath {
       if path.len() >= self.len() {
         (
           self.path_tokens.iter().zip(path.iter())
-          .fold(1, |acc, (token, fragment)| acc * matches_token(fragment, token)),
+          .fold(1usize, |acc, (token, fragment)| acc.saturating_mul(matches_token(fragment, token))),
           self.len()
         )
       } else {
-- 
2.43.0


From 3b32760bce9a53378f17cbbbecb23b66aa7baf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 023/115] fix: merging pacts neither duplicates nor drops
 interactions when the lists are not sorted or states differ

---
 rust/pact_models/src/message_pact.rs | 32 ++++++++----------
 rust/pact_models/src/sync_pact.rs    | 32 ++++++++----------
 rust/pact_models/src/v4/pact.rs      | 49 ++++++++--------------------
 3 files changed, 39 insertions(+), 74 deletions(-)

diff --git a/rust/pact_models/src/message_pact.rs b/rust/pact_models/src/message_pact.rs
index a7e75bc..7a519f6 100644
--- a/rust/pact_models/src/message_pact.rs
+++ b/rust/pact_models/src/message_pact.rs
@@ -1,7 +1,6 @@
 //! The `message_pact` module defines a Pact
 //! that contains Messages instead of Interactions.
 
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, HashMap};
 use std::fs;
 use std::fs::File;
@@ -11,7 +10,6 @@ use std::path::Path;
 use std::sync::{Arc, Mutex};
 
 use anyhow::{anyhow, bail};
-use itertools::EitherOrBoth::{Both, Left, Right};
 use itertools::Itertools;
 use maplit::*;
 use serde_json::{json, Map, Value};
@@ -25,6 +23,7 @@ use crate::message::Message;
 use crate::pact::{determine_spec_version, Pact, parse_meta_data, ReadWritePact};
 use crate::PACT_RUST_VERSION;
 use crate::plugins::PluginData;
+use crate::provider_states::ProviderState;
 use crate::sync_pact::RequestResponsePact;
 use crate::v4::pact::V4Pact;
 use crate::verify_json::{json_type_of, PactFileVerificationResult, PactJsonVerifier, ResultLevel};
@@ -305,23 +304,16 @@ impl ReadWritePact for MessagePact {
 
   fn merge(&self, pact: &dyn Pact) -> anyhow::Result<Box<dyn Pact + Send + Sync + RefUnwindSafe>> {
     if self.consumer.name == pact.consumer().name && self.provider.name == pact.provider().name {
+      let state_names = |states: &[ProviderState]| states.iter()
+        .map(|state| state.name.clone()).collect_vec();
+      let other_interactions = pact.interactions();
       let messages: Vec<Result<Message, String>> = self.messages.iter()
-        .merge_join_by(pact.interactions().iter(), |a, b| {
-          let cmp = Ord::cmp(&a.description, &b.description());
-          if cmp == Ordering::Equal && ! &a.provider_states().is_empty(){
-            Ord::cmp(&a.provider_states.iter().map(|p| p.name.clone()).collect::<Vec<String>>(),
-                     &b.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>())
-          } else {
-            cmp
-          }
-        })
-        .map(|either| match either {
-          Left(i) => Ok(i.clone()),
-          Right(i) => i.as_message()
-            .ok_or(format!("Can't convert interaction of type {} to V3 Asynchronous/Messages", i.type_of())),
-          Both(_, i) => i.as_message()
-            .ok_or(format!("Can't convert interaction of type {} to V3 Asynchronous/Messages", i.type_of()))
-        })
+        .filter(|a| !other_interactions.iter()
+          .any(|b| a.description == b.description() && state_names(&a.provider_states) == state_names(&b.provider_states())))
+        .map(|i| Ok(i.clone()))
+        .chain(other_interactions.iter()
+          .map(|i| i.as_message()
+            .ok_or(format!("Can't convert interaction of type {} to V3 Asynchronous/Messages", i.type_of()))))
         .collect();
       let errors: Vec<String> = messages.iter()
         .filter(|i| i.is_err())
@@ -333,7 +325,9 @@ impl ReadWritePact for MessagePact {
           consumer: self.consumer.clone(),
           messages: messages.iter()
             .filter(|i| i.is_ok())
-            .map(|i| i.as_ref().unwrap().clone()).collect(),
+            .map(|i| i.as_ref().unwrap().clone())
+            .sorted_by_cached_key(|i| (i.description.clone(), state_names(&i.provider_states)))
+            .collect(),
           metadata: self.metadata.clone(),
           specification_version: self.specification_version
         }))
diff --git a/rust/pact_models/src/sync_pact.rs b/rust/pact_models/src/sync_pact.rs
index a4fd8b4..3c48b53 100644
--- a/rust/pact_models/src/sync_pact.rs
+++ b/rust/pact_models/src/sync_pact.rs
@@ -1,13 +1,11 @@
 //! Synchronous HTTP Request/Response Pact
 
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, HashMap};
 use std::panic::RefUnwindSafe;
 use std::path::Path;
 use std::sync::{Arc, Mutex};
 
 use anyhow::{anyhow, Context};
-use itertools::EitherOrBoth::{Both, Left, Right};
 use itertools::Itertools;
 use maplit::{btreemap, hashset};
 use serde_json::{json, Map, Value};
@@ -22,6 +20,7 @@ use crate::message_pact::MessagePact;
 use crate::pact::{determine_spec_version, metadata_schema, Pact, parse_meta_data, ReadWritePact, verify_metadata};
 use crate::PACT_RUST_VERSION;
 use crate::plugins::PluginData;
+use crate::provider_states::ProviderState;
 use crate::sync_interaction::RequestResponseInteraction;
 use crate::v4::pact::V4Pact;
 use crate::verify_json::{json_type_of, PactFileVerificationResult, PactJsonVerifier, ResultLevel};
@@ -299,23 +298,16 @@ impl ReadWritePact for RequestResponsePact {
         Err(anyhow!("Unable to merge pacts, as there were {} conflict(s) between the interactions. Please clean out your pact directory before running the tests.",
                     num_conflicts))
       } else {
+        let state_names = |states: &[ProviderState]| states.iter()
+          .map(|state| state.name.clone()).collect_vec();
+        let other_interactions = pact.interactions();
         let interactions: Vec<Result<RequestResponseInteraction, String>> = self.interactions.iter()
-          .merge_join_by(pact.interactions().iter(), |a, b| {
-            let cmp = Ord::cmp(&a.description, &b.description());
-            if cmp == Ordering::Equal && ! &a.provider_states().is_empty(){
-              Ord::cmp(&a.provider_states.iter().map(|p| p.name.clone()).collect::<Vec<String>>(),
-                       &b.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>())
-            } else {
-              cmp
-            }
-          })
-          .map(|either| match either {
-            Left(i) => Ok(i.clone()),
-            Right(i) => i.as_request_response()
-              .ok_or(format!("Can't convert interaction of type {} to V3 Synchronous/HTTP", i.type_of())),
-            Both(_, i) => i.as_request_response()
-              .ok_or(format!("Can't convert interaction of type {} to V3 Synchronous/HTTP", i.type_of()))
-          })
+          .filter(|a| !other_interactions.iter()
+            .any(|b| a.description == b.description() && state_names(&a.provider_states) == state_names(&b.provider_states())))
+          .map(|i| Ok(i.clone()))
+          .chain(other_interactions.iter()
+            .map(|i| i.as_request_response()
+              .ok_or(format!("Can't convert interaction of type {} to V3 Synchronous/HTTP", i.type_of()))))
           .collect();
 
         let errors: Vec<String> = interactions.iter()
@@ -328,7 +320,9 @@ impl ReadWritePact for RequestResponsePact {
             consumer: self.consumer.clone(),
             interactions: interactions.iter()
               .filter(|i| i.is_ok())
-              .map(|i| i.as_ref().unwrap().clone()).collect(),
+              .map(|i| i.as_ref().unwrap().clone())
+              .sorted_by_cached_key(|i| (i.description.clone(), state_names(&i.provider_states)))
+              .collect(),
             metadata: self.metadata.clone(),
             specification_version: self.specification_version.clone()
           }))
diff --git a/rust/pact_models/src/v4/pact.rs b/rust/pact_models/src/v4/pact.rs
index 92548af..436a5de 100644
--- a/rust/pact_models/src/v4/pact.rs
+++ b/rust/pact_models/src/v4/pact.rs
@@ -1,13 +1,11 @@
 //! V4 specification Pact
 
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, HashMap, HashSet};
 use std::panic::RefUnwindSafe;
 use std::path::Path;
 use std::sync::{Arc, Mutex};
 
 use anyhow::{anyhow, Context};
-use itertools::EitherOrBoth::{Both, Left, Right};
 use itertools::Itertools;
 use maplit::btreemap;
 use serde_json::{json, Map, Value};
@@ -357,43 +355,22 @@ impl ReadWritePact for V4Pact {
 
   fn merge(&self, other: &dyn Pact) -> anyhow::Result<Box<dyn Pact + Send + Sync + RefUnwindSafe>> {
     if self.consumer.name == other.consumer().name && self.provider.name == other.provider().name {
+      let state_names = |i: &dyn V4Interaction| i.provider_states().iter()
+        .map(|state| state.name.clone()).collect_vec();
+      let same_interaction = |a: &dyn V4Interaction, b: &dyn V4Interaction| match (a.key(), b.key()) {
+        (Some(key_a), Some(key_b)) => key_a == key_b,
+        (_, _) => a.description() == b.description() && state_names(a) == state_names(b) && a.type_of() == b.type_of()
+      };
+      let new_interactions = other.interactions().iter()
+        .filter_map(|i| i.as_v4())
+        .filter(|i| !self.interactions.iter().any(|a| same_interaction(a.as_ref(), i.as_ref())))
+        .collect_vec();
       let mut new_pact = V4Pact {
         consumer: self.consumer.clone(),
         provider: self.provider.clone(),
-        interactions: self.interactions.iter()
-          .merge_join_by(other.interactions().iter().map(|i| i.as_v4().unwrap()), |a, b| {
-            match (a.key(), b.key()) {
-              (Some(key_a), Some(key_b)) => Ord::cmp(&key_a, &key_b),
-              (_, _) => {
-                let type_a = a.type_of();
-                let type_b = b.type_of();
-                let cmp = Ord::cmp(&a.description(), &b.description());
-                if cmp == Ordering::Equal && !a.provider_states().is_empty() {
-                  let cmp = Ord::cmp(&a.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>(),
-                  &b.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>());
-                  if cmp == Ordering::Equal {
-                       Ord::cmp(&type_a, &type_b)
-                  } else
-                  {
-                    cmp
-                  }
-                }
-                else if cmp == Ordering::Equal && a.provider_states().is_empty() {
-                  Ord::cmp(&type_a, &type_b)
-                } 
-                 else {
-                  cmp
-                }
-              }
-            }
-          })
-          .map(|either| {
-            match either {
-              Left(i) => i.clone(),
-              Right(i) => i.boxed_v4(),
-              Both(i, _) => i.clone()
-            }
-          })
+        interactions: self.interactions.iter().cloned()
+          .chain(new_interactions)
+          .sorted_by_cached_key(|i| (i.description(), state_names(i.as_ref()), i.type_of()))
           .collect(),
         metadata: self.metadata.clone(),
         plugin_data: self.plugin_data.clone()
-- 
2.43.0


From d180d12f457c9b117939bfa069384a9913232b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 024/115] fix: look up the content type in message metadata
 with any spelling of the key when loading a message

---
 rust/pact_models/src/v4/message_parts.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/rust/pact_models/src/v4/message_parts.rs b/rust/pact_models/src/v4/message_parts.rs
index c64aa4b..a46ebf8 100644
--- a/rust/pact_models/src/v4/message_parts.rs
+++ b/rust/pact_models/src/v4/message_parts.rs
@@ -178,11 +178,20 @@ impl HttpPart for MessageContents {
 }
 
 pub(crate) fn metadata_to_headers(metadata: &HashMap<String, Value>) -> Option<HashMap<String, Vec<String>>> {
-  metadata.get("contentType").map(|content_type| {
-    hashmap! {
-      "Content-Type".to_string() => vec![ json_to_string(content_type) ]
-    }
-  })
+  metadata.get("contentType")
+    .or_else(|| metadata.iter().find(|(k, _)| {
+      let key = k.to_ascii_lowercase();
+      key == "contenttype" || key == "content-type"
+    }).map(|(_, v)| v))
+    .map(|content_type| {
+      let content_type = match content_type {
+        Value::Array(values) => values.first().map(json_to_string).unwrap_or_default(),
+        _ => json_to_string(content_type)
+      };
+      hashmap! {
+        "Content-Type".to_string() => vec![ content_type ]
+      }
+    })
 }
 
 #[cfg(test)]
-- 
2.43.0


From db2f08a0ae30dd521a8a1f66aadecc2f5b5b1b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 025/115] fix: clone and display synchronous message
 interactions

---
 rust/pact_models/src/interaction.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/pact_models/src/interaction.rs b/rust/pact_models/src/interaction.rs
index b8944d0..b6a6ef4 100644
--- a/rust/pact_models/src/interaction.rs
+++ b/rust/pact_models/src/interaction.rs
@@ -153,6 +153,8 @@ impl Display for dyn Interaction {
       std::fmt::Display::fmt(&mp, f)
     } else if let Some(mp) = self.as_v4_async_message() {
       std::fmt::Display::fmt(&mp, f)
+    } else if let Some(mp) = self.as_v4_sync_message() {
+      std::fmt::Display::fmt(&mp, f)
     } else {
       Err(fmt::Error)
     }
@@ -166,6 +168,8 @@ impl Clone for Box<dyn Interaction> {
         Box::new(http)
       } else if let Some(message) = self.as_v4_async_message() {
         Box::new(message)
+      } else if let Some(message) = self.as_v4_sync_message() {
+        Box::new(message)
       } else {
         panic!("Internal Error - Tried to clone an interaction that was not valid")
       }
-- 
2.43.0


From 678e0bbe13660984af545f77a9407ec1533d592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 026/115] fix: ignore the case of the method when listing the
 differences between requests

---
 rust/pact_models/src/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/request.rs b/rust/pact_models/src/request.rs
index 6159bc4..267a48e 100644
--- a/rust/pact_models/src/request.rs
+++ b/rust/pact_models/src/request.rs
@@ -239,7 +239,7 @@ impl Request {
   /// Return a description of all the differences from the other request
   pub fn differences_from(&self, other: &Request) -> Vec<(DifferenceType, String)> {
     let mut differences = vec![];
-    if self.method != other.method {
+    if self.method.to_uppercase() != other.method.to_uppercase() {
       differences.push((DifferenceType::Method, format!("Request method {} != {}", self.method, other.method)));
     }
     if self.path != other.path {
-- 
2.43.0


From aa7efbcf8aad7417ce44440916b6bb88f245baec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 027/115] fix: encoding a query string panics for characters
 whose code point has an odd number of hex digits

---
 rust/pact_models/src/query_strings.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index 1f2a580..2f7a733 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -78,6 +78,10 @@ pub fn encode_query(query: &str) -> String {
       'A'..='Z' => ch.to_string(),
       '0'..='9' => ch.to_string(),
       _ if ch.is_ascii() => format!("%{:02x}", ch as u8),
+      _ if format!("{:x}", ch as u32).len() % 2 != 0 => ch.encode_utf8(&mut [0; 4])
+        .bytes()
+        .map(|b| format!("%{:02x}", b))
+        .collect(),
       _ => ch.escape_unicode()
         .filter(|u| u.is_digit(16))
         .batching(|it| {
-- 
2.43.0


From 137fd4edbd4e08d09a88a41ba9a238b4341f427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 028/115] fix: adding a header replaces an existing one whose
 name only differs in case

---
 rust/pact_models/src/http_parts.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/pact_models/src/http_parts.rs b/rust/pact_models/src/http_parts.rs
index 275d82a..69ff21c 100644
--- a/rust/pact_models/src/http_parts.rs
+++ b/rust/pact_models/src/http_parts.rs
@@ -98,6 +98,7 @@ pub trait HttpPart {
   /// Convenience method to add a header
   fn add_header(&mut self, key: &str, val: Vec<&str>) {
     let headers = self.headers_mut();
+    headers.retain(|k, _| !k.eq_ignore_ascii_case(key));
     headers.insert(key.to_string(), val.iter().map(|v| v.to_string()).collect());
   }
 
-- 
2.43.0


From 36062553451d7728e3b8818a933c01bbd125ba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 029/115] fix: quote attribute values that are not tokens when
 displaying a content type

---
 rust/pact_models/src/content_types.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/content_types.rs b/rust/pact_models/src/content_types.rs
index 48514a4..78b85d9 100644
--- a/rust/pact_models/src/content_types.rs
+++ b/rust/pact_models/src/content_types.rs
@@ -177,6 +177,17 @@ impl Default for ContentType {
   }
 }
 
+/// Attribute values that are not tokens have to be quoted
+fn attribute_value(value: &str) -> String {
+  let is_token = !value.is_empty() && value.chars()
+    .all(|c| c.is_ascii_alphanumeric() || "!#$%&'*+-.^_`|~".contains(c));
+  if is_token {
+    value.to_string()
+  } else {
+    format!("\"{}\"", value)
+  }
+}
+
 impl Display for ContentType {
   fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
     let base = if let Some(suffix) = &self.suffix {
@@ -188,7 +199,7 @@ impl Display for ContentType {
       write!(f, "{}", base)
     } else {
       write!(f, "{};{}", base, self.attributes.iter()
-        .map(|(key, value)| format!("{}={}", key, value)).join(";"))
+        .map(|(key, value)| format!("{}={}", key, attribute_value(value))).join(";"))
     }
   }
 }
-- 
2.43.0


From 2bd65b6c1fce32c83dc6ef1fc3065f7060230eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 030/115] fix: only detect HTML if the contents start with a
 HTML tag

---
 rust/pact_models/src/content_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/content_types.rs b/rust/pact_models/src/content_types.rs
index 78b85d9..a63944a 100644
--- a/rust/pact_models/src/content_types.rs
+++ b/rust/pact_models/src/content_types.rs
@@ -63,7 +63,7 @@ lazy_static! {
   };
 
   static ref XMLREGEXP: Regex = Regex::new(r"^\s*<\?xml\s*version.*").unwrap();
-  static ref HTMLREGEXP: Regex = Regex::new(r"^\s*(<!DOCTYPE)|(<HTML>).*").unwrap();
+  static ref HTMLREGEXP: Regex = Regex::new(r"^\s*(<!DOCTYPE|<HTML>).*").unwrap();
   static ref JSONREGEXP: Regex = Regex::new(r#"^\s*(true|false|null|[0-9]+|"\w*|\{\s*(}|"\w+)|\[\s*)"#).unwrap();
   static ref XMLREGEXP2: Regex = Regex::new(r#"^\s*<\w+\s*(:\w+=["”][^"”]+["”])?.*"#).unwrap();
 }
-- 
2.43.0


From 68c0243c1d452dc394e22bf1fda8546eacf93c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 031/115] fix: display all bytes of a binary body with two hex
 digits

---
 rust/pact_models/src/bodies.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/bodies.rs b/rust/pact_models/src/bodies.rs
index 60e0628..d831e5a 100644
--- a/rust/pact_models/src/bodies.rs
+++ b/rust/pact_models/src/bodies.rs
@@ -189,13 +189,13 @@ impl OptionalBody {
   pub(crate) fn display_bytes(&self, max_bytes: usize) -> String {
     if let OptionalBody::Present(bytes, _, _) = self {
       if bytes.len() <= max_bytes {
-        let b_str: String = bytes.iter().map(|b| format!("{:0X}", b)).collect();
+        let b_str: String = bytes.iter().map(|b| format!("{:02X}", b)).collect();
         format!("{} ({} bytes)", b_str, bytes.len())
       } else {
         let b_str: String = bytes
           .slice(0..max_bytes)
           .iter()
-          .map(|b| format!("{:0X}", b))
+          .map(|b| format!("{:02X}", b))
           .collect();
         format!("{}... ({} bytes)", b_str, bytes.len())
       }
-- 
2.43.0


From 4c1658f47e8b3307c2b4eda130b4ad11bfeca176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:12 +0000
Subject: [PATCH 032/115] fix: read, merge and replace an existing pact file
 under one exclusive lock

---
 rust/pact_models/src/pact.rs | 67 ++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 26 deletions(-)

diff --git a/rust/pact_models/src/pact.rs b/rust/pact_models/src/pact.rs
index f030933..5dcb323 100644
--- a/rust/pact_models/src/pact.rs
+++ b/rust/pact_models/src/pact.rs
@@ -148,7 +148,12 @@ pub fn read_pact_from_file(file: &mut File, path: &Path) -> anyhow::Result<Box<d
     f.read_to_string(&mut buf)?;
     Ok(buf)
   })?;
-  let pact_json = serde_json::from_str(&buf)
+  parse_pact_file(path, &buf)
+}
+
+#[cfg(not(target_family = "wasm"))]
+fn parse_pact_file(path: &Path, buf: &str) -> anyhow::Result<Box<dyn Pact + Send + Sync + RefUnwindSafe>> {
+  let pact_json = serde_json::from_str(buf)
     .context("Failed to parse Pact JSON")
     .map_err(|err| {
       error!("read_pact_from_file: {}", err);
@@ -223,34 +228,44 @@ pub fn write_pact(
 ) -> anyhow::Result<()> {
   fs::create_dir_all(path.parent().unwrap())?;
   let _lock = WRITE_LOCK.lock().unwrap();
-  if !overwrite && path.exists() {
-    debug!("Merging pact with file {:?}", path);
-    let mut f = fs::OpenOptions::new().read(true).write(true).open(&path)?;
-    let existing_pact = read_pact_from_file(&mut f, path)?;
-
-    if existing_pact.specification_version() < pact.specification_version() {
-      warn!("Note: Existing pact is an older specification version ({:?}), and will be upgraded",
-            existing_pact.specification_version());
+  let new_pact = if overwrite || !path.exists() {
+    debug!("Writing new pact file to {:?}", path);
+    Some(serde_json::to_string_pretty(&pact.to_json(pact_spec)?)?)
+  } else {
+    None
+  };
+
+  // The existing pact must be read and replaced under the same exclusive lock, and the file must
+  // not be truncated before there is something to write to it, otherwise what other processes
+  // wrote is lost
+  let mut file = fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path)?;
+  with_write_lock(path, &mut file, 3, &mut |f| {
+    let mut buf = String::new();
+    if !overwrite {
+      f.read_to_string(&mut buf)?;
     }
+    let pact_json = if !buf.is_empty() {
+      debug!("Merging pact with file {:?}", path);
+      let existing_pact = parse_pact_file(path, &buf)?;
 
-    let merged_pact = pact.merge(existing_pact.deref())?;
-    let pact_json = serde_json::to_string_pretty(&merged_pact.to_json(pact_spec)?)?;
+      if existing_pact.specification_version() < pact.specification_version() {
+        warn!("Note: Existing pact is an older specification version ({:?}), and will be upgraded",
+              existing_pact.specification_version());
+      }
 
-    with_write_lock(path, &mut f, 3, &mut |f| {
-      f.set_len(0)?;
-      f.seek(SeekFrom::Start(0))?;
-      f.write_all(pact_json.as_bytes())?;
-      Ok(())
-    })
-  } else {
-    debug!("Writing new pact file to {:?}", path);
-    let result = serde_json::to_string_pretty(&pact.to_json(pact_spec)?)?;
-    let mut file = File::create(path)?;
-    with_write_lock(path, &mut file, 3, &mut |f| {
-      f.write_all(result.as_bytes())?;
-      Ok(())
-    })
-  }
+      let merged_pact = pact.merge(existing_pact.deref())?;
+      serde_json::to_string_pretty(&merged_pact.to_json(pact_spec)?)?
+    } else if let Some(new_pact) = &new_pact {
+      new_pact.clone()
+    } else {
+      serde_json::to_string_pretty(&pact.to_json(pact_spec)?)?
+    };
+
+    f.set_len(0)?;
+    f.seek(SeekFrom::Start(0))?;
+    f.write_all(pact_json.as_bytes())?;
+    Ok(())
+  })
 }
 
 
-- 
2.43.0


From 5add8287524eb75c36c7fc44bef9706b1c8e9426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 033/115] fix: hash maps in a fixed order, so that equal
 interactions have the same key

---
 rust/pact_models/src/generators/mod.rs    |  3 ++-
 rust/pact_models/src/matchingrules/mod.rs |  6 ++++--
 rust/pact_models/src/provider_states.rs   | 18 +++++-------------
 rust/pact_models/src/v4/async_message.rs  |  7 +++++--
 4 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 953e3cd..42e8f73 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -361,7 +361,8 @@ impl Hash for Generator {
         for (index, rules, generators) in variants {
           index.hash(state);
           rules.hash(state);
-          for (s, g) in generators {
+          for (s, g) in generators.iter()
+            .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
             s.hash(state);
             g.hash(state);
           }
diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index b063e6c..3a51fa7 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -604,7 +604,8 @@ impl Hash for MatchingRule {
         for (index, rules, generators) in variants {
           index.hash(state);
           rules.hash(state);
-          for (s, g) in generators {
+          for (s, g) in generators.iter()
+            .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
             s.hash(state);
             g.hash(state);
           }
@@ -1467,7 +1468,8 @@ impl MatchingRules {
 impl Hash for MatchingRules {
   fn hash<H: Hasher>(&self, state: &mut H) {
     for (k, v) in self.rules.iter()
-      .filter(|(_, cat)| cat.is_not_empty()) {
+      .filter(|(_, cat)| cat.is_not_empty())
+      .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       k.hash(state);
       v.hash(state);
     }
diff --git a/rust/pact_models/src/provider_states.rs b/rust/pact_models/src/provider_states.rs
index e218bac..a687c29 100644
--- a/rust/pact_models/src/provider_states.rs
+++ b/rust/pact_models/src/provider_states.rs
@@ -5,11 +5,13 @@ use std::cmp::Eq;
 use std::collections::HashMap;
 use std::hash::{Hash, Hasher};
 
+use itertools::Itertools;
 use maplit::*;
 use serde::{Deserialize, Serialize};
 use serde_json::*;
 use tracing::warn;
 
+use crate::json_utils::hash_json;
 use crate::PactSpecification;
 use crate::verify_json::{json_type_of, PactFileVerificationResult, PactJsonVerifier, ResultLevel};
 
@@ -100,20 +102,10 @@ impl ProviderState {
 impl Hash for ProviderState {
   fn hash<H: Hasher>(&self, state: &mut H) {
     self.name.hash(state);
-    for (k, v) in self.params.clone() {
+    for (k, v) in self.params.iter()
+      .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       k.hash(state);
-      match v {
-        Value::Number(n) => if n.is_u64() {
-          n.as_u64().unwrap().hash(state)
-        } else if n.is_i64() {
-          n.as_i64().unwrap().hash(state)
-        } else if n.is_f64() {
-          n.as_f64().unwrap().to_string().hash(state)
-        },
-        Value::String(s) => s.hash(state),
-        Value::Bool(b) => b.hash(state),
-        _ => ()
-      }
+      hash_json(v, state);
     }
   }
 }
diff --git a/rust/pact_models/src/v4/async_message.rs b/rust/pact_models/src/v4/async_message.rs
index d6961d0..40b9685 100644
--- a/rust/pact_models/src/v4/async_message.rs
+++ b/rust/pact_models/src/v4/async_message.rs
@@ -9,6 +9,7 @@ use std::panic::RefUnwindSafe;
 use std::sync::{Arc, Mutex};
 
 use anyhow::anyhow;
+use itertools::Itertools;
 use maplit::hashmap;
 use serde_json::{json, Map, Value};
 use tracing::warn;
@@ -448,7 +449,8 @@ impl Hash for AsynchronousMessage {
     self.description.hash(state);
     self.provider_states.hash(state);
     self.contents.contents.hash(state);
-    for (k, v) in &self.contents.metadata {
+    for (k, v) in self.contents.metadata.iter()
+      .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       k.hash(state);
       hash_json(v, state);
     }
@@ -510,7 +512,8 @@ impl HttpPart for AsynchronousMessage {
 #[cfg(test)]
 mod tests {
   use expectest::prelude::*;
-  use maplit::hashmap;
+  use itertools::Itertools;
+use maplit::hashmap;
   use pretty_assertions::{assert_eq, assert_ne};
   use serde_json::{json, Value};
 
-- 
2.43.0


From b1951e24f14bc82801735c5386748b05b575572c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 034/115] fix: include the contents of JSON values and matching
 rules in hashes

---
 rust/pact_models/src/json_utils.rs            | 20 +++++++++++++------
 rust/pact_models/src/lib.rs                   |  2 +-
 .../src/matchingrules/expressions.rs          |  6 +++---
 rust/pact_models/src/matchingrules/mod.rs     |  2 ++
 4 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 586994d..552d49b 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -92,14 +92,22 @@ pub fn hash_json<H: Hasher>(v: &Value, state: &mut H) {
       }
     }
     Value::String(s) => s.hash(state),
-    Value::Array(values) => for value in values {
-      hash_json(value, state);
+    Value::Array(values) => {
+      '['.hash(state);
+      values.len().hash(state);
+      for value in values {
+        hash_json(value, state);
+      }
     }
-    Value::Object(map) => for (k, v) in map {
-      k.hash(state);
-      hash_json(v, state);
+    Value::Object(map) => {
+      '{'.hash(state);
+      map.len().hash(state);
+      for (k, v) in map {
+        k.hash(state);
+        hash_json(v, state);
+      }
     }
-    _ => ()
+    Value::Null => "null".hash(state)
   }
 }
 
diff --git a/rust/pact_models/src/lib.rs b/rust/pact_models/src/lib.rs
index e4efabe..b12b90f 100644
--- a/rust/pact_models/src/lib.rs
+++ b/rust/pact_models/src/lib.rs
@@ -341,7 +341,7 @@ pub enum DifferenceType {
 }
 
 /// Enum that defines the different types of HTTP statuses
-#[derive(Debug, Clone, Deserialize, Serialize, Ord, PartialOrd, Eq, PartialEq)]
+#[derive(Debug, Clone, Deserialize, Serialize, Ord, PartialOrd, Eq, PartialEq, Hash)]
 pub enum HttpStatus {
   /// Informational responses (100–199)
   Information,
diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index f6de6eb..5732531 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -126,7 +126,7 @@ use crate::matchingrules::MatchingRule;
 use crate::matchingrules::MatchingRule::{MaxType, MinType, NotEmpty};
 
 /// Type to associate with an expression element
-#[derive(Debug, Copy, Clone, PartialEq, Eq)]
+#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
 pub enum ValueType {
   Unknown,
   String,
@@ -185,14 +185,14 @@ impl Into<DataType> for ValueType {
 }
 
 /// Reference to another attribute that defines the structure of the matching rule
-#[derive(Clone, Debug, PartialEq, Eq)]
+#[derive(Clone, Debug, PartialEq, Eq, Hash)]
 pub struct MatchingReference {
   /// Name of the attribute that the reference is to
   pub name: String
 }
 
 /// Matching rule definition constructed from parsing a matching rule definition expression
-#[derive(Clone, Debug, PartialEq, Eq)]
+#[derive(Clone, Debug, PartialEq, Eq, Hash)]
 pub struct MatchingRuleDefinition {
   pub value: String,
   pub value_type: ValueType,
diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 3a51fa7..a42bbb8 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -600,6 +600,8 @@ impl Hash for MatchingRule {
       MatchingRule::Date(format) => format.hash(state),
       MatchingRule::Include(str) => str.hash(state),
       MatchingRule::ContentType(str) => str.hash(state),
+      MatchingRule::StatusCode(status) => status.hash(state),
+      MatchingRule::EachKey(definition) | MatchingRule::EachValue(definition) => definition.hash(state),
       MatchingRule::ArrayContains(variants) => {
         for (index, rules, generators) in variants {
           index.hash(state);
-- 
2.43.0


From a69ae829da55f2d43081be8a77d55cce8c72895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:06 +0000
Subject: [PATCH 035/115] fix: detect the content type of a message if the one
 in the metadata can not be parsed

---
 rust/pact_models/src/message.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/message.rs b/rust/pact_models/src/message.rs
index b5ada00..9376802 100644
--- a/rust/pact_models/src/message.rs
+++ b/rust/pact_models/src/message.rs
@@ -296,7 +296,8 @@ impl Message {
         let key = k.to_ascii_lowercase();
         key == "contenttype" || key == "content-type"
       }) {
-        Some((_, v)) => ContentType::parse(json_to_string(&v).as_str()).ok(),
+        Some((_, v)) => ContentType::parse(json_to_string(&v).as_str()).ok()
+          .or_else(|| self.detect_content_type()),
         None => self.detect_content_type()
       }
     }
-- 
2.43.0


From 42fbe5d81b9f77ac336100fcba62a6fa7ed556a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:35 +0000
Subject: [PATCH 036/115] fix: random integer generator panicked on an empty
 range and never generated the largest integer

---
 rust/pact_models/src/generators/mod.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 42e8f73..d0ae315 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -820,6 +820,14 @@ pub fn generate_hexadecimal(digits: usize) -> String {
   HEX_CHARSET.chars().choose_multiple(&mut rnd, digits).iter().join("")
 }
 
+fn random_int(min: i32, max: i32) -> anyhow::Result<i32> {
+  if min <= max {
+    Ok(rand::thread_rng().gen_range(min..=max))
+  } else {
+    Err(anyhow!("Could not generate a random integer as {}..{} is not a valid range", min, max))
+  }
+}
+
 impl GenerateValue<u16> for Generator {
   fn generate_value(
     &self,
@@ -828,7 +836,11 @@ impl GenerateValue<u16> for Generator {
     _matcher: &Box<dyn VariantMatcher + Send + Sync>
   ) -> anyhow::Result<u16> {
     match self {
-      &Generator::RandomInt(min, max) => Ok(rand::thread_rng().gen_range(min as u16..(max as u16).saturating_add(1))),
+      Generator::RandomInt(min, max) => {
+        // Only the part of the range that can be represented by a u16 can be generated
+        let (min, max) = ((*min).max(0), (*max).min(u16::MAX as i32));
+        random_int(min, max).map(|val| val as u16)
+      },
       &Generator::ProviderStateGenerator(ref exp, ref dt) => {
         // Provider state values may come under a "providerState" key
         let provider_state_config = if let Some(Object(psc)) = context.get("providerState") {
@@ -883,7 +895,7 @@ impl GenerateValue<String> for Generator {
   ) -> anyhow::Result<String> {
     let mut rnd = rand::thread_rng();
     let result = match self {
-      Generator::RandomInt(min, max) => Ok(format!("{}", rnd.gen_range(*min..max.saturating_add(1)))),
+      Generator::RandomInt(min, max) => random_int(*min, *max).map(|val| val.to_string()),
       Generator::Uuid(format) => match format.unwrap_or_default() {
         UuidFormat::Simple => Ok(Uuid::new_v4().as_simple().to_string()),
         UuidFormat::LowerCaseHyphenated => Ok(Uuid::new_v4().as_hyphenated().to_string()),
@@ -1044,7 +1056,7 @@ impl GenerateValue<Value> for Generator {
     debug!(context = ?context, "Generating value from {:?}", self);
     let result = match self {
       Generator::RandomInt(min, max) => {
-        let rand_int = rand::thread_rng().gen_range(*min..max.saturating_add(1));
+        let rand_int = random_int(*min, *max)?;
         match value {
           Value::String(_) => Ok(json!(format!("{}", rand_int))),
           Value::Number(_) => Ok(json!(rand_int)),
-- 
2.43.0


From ef1ceb578726f13d3e550c3f07de80906e182987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 037/115] fix: UUID generator ignored the format when the
 example was not a string

---
 rust/pact_models/src/generators/mod.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index d0ae315..7d9a47d 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -1063,14 +1063,11 @@ impl GenerateValue<Value> for Generator {
           _ => Ok(json!(rand_int))
         }
       },
-      Generator::Uuid(format) => match value {
-        Value::String(_) => match format.unwrap_or_default() {
-          UuidFormat::Simple => Ok(json!(Uuid::new_v4().as_simple().to_string())),
-          UuidFormat::LowerCaseHyphenated => Ok(json!(Uuid::new_v4().as_hyphenated().to_string())),
-          UuidFormat::UpperCaseHyphenated => Ok(json!(Uuid::new_v4().as_hyphenated().to_string().to_uppercase())),
-          UuidFormat::Urn => Ok(json!(Uuid::new_v4().as_urn().to_string()))
-        },
-        _ => Ok(json!(Uuid::new_v4().as_hyphenated().to_string()))
+      Generator::Uuid(format) => match format.unwrap_or_default() {
+        UuidFormat::Simple => Ok(json!(Uuid::new_v4().as_simple().to_string())),
+        UuidFormat::LowerCaseHyphenated => Ok(json!(Uuid::new_v4().as_hyphenated().to_string())),
+        UuidFormat::UpperCaseHyphenated => Ok(json!(Uuid::new_v4().as_hyphenated().to_string().to_uppercase())),
+        UuidFormat::Urn => Ok(json!(Uuid::new_v4().as_urn().to_string()))
       },
       Generator::RandomDecimal(digits) => match value {
         Value::String(_) => Ok(json!(generate_decimal(*digits as usize))),
-- 
2.43.0


From 0f101b45c3d051dbee873fe7c0f66f7fd04204c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 038/115] fix: random hexadecimal generator did not generate
 more than 16 digits or repeat a digit

---
 rust/pact_models/src/generators/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 7d9a47d..236cf40 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -817,7 +817,8 @@ pub fn generate_decimal(digits: usize) -> String {
 const HEX_CHARSET: &str = "0123456789ABCDEF";
 pub fn generate_hexadecimal(digits: usize) -> String {
   let mut rnd = rand::thread_rng();
-  HEX_CHARSET.chars().choose_multiple(&mut rnd, digits).iter().join("")
+  let chars: Vec<char> = HEX_CHARSET.chars().collect();
+  (0..digits).map(|_| chars[rnd.gen_range(0..chars.len())]).collect()
 }
 
 fn random_int(min: i32, max: i32) -> anyhow::Result<i32> {
-- 
2.43.0


From c568d8d42102b0669cb2b440d2c34b347c290a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 039/115] fix: random decimal generator gave null for a number
 that is too large

---
 rust/pact_models/src/generators/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 236cf40..2b496df 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -1073,7 +1073,8 @@ impl GenerateValue<Value> for Generator {
       Generator::RandomDecimal(digits) => match value {
         Value::String(_) => Ok(json!(generate_decimal(*digits as usize))),
         Value::Number(_) => match generate_decimal(*digits as usize).parse::<f64>() {
-          Ok(val) => Ok(json!(val)),
+          Ok(val) if val.is_finite() => Ok(json!(val)),
+          Ok(_) => Err(anyhow!("Could not generate a random decimal from {} - {} digits is too large for a number", value, digits)),
           Err(err) => Err(anyhow!("Could not generate a random decimal from {} - {}", value, err))
         },
         _ => Ok(json!(generate_decimal(*digits as usize)))
-- 
2.43.0


From 8c67ff14a42512beccdf6fafc7f5d7e221894440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 040/115] fix: regex generator failed for an expression with an
 anchor on one side only or ending with an escaped $

---
 rust/pact_models/src/generators/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 2b496df..001ce11 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -867,9 +867,12 @@ pub fn generate_ascii_string(size: usize) -> String {
 }
 
 fn strip_anchors(regex: &str) -> &str {
-  regex
-    .strip_prefix('^').unwrap_or(regex)
-    .strip_suffix('$').unwrap_or(regex)
+  let regex = regex.strip_prefix('^').unwrap_or(regex);
+  match regex.strip_suffix('$') {
+    // An odd number of backslashes before the '$' means that it is escaped
+    Some(stripped) if stripped.bytes().rev().take_while(|b| *b == b'\\').count() % 2 == 0 => stripped,
+    _ => regex
+  }
 }
 
 #[cfg(not(target_family = "wasm"))]
-- 
2.43.0


From 3d521399e260c6416fe1e4ae955e0959e23e15a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 041/115] fix: mock server URL generator panicked when the
 regular expression has no capture group

---
 rust/pact_models/src/generators/mod.rs | 28 ++++++++++++++++----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 001ce11..04ab416 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -876,18 +876,24 @@ fn strip_anchors(regex: &str) -> &str {
 }
 
 #[cfg(not(target_family = "wasm"))]
-fn replace_with_regex(example: &String, url: String, re: Regex) -> String {
-  re.replace(example, |caps: &Captures| {
-    format!("{}{}", url, caps.at(1).unwrap())
-  }).to_string()
+fn replace_with_regex(example: &String, url: String, re: Regex) -> anyhow::Result<String> {
+  if re.captures_len() < 1 {
+    return Err(anyhow!("MockServerURL: the regular expression has no capture group"));
+  }
+  Ok(re.replace(example, |caps: &Captures| {
+    format!("{}{}", url, caps.at(1).unwrap_or_default())
+  }).to_string())
 }
 
 #[cfg(target_family = "wasm")]
-fn replace_with_regex(example: &String, url: String, re: Regex) -> String {
-  re.replace(example, |caps: &Captures| {
-    let m = caps.get(1).unwrap();
-    format!("{}{}", url, m.as_str())
-  }).to_string()
+fn replace_with_regex(example: &String, url: String, re: Regex) -> anyhow::Result<String> {
+  // The regex crate also counts the group for the whole match
+  if re.captures_len() < 2 {
+    return Err(anyhow!("MockServerURL: the regular expression has no capture group"));
+  }
+  Ok(re.replace(example, |caps: &Captures| {
+    format!("{}{}", url, caps.get(1).map(|m| m.as_str()).unwrap_or_default())
+  }).to_string())
 }
 
 impl GenerateValue<String> for Generator {
@@ -1021,7 +1027,7 @@ impl GenerateValue<String> for Generator {
           Some(mock_server_details) => {
             match get_field_as_string("url", mock_server_details) {
               Some(url) => match Regex::new(regex) {
-                Ok(re) => Ok(replace_with_regex(example, url, re)),
+                Ok(re) => replace_with_regex(example, url, re),
                 Err(err) => Err(anyhow!("MockServerURL: Failed to generate value: {}", err))
               },
               None => Err(anyhow!("MockServerURL: can not generate a value as there is no mock server 'url' in the test context {:?}", context))
@@ -1201,7 +1207,7 @@ impl GenerateValue<Value> for Generator {
               match get_field_as_string("url", mock_server_details)
                 .or_else(|| get_field_as_string("href", mock_server_details)) {
                 Some(url) => match Regex::new(regex) {
-                  Ok(re) => Ok(Value::String(replace_with_regex(example, url, re))),
+                  Ok(re) => replace_with_regex(example, url, re).map(Value::String),
                   Err(err) => Err(anyhow!("MockServerURL: Failed to generate value: {}", err))
                 },
                 None => Err(anyhow!("MockServerURL: can not generate a value as there is no mock server URL in the test context"))
-- 
2.43.0


From 29e14642c0bcf1305d942f62508c8c8774fe2d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 042/115] fix: date generator panicked when the format has time
 fields

---
 rust/pact_models/src/generators/mod.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 04ab416..3331244 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -943,10 +943,7 @@ impl GenerateValue<String> for Generator {
           let date = execute_date_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => {
-                #[allow(deprecated)]
-                Ok(date.date().format(&to_chrono_pattern(&tokens)).to_string())
-              },
+              Ok(tokens) => Ok(date.format(&to_chrono_pattern(&tokens)).to_string()),
               Err(err) => {
                 warn!("Date format {} is not valid - {}", pattern, err);
                 Err(anyhow!("Date format {} is not valid - {}", pattern, err))
@@ -1118,10 +1115,7 @@ impl GenerateValue<Value> for Generator {
           let date = execute_date_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => {
-                #[allow(deprecated)]
-                Ok(json!(date.date().format(&to_chrono_pattern(&tokens)).to_string()))
-              },
+              Ok(tokens) => Ok(json!(date.format(&to_chrono_pattern(&tokens)).to_string())),
               Err(err) => {
                 warn!("Date format {} is not valid - {}", pattern, err);
                 Err(anyhow!("Could not generate a random date from {} - {}", pattern, err))
-- 
2.43.0


From e7b8ed319567166de425fd8964043e02fb2001fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 043/115] fix: generator attributes that are too large wrapped
 around to other values

---
 rust/pact_models/src/json_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 552d49b..148c917 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -28,7 +28,7 @@ impl JsonToNum<i32> for i32 {
     match map.get(field) {
       Some(Value::Number(num)) => {
          match num.as_i64() {
-          Some(num) => num as i32,
+          Some(num) => num.clamp(i32::MIN as i64, i32::MAX as i64) as i32,
           None => default
         }
       },
@@ -42,7 +42,7 @@ impl JsonToNum<u16> for u16 {
     match map.get(field) {
       Some(Value::Number(num)) => {
         match num.as_u64() {
-          Some(num) => num as u16,
+          Some(num) => num.min(u16::MAX as u64) as u16,
           None => default
         }
       },
-- 
2.43.0


From aec460659c42c9e6dfaf7197bb9df06a45fccf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 044/115] fix: expression with a closing brace before the first
 reference panicked

---
 rust/pact_models/src/expression_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/expression_parser.rs b/rust/pact_models/src/expression_parser.rs
index 617fada..296bfb2 100644
--- a/rust/pact_models/src/expression_parser.rs
+++ b/rust/pact_models/src/expression_parser.rs
@@ -382,7 +382,8 @@ fn replace_expressions(value: &str, value_resolver: &dyn ValueResolver<Value>) -
     if index > 0 {
       result.push(json!(&buffer[0..index]));
     }
-    let end_position = buffer.find('}')
+    let end_position = buffer[index..].find('}')
+      .map(|pos| pos + index)
       .ok_or_else(|| anyhow!("Missing closing brace in expression string '{}'", value))?;
     if end_position - index > 2 {
       let lookup_key = &buffer[(index + 2)..end_position];
-- 
2.43.0


From 901bbe8ef300155f47a2e9b6d840b88176c7b4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 045/115] fix: negative integers could not be generated from a
 string

---
 rust/pact_models/src/expression_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/expression_parser.rs b/rust/pact_models/src/expression_parser.rs
index 296bfb2..baeae39 100644
--- a/rust/pact_models/src/expression_parser.rs
+++ b/rust/pact_models/src/expression_parser.rs
@@ -106,7 +106,8 @@ impl DataValue {
         } else {
           Err(anyhow!("Internal Error: Number is neither u64, i64, or f64"))
         }
-        Value::String(s) => s.parse::<usize>().map(|val| json!(val))
+        Value::String(s) => s.parse::<i64>().map(|val| json!(val))
+          .or_else(|err| s.parse::<u64>().map(|val| json!(val)).map_err(|_| err))
           .map_err(|err| anyhow!("Number can not be generated from '{}' - {}", self.wrapped, err)),
         Value::Array(_) | Value::Object(_) => Err(anyhow!("Number can not be generated from '{}'", self.wrapped))
       },
-- 
2.43.0


From af095f19730b570060edf13d0d2c528bb0b94ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 046/115] fix: provider state numbers that do not fit the data
 type wrapped around

---
 rust/pact_models/src/expression_parser.rs | 45 +++++++++++++++--------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/rust/pact_models/src/expression_parser.rs b/rust/pact_models/src/expression_parser.rs
index baeae39..8112a5f 100644
--- a/rust/pact_models/src/expression_parser.rs
+++ b/rust/pact_models/src/expression_parser.rs
@@ -102,7 +102,7 @@ impl DataValue {
         } else if let Some(n) = n.as_i64() {
           Ok(json!(n))
         } else if let Some(n) = n.as_f64() {
-          Ok(json!(n as i64))
+          float_to_integer::<i64>(n).map(|n| json!(n))
         } else {
           Err(anyhow!("Internal Error: Number is neither u64, i64, or f64"))
         }
@@ -127,8 +127,11 @@ impl DataValue {
         } else {
           Err(anyhow!("Internal Error: Number is neither u64, i64, or f64"))
         },
-        Value::String(s) => s.parse::<f64>().map(|val| json!(val))
-          .map_err(|err| anyhow!("Floating point number can not be generated from '{}' - {}", self.wrapped, err)),
+        Value::String(s) => match s.parse::<f64>() {
+          Ok(val) if val.is_finite() => Ok(json!(val)),
+          Ok(_) => Err(anyhow!("Floating point number can not be generated from '{}'", self.wrapped)),
+          Err(err) => Err(anyhow!("Floating point number can not be generated from '{}' - {}", self.wrapped, err))
+        },
         Value::Array(_) | Value::Object(_) => Err(anyhow!("Number can not be generated from '{}'", self.wrapped))
       },
       DataType::RAW => Ok(self.wrapped.clone()),
@@ -152,6 +155,16 @@ impl DataValue {
   }
 }
 
+/// Converts the floating point number to an integer, dropping any fraction
+fn float_to_integer<T: TryFrom<i128>>(value: f64) -> anyhow::Result<T> {
+  if value.is_finite() {
+    // The cast saturates, but the limits of an i128 are outside the range of all the target types
+    T::try_from(value as i128).map_err(|_| anyhow!("{} is out of range", value))
+  } else {
+    Err(anyhow!("{} is not a number", value))
+  }
+}
+
 impl TryFrom<DataValue> for u16 {
   type Error = anyhow::Error;
 
@@ -164,11 +177,11 @@ impl TryFrom<DataValue> for u16 {
         Ok(0)
       }
       Value::Number(n) => if let Some(n) = n.as_u64() {
-        Ok(n as u16)
+        u16::try_from(n).map_err(|err| anyhow!("u16 can not be generated from {} - {}", n, err))
       } else if let Some(n) = n.as_i64() {
-        Ok(n as u16)
+        u16::try_from(n).map_err(|err| anyhow!("u16 can not be generated from {} - {}", n, err))
       } else if let Some(n) = n.as_f64() {
-        Ok(n as u16)
+        float_to_integer(n)
       } else {
         Ok(0)
       }
@@ -176,8 +189,8 @@ impl TryFrom<DataValue> for u16 {
         DataType::INTEGER | DataType::RAW | DataType::STRING => s.parse::<u16>()
           .map_err(|err| anyhow!("u16 can not be generated from '{}' - {}", s, err)),
         DataType::DECIMAL | DataType::FLOAT => s.parse::<f64>()
-          .map(|val| val as u16)
-          .map_err(|err| anyhow!("u16 can not be generated from '{}' - {}", s, err)),
+          .map_err(|err| anyhow!("u16 can not be generated from '{}' - {}", s, err))
+          .and_then(float_to_integer),
         _ => Err(anyhow!("u16 can not be generated from {}", value.wrapped))
       },
       _ => Err(anyhow!("u16 can not be generated from {}", value.wrapped))
@@ -199,9 +212,9 @@ impl TryFrom<DataValue> for u64 {
       Value::Number(n) => if let Some(n) = n.as_u64() {
         Ok(n)
       } else if let Some(n) = n.as_i64() {
-        Ok(n as u64)
+        u64::try_from(n).map_err(|err| anyhow!("u64 can not be generated from {} - {}", n, err))
       } else if let Some(n) = n.as_f64() {
-        Ok(n as u64)
+        float_to_integer(n)
       } else {
         Ok(0)
       }
@@ -209,8 +222,8 @@ impl TryFrom<DataValue> for u64 {
         DataType::INTEGER | DataType::RAW | DataType::STRING => s.parse::<u64>()
           .map_err(|err| anyhow!("u64 can not be generated from '{}' - {}", s, err)),
         DataType::DECIMAL | DataType::FLOAT => s.parse::<f64>()
-          .map(|val| val as u64)
-          .map_err(|err| anyhow!("u64 can not be generated from '{}' - {}", s, err)),
+          .map_err(|err| anyhow!("u64 can not be generated from '{}' - {}", s, err))
+          .and_then(float_to_integer),
         _ => Err(anyhow!("u64 can not be generated from {}", value.wrapped))
       },
       _ => Err(anyhow!("u64 can not be generated from {}", value.wrapped))
@@ -230,11 +243,11 @@ impl TryFrom<DataValue> for i64 {
         Ok(0)
       }
       Value::Number(n) => if let Some(n) = n.as_u64() {
-        Ok(n as i64)
+        i64::try_from(n).map_err(|err| anyhow!("i64 can not be generated from {} - {}", n, err))
       } else if let Some(n) = n.as_i64() {
         Ok(n)
       } else if let Some(n) = n.as_f64() {
-        Ok(n as i64)
+        float_to_integer(n)
       } else {
         Ok(0)
       }
@@ -242,8 +255,8 @@ impl TryFrom<DataValue> for i64 {
         DataType::INTEGER | DataType::RAW | DataType::STRING => s.parse::<i64>()
           .map_err(|err| anyhow!("i64 can not be generated from '{}' - {}", s, err)),
         DataType::DECIMAL | DataType::FLOAT => s.parse::<f64>()
-          .map(|val| val as i64)
-          .map_err(|err| anyhow!("i64 can not be generated from '{}' - {}", s, err)),
+          .map_err(|err| anyhow!("i64 can not be generated from '{}' - {}", s, err))
+          .and_then(float_to_integer),
         _ => Err(anyhow!("i64 can not be generated from {}", value.wrapped))
       },
       _ => Err(anyhow!("i64 can not be generated from {}", value.wrapped))
-- 
2.43.0


From 2fe50b7b82f9ed543fd15f5238f2c938553ea5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 047/115] fix: provider state generator panicked when the value
 can not be converted to the data type

---
 rust/pact_models/src/generators/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 3331244..4665a27 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -2,7 +2,7 @@
 
 use std::collections::HashMap;
 use std::convert::TryFrom;
-use std::fmt::{Debug, Display, Formatter};
+use std::fmt::{Debug, Display, Formatter, Write};
 use std::hash::{Hash, Hasher};
 use std::mem;
 use std::str::FromStr;
@@ -1016,7 +1016,12 @@ impl GenerateValue<String> for Generator {
         } else {
           context.clone()
         };
-        generate_value_from_context(exp, &provider_state_config, dt).map(|val| val.to_string())
+        generate_value_from_context(exp, &provider_state_config, dt).and_then(|val| {
+          let mut buffer = String::new();
+          write!(buffer, "{}", val)
+            .map(|_| buffer)
+            .map_err(|_| anyhow!("Could not convert the provider state value {} to {:?}", val.wrapped, val.data_type))
+        })
       }
       Generator::MockServerURL(example, regex) => if let Some(mock_server_details) = context.get("mockServer") {
         debug!("Generating URL from Mock Server details");
-- 
2.43.0


From ea4b7818550de26d2ea9d0f3f75f6b11ba70e60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 048/115] fix: names with / or ~ were not escaped in resolved
 JSON pointers

---
 rust/pact_models/src/json_utils.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 148c917..49efb7f 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -255,6 +255,11 @@ pub fn resolve_path(value: &Value, expression: &DocPath) -> Vec<String> {
   expanded_paths
 }
 
+/// Escapes the name for use in a JSON pointer
+fn escape_pointer(name: &str) -> String {
+  name.replace('~', "~0").replace('/', "~1")
+}
+
 fn query_object_graph(path_exp: &Vec<PathToken>, tree: &mut Arena<String>, root: NodeId, body: Value) {
   let mut body_cursor = body;
   let mut it = path_exp.iter();
@@ -267,7 +272,7 @@ fn query_object_graph(path_exp: &Vec<PathToken>, tree: &mut Arena<String>, root:
             match body_cursor.as_object() {
               Some(map) => match map.get(name) {
                 Some(val) => {
-                  node_cursor = node_cursor.append_value(name.clone(), tree);
+                  node_cursor = node_cursor.append_value(escape_pointer(name), tree);
                   body_cursor = val.clone();
                 },
                 None => return
@@ -289,7 +294,7 @@ fn query_object_graph(path_exp: &Vec<PathToken>, tree: &mut Arena<String>, root:
               Some(map) => {
                 let remaining = it.by_ref().cloned().collect();
                 for (key, val) in map {
-                  let node = node_cursor.append_value(key.clone(), tree);
+                  let node = node_cursor.append_value(escape_pointer(key), tree);
                   body_cursor = val.clone();
                   query_object_graph(&remaining, tree, node, val.clone());
                 }
-- 
2.43.0


From fb8135798a738530842c13c502f62fb707e66843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 049/115] fix: wildcards did not select values with an empty
 name

---
 rust/pact_models/src/json_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 49efb7f..85dc749 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -244,7 +244,7 @@ pub fn resolve_path(value: &Value, expression: &DocPath) -> Vec<String> {
   query_object_graph(expression.tokens(), &mut tree, root, value.clone());
   let expanded_paths = root.descendants(&tree).fold(Vec::<String>::new(), |mut acc, node_id| {
     let node = tree.index(node_id);
-    if !node.get().is_empty() && node.first_child().is_none() {
+    if node_id != root && node.first_child().is_none() {
       let path: Vec<String> = node_id.ancestors(&tree).map(|n| format!("{}", tree.index(n).get())).collect();
       if path.len() == expression.len() {
         acc.push(path.iter().rev().join("/"));
-- 
2.43.0


From 3c542046c0d462a0b4252ebcc6d712873ea92ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 050/115] fix: XML elements with a hyphen or dot in the name
 could not be resolved

---
 rust/pact_models/src/xml_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/xml_utils.rs b/rust/pact_models/src/xml_utils.rs
index e885580..18a0a55 100644
--- a/rust/pact_models/src/xml_utils.rs
+++ b/rust/pact_models/src/xml_utils.rs
@@ -203,7 +203,7 @@ pub fn text_nodes(element: &Element) -> Vec<String> {
 }
 
 lazy_static!{
-   static ref PATH_RE: Regex = Regex::new(r#"(\w+)\[(\d+)]"#).unwrap();
+   static ref PATH_RE: Regex = Regex::new(r#"^(.+)\[(\d+)]$"#).unwrap();
 }
 
 /// Enum to box the result value from resolve_matching_node
-- 
2.43.0


From 711f4fc748456583c13bb69254fb9663aac65b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 051/115] fix: generators were not applied to form parameters
 with a numeric name

---
 rust/pact_models/src/generators/form_urlencoded.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/generators/form_urlencoded.rs b/rust/pact_models/src/generators/form_urlencoded.rs
index 09ae0f2..d3437b2 100644
--- a/rust/pact_models/src/generators/form_urlencoded.rs
+++ b/rust/pact_models/src/generators/form_urlencoded.rs
@@ -48,7 +48,9 @@ impl ContentTypeHandler<String> for FormUrlEncodedHandler {
     let mut map: HashMap<String, usize> = HashMap::new();
     for (param_key, param_value) in self.params.iter_mut() {
       let index = map.entry(param_key.clone()).or_insert(0);
-      if key.eq(&DocPath::root().join(param_key.clone())) || key.eq(&DocPath::root().join(param_key.clone()).join_index(*index)) {
+      let mut param_path = DocPath::root();
+      param_path.push_field(param_key.as_str());
+      if key.eq(&param_path) || key.eq(&param_path.join_index(*index)) {
         return match generator.generate_value(&param_value, context, matcher) {
           Ok(new_value) => *param_value = new_value,
           Err(_) => ()
-- 
2.43.0


From b5bc8cea24ba5f4a65bc143f5c3b15ecb8360b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:34 +0000
Subject: [PATCH 052/115] fix: 12 o'clock in a time expression was ignored

---
 rust/pact_models/src/generators/datetime_expressions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/generators/datetime_expressions.rs b/rust/pact_models/src/generators/datetime_expressions.rs
index d22c6aa..96e9925 100644
--- a/rust/pact_models/src/generators/datetime_expressions.rs
+++ b/rust/pact_models/src/generators/datetime_expressions.rs
@@ -184,9 +184,9 @@ pub fn execute_time_expression<Tz: TimeZone>(dt: &DateTime<Tz>, expression: &str
       TimeBase::Midnight => time.with_hour(0).unwrap_or(dt.clone()),
       TimeBase::Noon => time.with_hour(12).unwrap_or(dt.clone()),
       TimeBase::Am { hour } => time.with_hour(hour as u32).unwrap_or(dt.clone()),
-      TimeBase::Pm { hour } => time.with_hour((12 + hour) as u32).unwrap_or(dt.clone()),
+      TimeBase::Pm { hour } => time.with_hour((12 + hour % 12) as u32).unwrap_or(dt.clone()),
       TimeBase::Next { hour } => if dt.hour() < 12 {
-        time.with_hour((12 + hour) as u32).unwrap_or(dt.clone())
+        time.with_hour((12 + hour % 12) as u32).unwrap_or(dt.clone())
       } else {
         time.with_hour(hour as u32).unwrap_or(dt.clone())
       }
-- 
2.43.0


From 750ec1d8d811d2ca81dafdb0a3fd1b9703479ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:34 +0000
Subject: [PATCH 053/115] fix: months and years in date expressions gave a
 wrong date at the end of a month

---
 .../src/generators/datetime_expressions.rs    | 76 +++++++++----------
 1 file changed, 34 insertions(+), 42 deletions(-)

diff --git a/rust/pact_models/src/generators/datetime_expressions.rs b/rust/pact_models/src/generators/datetime_expressions.rs
index 96e9925..971e908 100644
--- a/rust/pact_models/src/generators/datetime_expressions.rs
+++ b/rust/pact_models/src/generators/datetime_expressions.rs
@@ -62,7 +62,7 @@ use std::str::from_utf8;
 use anyhow::anyhow;
 use ariadne::{Config, Label, Report, ReportKind, Source};
 use bytes::{BytesMut, BufMut};
-use chrono::Duration;
+use chrono::{Duration, Months};
 use chrono::prelude::*;
 use logos::{Logos, Span};
 
@@ -251,12 +251,8 @@ fn forward_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date:
       .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
     DateOffsetType::WEEK => date.clone().add(Duration::try_weeks(adjustment.value as i64)
       .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::MONTH => roll_month(date, adjustment.value as i64),
-    DateOffsetType::YEAR => {
-      let date = date.clone();
-      let year = date.year();
-      date.with_year(year + adjustment.value as i32).unwrap_or(date)
-    },
+    DateOffsetType::MONTH => add_months(date, adjustment, 1)?,
+    DateOffsetType::YEAR => add_months(date, adjustment, 12)?,
     DateOffsetType::MONDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Mon),
     DateOffsetType::TUESDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Tue),
     DateOffsetType::WEDNESDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Wed),
@@ -317,36 +313,36 @@ fn adjust_date_down_to<Tz: TimeZone>(
   date
 }
 
-/// Rolls the month by the adjustment one day at a time
-fn roll_month<Tz: TimeZone>(date: &DateTime<Tz>, months: i64) -> DateTime<Tz> {
-  let mut date = date.clone();
-  let day = date.day();
-  let one_day_duration = Duration::try_days(1).unwrap(); // OK to unwrap, 1 will never overflow
-  let mut month_count = 0;
-
-  if months > 0 {
-    let mut month = date.month();
-    while month_count < months {
-      date = date.add(one_day_duration);
-      if date.month() != month {
-        month = date.month();
-        month_count += 1;
-      }
-    }
-    date.with_day(day).unwrap_or(date)
-  } else if months < 0 {
-    let mut month = date.month();
-    while month_count > months {
-      date = date.sub(one_day_duration);
-      if date.month() != month {
-        month = date.month();
-        month_count -= 1;
-      }
-    }
-    date.with_day(day).unwrap_or(date)
+/// Adds the adjustment value multiplied by the number of months. Returns an error if the resulting
+/// date is outside of the range of dates.
+fn add_months<Tz: TimeZone>(
+  date: &DateTime<Tz>,
+  adjustment: &Adjustment<DateOffsetType>,
+  months: i64
+) -> anyhow::Result<DateTime<Tz>> {
+  i64::try_from(adjustment.value).ok()
+    .and_then(|value| value.checked_mul(months))
+    .and_then(|months| checked_roll_month(date, months))
+    .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))
+}
+
+/// Rolls the month by the number of months. The day is changed to the last day of the month if there
+/// is no such day in the resulting month.
+fn checked_roll_month<Tz: TimeZone>(date: &DateTime<Tz>, months: i64) -> Option<DateTime<Tz>> {
+  let count = Months::new(u32::try_from(months.unsigned_abs()).ok()?);
+  let local = if months < 0 {
+    date.naive_local().checked_sub_months(count)?
   } else {
-    date
-  }
+    date.naive_local().checked_add_months(count)?
+  };
+  let zone = date.timezone();
+  zone.from_local_datetime(&local).earliest()
+    .or_else(|| local.checked_sub_offset(date.offset().fix()).map(|utc| zone.from_utc_datetime(&utc)))
+}
+
+#[cfg(test)]
+fn roll_month<Tz: TimeZone>(date: &DateTime<Tz>, months: i64) -> DateTime<Tz> {
+  checked_roll_month(date, months).unwrap()
 }
 
 fn reverse_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date: &DateTime<Tz>) -> anyhow::Result<DateTime<Tz>> {
@@ -355,12 +351,8 @@ fn reverse_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date:
       .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
     DateOffsetType::WEEK => date.clone().sub(Duration::try_weeks(adjustment.value as i64)
       .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::MONTH => roll_month(date, -(adjustment.value as i64)),
-    DateOffsetType::YEAR => {
-      let date = date.clone();
-      let year = date.year();
-      date.with_year(year - adjustment.value as i32).unwrap_or(date)
-    },
+    DateOffsetType::MONTH => add_months(date, adjustment, -1)?,
+    DateOffsetType::YEAR => add_months(date, adjustment, -12)?,
     DateOffsetType::MONDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Mon),
     DateOffsetType::TUESDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Tue),
     DateOffsetType::WEDNESDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Wed),
-- 
2.43.0


From 5a253bb8b53e6b8a99563a967f09556c19c0ae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:34 +0000
Subject: [PATCH 054/115] fix: date and time expressions with a large value
 panicked or went in the other direction

---
 .../src/generators/datetime_expressions.rs    | 49 ++++++++++---------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/rust/pact_models/src/generators/datetime_expressions.rs b/rust/pact_models/src/generators/datetime_expressions.rs
index 971e908..dcfbf20 100644
--- a/rust/pact_models/src/generators/datetime_expressions.rs
+++ b/rust/pact_models/src/generators/datetime_expressions.rs
@@ -196,24 +196,16 @@ pub fn execute_time_expression<Tz: TimeZone>(dt: &DateTime<Tz>, expression: &str
     for adjustment in &result.adjustments {
       date_time = match adjustment.operation {
         Operation::PLUS => match adjustment.adjustment_type {
-          TimeOffsetType::HOUR => date_time.add(Duration::try_hours(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MINUTE => date_time.add(Duration::try_minutes(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::SECOND => date_time.add(Duration::try_seconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MILLISECOND => date_time.add(Duration::try_milliseconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?)
+          TimeOffsetType::HOUR => in_bounds(adjustment, Duration::try_hours, |d| date_time.checked_add_signed(d))?,
+          TimeOffsetType::MINUTE => in_bounds(adjustment, Duration::try_minutes, |d| date_time.checked_add_signed(d))?,
+          TimeOffsetType::SECOND => in_bounds(adjustment, Duration::try_seconds, |d| date_time.checked_add_signed(d))?,
+          TimeOffsetType::MILLISECOND => in_bounds(adjustment, Duration::try_milliseconds, |d| date_time.checked_add_signed(d))?
         },
         Operation::MINUS => match adjustment.adjustment_type {
-          TimeOffsetType::HOUR => date_time.sub(Duration::try_hours(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MINUTE => date_time.sub(Duration::try_minutes(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::SECOND => date_time.sub(Duration::try_seconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MILLISECOND => date_time.sub(Duration::try_milliseconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?)
+          TimeOffsetType::HOUR => in_bounds(adjustment, Duration::try_hours, |d| date_time.checked_sub_signed(d))?,
+          TimeOffsetType::MINUTE => in_bounds(adjustment, Duration::try_minutes, |d| date_time.checked_sub_signed(d))?,
+          TimeOffsetType::SECOND => in_bounds(adjustment, Duration::try_seconds, |d| date_time.checked_sub_signed(d))?,
+          TimeOffsetType::MILLISECOND => in_bounds(adjustment, Duration::try_milliseconds, |d| date_time.checked_sub_signed(d))?
         }
       }
     }
@@ -245,12 +237,23 @@ pub fn execute_datetime_expression<Tz: TimeZone>(dt: &DateTime<Tz>, expression:
   }
 }
 
+/// Applies the duration with the adjustment value to a date-time. Returns an error if the duration or
+/// the resulting date-time is out of range.
+fn in_bounds<T, Tz: TimeZone>(
+  adjustment: &Adjustment<T>,
+  duration: fn(i64) -> Option<Duration>,
+  apply: impl FnOnce(Duration) -> Option<DateTime<Tz>>
+) -> anyhow::Result<DateTime<Tz>> {
+  i64::try_from(adjustment.value).ok()
+    .and_then(duration)
+    .and_then(apply)
+    .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))
+}
+
 fn forward_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date: &DateTime<Tz>) -> anyhow::Result<DateTime<Tz>> {
   Ok(match adjustment.adjustment_type {
-    DateOffsetType::DAY => date.clone().add(Duration::try_days(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::WEEK => date.clone().add(Duration::try_weeks(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
+    DateOffsetType::DAY => in_bounds(adjustment, Duration::try_days, |d| date.clone().checked_add_signed(d))?,
+    DateOffsetType::WEEK => in_bounds(adjustment, Duration::try_weeks, |d| date.clone().checked_add_signed(d))?,
     DateOffsetType::MONTH => add_months(date, adjustment, 1)?,
     DateOffsetType::YEAR => add_months(date, adjustment, 12)?,
     DateOffsetType::MONDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Mon),
@@ -347,10 +350,8 @@ fn roll_month<Tz: TimeZone>(date: &DateTime<Tz>, months: i64) -> DateTime<Tz> {
 
 fn reverse_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date: &DateTime<Tz>) -> anyhow::Result<DateTime<Tz>> {
   Ok(match adjustment.adjustment_type {
-    DateOffsetType::DAY => date.clone().sub(Duration::try_days(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::WEEK => date.clone().sub(Duration::try_weeks(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
+    DateOffsetType::DAY => in_bounds(adjustment, Duration::try_days, |d| date.clone().checked_sub_signed(d))?,
+    DateOffsetType::WEEK => in_bounds(adjustment, Duration::try_weeks, |d| date.clone().checked_sub_signed(d))?,
     DateOffsetType::MONTH => add_months(date, adjustment, -1)?,
     DateOffsetType::YEAR => add_months(date, adjustment, -12)?,
     DateOffsetType::MONDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Mon),
-- 
2.43.0


From 29534b4da3a04844ef48718d0360f93cfc0a6a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:59 +0000
Subject: [PATCH 055/115] fix: date and time expressions with an invalid last
 token were accepted

---
 .../src/generators/date_expression_parser.rs      | 15 ++++++++++-----
 .../src/generators/time_expression_parser.rs      | 15 ++++++++++-----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/rust/pact_models/src/generators/date_expression_parser.rs b/rust/pact_models/src/generators/date_expression_parser.rs
index 044942c..f76bf07 100644
--- a/rust/pact_models/src/generators/date_expression_parser.rs
+++ b/rust/pact_models/src/generators/date_expression_parser.rs
@@ -170,7 +170,7 @@ pub(crate) fn expression<'a>(lex: &mut Lexer<DateExpressionToken>, exp: &str) ->
   if let Some(Ok(token)) = lex.next() {
     if token.is_base() {
       date_base = base(lex, exp, &token)?;
-      if let Some(Ok(token)) = lex.next() {
+      if let Some(token) = next_token(lex, exp)? {
         if token.is_op() {
           adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
         } else {
@@ -186,7 +186,7 @@ pub(crate) fn expression<'a>(lex: &mut Lexer<DateExpressionToken>, exp: &str) ->
         value: v,
         operation: Operation::PLUS
       });
-      if let Some(Ok(token)) = lex.next() {
+      if let Some(token) = next_token(lex, exp)? {
         if token.is_op() {
           adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
         } else {
@@ -200,7 +200,7 @@ pub(crate) fn expression<'a>(lex: &mut Lexer<DateExpressionToken>, exp: &str) ->
         value: v,
         operation: Operation::MINUS
       });
-      if let Some(Ok(token)) = lex.next() {
+      if let Some(token) = next_token(lex, exp)? {
         if token.is_op() {
           adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
         } else {
@@ -225,16 +225,21 @@ pub(crate) fn expression<'a>(lex: &mut Lexer<DateExpressionToken>, exp: &str) ->
   }
 }
 
+/// Next token, if there is one. Returns an error if the text is not a valid token.
+fn next_token(lex: &mut Lexer<DateExpressionToken>, exp: &str) -> anyhow::Result<Option<DateExpressionToken>> {
+  lex.next().transpose().map_err(|_| error(exp, "no more tokens", Some(lex.span().clone())))
+}
+
 // op duration { if ($duration.d != null) $adj.add($duration.d.withOperation($op.o)); } ( op duration { if ($duration.d != null) $adj.add($duration.d.withOperation($op.o)); } )*
 fn adjustments(lex: &mut Lexer<DateExpressionToken>, exp: &str, token: &DateExpressionToken) -> anyhow::Result<Vec<Adjustment<DateOffsetType>>> {
   let mut results = vec![];
 
   results.push(adjustment(lex, exp, token)?);
-  while let Some(Ok(token)) = lex.next() {
+  while let Some(token) = next_token(lex, exp)? {
     if token.is_op() {
       results.push(adjustment(lex, exp, &token)?);
     } else {
-      break
+      return Err(error(exp, "+ or -", Some(lex.span().clone())));
     }
   }
 
diff --git a/rust/pact_models/src/generators/time_expression_parser.rs b/rust/pact_models/src/generators/time_expression_parser.rs
index c6d4ecd..69b4a99 100644
--- a/rust/pact_models/src/generators/time_expression_parser.rs
+++ b/rust/pact_models/src/generators/time_expression_parser.rs
@@ -103,7 +103,7 @@ pub(crate) fn expression(lex: &mut Lexer<TimeExpressionToken>, exp: &str) -> any
     if token.is_base() {
       let (tb, next) = base(lex, exp, token)?;
       time_base = tb;
-      if let Some(Ok(token)) = next.map(|next| Ok(next)).or_else(|| lex.next()) {
+      if let Some(token) = next.map_or_else(|| next_token(lex, exp), |next| Ok(Some(next)))? {
         if token.is_op() {
           let a = adjustments(lex, exp, token)?;
           adj.extend_from_slice(&*a);
@@ -121,7 +121,7 @@ pub(crate) fn expression(lex: &mut Lexer<TimeExpressionToken>, exp: &str) -> any
         value: 1,
         operation: Operation::PLUS
       });
-      if let Some(Ok(token)) = lex.next() {
+      if let Some(token) = next_token(lex, exp)? {
         if token.is_op() {
           let a = adjustments(lex, exp, token)?;
           adj.extend_from_slice(&*a);
@@ -136,7 +136,7 @@ pub(crate) fn expression(lex: &mut Lexer<TimeExpressionToken>, exp: &str) -> any
         value: 1,
         operation: Operation::MINUS
       });
-      if let Some(Ok(token)) = lex.next() {
+      if let Some(token) = next_token(lex, exp)? {
         if token.is_op() {
           let a = adjustments(lex, exp, token)?;
           adj.extend_from_slice(&*a);
@@ -219,6 +219,11 @@ fn oclock(
   }
 }
 
+/// Next token, if there is one. Returns an error if the text is not a valid token.
+fn next_token(lex: &mut Lexer<TimeExpressionToken>, exp: &str) -> anyhow::Result<Option<TimeExpressionToken>> {
+  lex.next().transpose().map_err(|_| error(exp, "no more tokens", Some(lex.span().clone())))
+}
+
 // adjustments: op duration ( op duration )*
 fn adjustments(
   lex: &mut Lexer<TimeExpressionToken>,
@@ -233,10 +238,10 @@ fn adjustments(
       let adj = adjustment(lex, exp, token)?;
       results.push(adj);
     } else {
-      break
+      return Err(error(exp, "+ or -", Some(lex.span().clone())));
     }
 
-    if let Some(Ok(t)) = lex.next() {
+    if let Some(t) = next_token(lex, exp)? {
       // loop
       token = t.clone();
     } else {
-- 
2.43.0


From 2ac351cacfe29429de8a52ab75d9d8bdc9d2c253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 056/115] fix: timezone offsets of 12 hours or more did not
 match

---
 rust/pact_models/src/time_utils.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index e5578e9..0e94541 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -43,7 +43,7 @@ use gregorian::Month;
 use itertools::Itertools;
 use nom::branch::alt;
 use nom::bytes::complete::{is_a, is_not, tag, tag_no_case, take_while_m_n};
-use nom::character::complete::{alphanumeric1, char, digit1};
+use nom::character::complete::{alphanumeric1, char, digit1, one_of};
 use nom::combinator::{opt, value};
 use nom::Err::{Error, Failure};
 use nom::error::{ErrorKind, ParseError};
@@ -582,8 +582,17 @@ fn second_fraction(s: &str, count: usize) -> IResult<&str, String, DateTimeError
   })
 }
 
+fn timezone_hour(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
+  take_while_m_n(1, 2, is_digit)(s).and_then(|(remaining, result)|{
+    match validate_number(result, "timezone offset hour".into(), 0, 18) {
+      Ok(_) => Ok((remaining, result.into())),
+      Err(_err) => Err(Error(DateTimeError::InvalidHour(result.to_string())))
+    }
+  })
+}
+
 fn timezone_hour_min(s: &str) -> IResult<&str, &str, DateTimeError<&str>> {
-  tuple((is_a("+-"), hour_12_0, tag(":"), minute))(s)
+  tuple((one_of("+-"), timezone_hour, tag(":"), minute))(s)
     .map(|(remaining, _result)| {
       (remaining, "")
     })
@@ -591,23 +600,23 @@ fn timezone_hour_min(s: &str) -> IResult<&str, &str, DateTimeError<&str>> {
 
 fn timezone_long_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
   match d {
-    1 => preceded(is_a("+-"), tuple((hour_12_0, opt(minute))))(s)
+    1 => preceded(one_of("+-"), tuple((timezone_hour, opt(minute))))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1.unwrap_or_else(|| "".to_string()))
         }),
-    2 => preceded(is_a("+-"), tuple((hour_12_0, minute)))(s)
+    2 => preceded(one_of("+-"), tuple((timezone_hour, minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1)
         }),
-    3 => preceded(is_a("+-"), tuple((hour_12_0, tag(":"), minute)))(s)
+    3 => preceded(one_of("+-"), tuple((timezone_hour, tag(":"), minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + result.1 + &result.2)
         }),
-    4 => preceded(is_a("+-"), tuple((hour_12_0, minute, opt(second))))(s)
+    4 => preceded(one_of("+-"), tuple((timezone_hour, minute, opt(second))))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1 + &result.2.unwrap_or_else(|| "".to_string()))
         }),
-    _ => preceded(is_a("+-"), tuple((hour_12_0, tag(":"), minute, opt(tuple((tag(":"), second))))))(s)
+    _ => preceded(one_of("+-"), tuple((timezone_hour, tag(":"), minute, opt(tuple((tag(":"), second))))))(s)
         .map(|(remaining, result)| {
           let seconds = match &result.3 {
             Some((c, s)) => c.to_string() + s,
@@ -652,7 +661,7 @@ fn timezone_id(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
 
 fn timezone_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
   match d {
-    1..=3 => preceded(is_a("+-"), tuple((hour_12_0, minute)))(s)
+    1..=3 => preceded(one_of("+-"), tuple((timezone_hour, minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1)
         }),
@@ -673,7 +682,7 @@ fn timezone_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&st
 
 fn timezone_offset_gmt(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
   match d {
-    1..=3 => preceded(alt((tag("GMT"), tag("UTC"))), tuple((is_a("+-"), hour_12_0, opt(preceded(tag(":"), minute)))))(s)
+    1..=3 => preceded(alt((tag("GMT"), tag("UTC"))), tuple((one_of("+-"), timezone_hour, opt(preceded(tag(":"), minute)))))(s)
         .map(|(remaining, result)| {
           let minute = match result.2 {
             Some(result) => result,
@@ -681,7 +690,7 @@ fn timezone_offset_gmt(s: &str, d: usize) -> IResult<&str, String, DateTimeError
           };
           (remaining, result.1 + &minute)
         }),
-    _ => preceded(alt((tag("GMT"), tag("UTC"))), tuple((is_a("+-"), hour_12_0, tag(":"), minute)))(s)
+    _ => preceded(alt((tag("GMT"), tag("UTC"))), tuple((one_of("+-"), timezone_hour, tag(":"), minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.1 + result.2 + &result.3)
         })
-- 
2.43.0


From a3d4f7eb4e3306a07492f78b6e941b9ca24284da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 057/115] fix: timezone IDs with more than two parts or an
 underscore or hyphen did not match

---
 rust/pact_models/src/time_utils.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 0e94541..1668470 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -42,14 +42,14 @@ use chrono::Local;
 use gregorian::Month;
 use itertools::Itertools;
 use nom::branch::alt;
-use nom::bytes::complete::{is_a, is_not, tag, tag_no_case, take_while_m_n};
-use nom::character::complete::{alphanumeric1, char, digit1, one_of};
+use nom::bytes::complete::{is_a, is_not, tag, tag_no_case, take_while1, take_while_m_n};
+use nom::character::complete::{char, digit1, one_of};
 use nom::combinator::{opt, value};
 use nom::Err::{Error, Failure};
 use nom::error::{ErrorKind, ParseError};
 use nom::IResult;
 use nom::multi::many1;
-use nom::sequence::{delimited, preceded, separated_pair, terminated, tuple};
+use nom::sequence::{delimited, preceded, terminated, tuple};
 use tracing::{debug, error, trace, warn};
 
 use crate::timezone_db::*;
@@ -649,12 +649,11 @@ fn timezone(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
 }
 
 fn timezone_id(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
-  separated_pair(alphanumeric1, char('/'), alphanumeric1)(s).and_then(|(remaining, result)| {
-    let tz = format!("{}/{}", result.0, result.1);
-    if ZONES.contains(tz.as_str()) {
-      Ok((remaining, tz))
-    } else {
-      Err(Error(DateTimeError::InvalidTimezone(tz)))
+  take_while1(|ch: char| ch.is_ascii_alphanumeric() || "/_+-".contains(ch))(s).and_then(|(_, id): (&str, &str)| {
+    // The ID may be followed by text, so use the longest ID. All the characters are ASCII ones.
+    match (1..=id.len()).rev().find(|len| ZONES.contains(&id[..*len])) {
+      Some(len) => Ok((&s[len..], id[..len].to_string())),
+      None => Err(Error(DateTimeError::InvalidTimezone(id.to_string())))
     }
   })
 }
-- 
2.43.0


From 9c14834fd38b84747277c2ba6e4809b888c0a4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 058/115] fix: patterns with one or three letters for the year
 did not match a year with four digits

---
 rust/pact_models/src/time_utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 1668470..a1978a2 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -420,7 +420,9 @@ fn ampm(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
 }
 
 fn year(s: &str, count: usize) -> IResult<&str, String, DateTimeError<&str>> {
-  take_while_m_n(1, count, is_digit)(s)
+  // Only two pattern letters limit the year to the last two digits
+  let max = if count == 2 { count } else { count.max(4) };
+  take_while_m_n(1, max, is_digit)(s)
     .map(|(remaining, result)| (remaining, result.into()))
 }
 
-- 
2.43.0


From 662d742709696b132785d24f78c7cf673a893aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 059/115] fix: matching a date with a year of five or more
 digits panicked

---
 rust/pact_models/src/time_utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index a1978a2..dc9e25c 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -856,7 +856,8 @@ fn validate_matched_values(matched_values: &Vec<(DateTimePatternToken, String)>)
     // should be safe to unwrap here, as the value should have already been validated
     let day = day.parse::<u8>().unwrap();
     if let Some((_, year)) = year {
-      let year = year.parse::<i16>().unwrap();
+      // leap years repeat every 400 years, so the last four digits are enough
+      let year = year[year.len().saturating_sub(4)..].parse::<i16>().unwrap();
       if let Some((_, month_str)) = month {
         // should be safe to unwrap here, as the value should have already been validated
         let month = month_value(month_str).unwrap().with_year(year);
-- 
2.43.0


From cbf4df3dcbb9372d5d5395a74718d8dcf94bd620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 060/115] fix: matching a fraction of a second with many
 pattern letters panicked

---
 rust/pact_models/src/time_utils.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index dc9e25c..3ce02f9 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -576,12 +576,8 @@ fn second(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
 }
 
 fn second_fraction(s: &str, count: usize) -> IResult<&str, String, DateTimeError<&str>> {
-  take_while_m_n(1, count, is_digit)(s).and_then(|(remaining, result)|{
-    match validate_number(result, "fraction of a second".into(), 0, usize::pow(10, count as u32) - 1) {
-      Ok(_) => Ok((remaining, result.into())),
-      Err(_err) => Err(Error(DateTimeError::InvalidSecondFraction(result.to_string())))
-    }
-  })
+  take_while_m_n(1, count, is_digit)(s)
+    .map(|(remaining, result)| (remaining, result.into()))
 }
 
 fn timezone_hour(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
-- 
2.43.0


From 69d204a59a6a335b3ee1ef99d4822735af8a258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 061/115] fix: days that do not exist in the month matched if
 the pattern has the month as L

---
 rust/pact_models/src/time_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 3ce02f9..072b4c9 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -840,7 +840,7 @@ fn validate_matched_values(matched_values: &Vec<(DateTimePatternToken, String)>)
     });
   let month = matched_values.iter()
     .find(|(token, _)| match token {
-      DateTimePatternToken::Month(_) => true,
+      DateTimePatternToken::Month(_) | DateTimePatternToken::MonthNum(_) => true,
       _ => false
     });
   let year = matched_values.iter()
-- 
2.43.0


From a3fb25956c2ea0c142241505423dcf5c47a57c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 062/115] fix: consecutive quotes in the quoted text of a
 date-time pattern were read as one

---
 rust/pact_models/src/time_utils.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 072b4c9..f93f54f 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -40,7 +40,6 @@ use std::fmt::{Display, Formatter};
 use anyhow::anyhow;
 use chrono::Local;
 use gregorian::Month;
-use itertools::Itertools;
 use nom::branch::alt;
 use nom::bytes::complete::{is_a, is_not, tag, tag_no_case, take_while1, take_while_m_n};
 use nom::character::complete::{char, digit1, one_of};
@@ -292,11 +291,9 @@ fn quarter_pattern(s: &str) -> IResult<&str, DateTimePatternToken, DateTimePatte
 }
 
 fn quoted_text_pattern(s: &str) -> IResult<&str, DateTimePatternToken, DateTimePatternError<&str>> {
-  delimited(char('\''), many1(alt((tag("''"), is_not("'")))), char('\''))(s)
+  delimited(char('\''), many1(alt((value("'", tag("''")), is_not("'")))), char('\''))(s)
     .map(|(remaining, result)| {
-      (remaining, DateTimePatternToken::Text(result.join("").chars().coalesce(|x, y| {
-        if x == '\'' && y == '\'' { Ok('\'') } else { Err((x, y)) }
-      }).collect()))
+      (remaining, DateTimePatternToken::Text(result.join("")))
     })
 }
 
-- 
2.43.0


From 8fb2b52fd1d2ed5ddfd33c0344d5bb1f1049087b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 063/115] fix: generating a fraction of a second panicked for
 4, 5, 7, 8 or more than 9 pattern letters

---
 rust/pact_models/src/time_utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index f93f54f..7de0dfe 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -912,12 +912,12 @@ pub fn to_chrono_pattern(tokens: &[DateTimePatternToken]) -> String {
       DateTimePatternToken::Hour12ZeroBased => buffer.push_str("%I"),
       DateTimePatternToken::Minute => buffer.push_str("%M"),
       DateTimePatternToken::Second => buffer.push_str("%S"),
-      DateTimePatternToken::Millisecond(d) => if *d < 3 {
-        // something in chrono panics
-        buffer.push_str("%3f")
-      } else {
-        buffer.push_str(&format!("%{}f", *d))
-      },
+      // chrono only supports 3, 6 and 9 digits
+      DateTimePatternToken::Millisecond(d) => buffer.push_str(match *d {
+        0..=5 => "%3f",
+        6..=8 => "%6f",
+        _ => "%9f"
+      }),
       DateTimePatternToken::Nanosecond(_d) => buffer.push_str("%f"),
       DateTimePatternToken::TimezoneName(_d) => buffer.push_str("%Z"),
       DateTimePatternToken::TimezoneId(_d) => buffer.push_str("%Z"),
-- 
2.43.0


From efd6a3397e6222e3b305041de934f4619cee3d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 064/115] fix: timezone offsets and names of the day of the
 week were not generated in the format of the pattern

---
 rust/pact_models/src/time_utils.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 7de0dfe..5cd9cb1 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -905,7 +905,7 @@ pub fn to_chrono_pattern(tokens: &[DateTimePatternToken]) -> String {
       DateTimePatternToken::MonthNum(_d) => buffer.push_str("%m"),
       DateTimePatternToken::Text(t) => buffer.push_str(&str::replace(t, "%", "%%")),
       DateTimePatternToken::DayName(d) => buffer.push_str(if *d > 3 { "%A" } else { "%a" }),
-      DateTimePatternToken::DayOfWeek(_d) => buffer.push_str("%u"),
+      DateTimePatternToken::DayOfWeek(d) => buffer.push_str(if *d > 3 { "%A" } else if *d == 3 { "%a" } else { "%u" }),
       DateTimePatternToken::Hour24 => buffer.push_str("%H"),
       DateTimePatternToken::Hour24ZeroBased => buffer.push_str("%H"),
       DateTimePatternToken::Hour12 => buffer.push_str("%I"),
@@ -921,9 +921,14 @@ pub fn to_chrono_pattern(tokens: &[DateTimePatternToken]) -> String {
       DateTimePatternToken::Nanosecond(_d) => buffer.push_str("%f"),
       DateTimePatternToken::TimezoneName(_d) => buffer.push_str("%Z"),
       DateTimePatternToken::TimezoneId(_d) => buffer.push_str("%Z"),
-      DateTimePatternToken::TimezoneOffset(_d) => buffer.push_str("%z"),
-      DateTimePatternToken::TimezoneOffsetX(_d) => buffer.push_str("%:z"),
-      DateTimePatternToken::TimezoneOffsetXZZero(_d) => buffer.push_str("%:z"),
+      DateTimePatternToken::TimezoneOffset(d) => buffer.push_str(match *d {
+        0..=3 => "%z",
+        4 => "GMT%:z",
+        _ => "%:z"
+      }),
+      DateTimePatternToken::TimezoneOffsetGmt(_d) => buffer.push_str("GMT%:z"),
+      DateTimePatternToken::TimezoneOffsetX(d) | DateTimePatternToken::TimezoneOffsetXZZero(d) =>
+        buffer.push_str(if *d == 3 || *d >= 5 { "%:z" } else { "%z" }),
       DateTimePatternToken::AmPm => buffer.push_str("%p"),
       _ => warn!("Chono does not support {:?}", token)
     };
-- 
2.43.0


From 5d9425f7a40c76ad22d596009cdc7e4f6ad71ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:19 +0000
Subject: [PATCH 065/115] fix: accept carriage returns as white space in
 matching definitions

---
 rust/pact_models/src/matchingrules/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index 5732531..3d9ca95 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -254,7 +254,7 @@ impl MatchingRuleDefinition {
 }
 
 #[derive(Logos, Debug, PartialEq)]
-#[logos(skip r"[ \t\n\f]+")]
+#[logos(skip r"[ \t\r\n\f]+")]
 enum MatcherDefinitionToken {
   #[token("matching")]
   Matching,
-- 
2.43.0


From e991980079edf3472f03b8d09e2f95dfa7cbb01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:19 +0000
Subject: [PATCH 066/115] fix: reject matching definitions followed by an
 unknown character

---
 rust/pact_models/src/matchingrules/expressions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index 3d9ca95..90ca7f1 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -353,8 +353,8 @@ pub fn is_matcher_def(v: &str) -> bool {
 //     ;
 fn matching_definition(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<MatchingRuleDefinition> {
   let mut value = matching_definition_exp(lex, v)?;
-  while let Some(Ok(next)) = lex.next() {
-    if next == MatcherDefinitionToken::Comma {
+  while let Some(next) = lex.next() {
+    if let Ok(MatcherDefinitionToken::Comma) = next {
       value = value.merge(&matching_definition_exp(lex, v)?);
     } else {
       return Err(anyhow!("expected comma, got '{}'", lex.slice()));
-- 
2.43.0


From 2d85ae91c7e8475b2b84349302158f101e922e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:19 +0000
Subject: [PATCH 067/115] fix: recognise atLeast and atMost as matching
 definitions

---
 rust/pact_models/src/matchingrules/expressions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index 90ca7f1..e8eacaf 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -337,7 +337,8 @@ pub fn is_matcher_def(v: &str) -> bool {
     let next = lex.next();
     if let Some(Ok(token)) = next {
       if token == MatcherDefinitionToken::Matching || token == MatcherDefinitionToken::NotEmpty ||
-        token == MatcherDefinitionToken::EachKey || token == MatcherDefinitionToken::EachValue {
+        token == MatcherDefinitionToken::EachKey || token == MatcherDefinitionToken::EachValue ||
+        token == MatcherDefinitionToken::AtLeast || token == MatcherDefinitionToken::AtMost {
         true
       } else {
         false
-- 
2.43.0


From 97a859d8e4460a98960e8cea8febb2bf0ead2e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:19 +0000
Subject: [PATCH 068/115] fix: use the decimal matcher for decimal definitions
 with a provider state value

---
 rust/pact_models/src/matchingrules/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index e8eacaf..e06dcc6 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -898,7 +898,7 @@ fn parse_decimal(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Re
   } else if let Ok(MatcherDefinitionToken::Id) = next {
     if lex.slice() == "fromProviderState" {
       let (value, value_type, generator) = from_provider_state(lex, v)?;
-      Ok((value, value_type, Some(MatchingRule::Number), generator, None))
+      Ok((value, value_type, Some(MatchingRule::Decimal), generator, None))
     } else {
       Err(anyhow!(error_message(lex, v, "Expected a decimal number", "Expected a decimal number here")?))
     }
-- 
2.43.0


From 265cfa213d545f32a7093a3d051fb388d569b891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:45 +0000
Subject: [PATCH 069/115] fix: strings ending in a quote or an escaped
 backslash in matching definitions

---
 rust/pact_models/src/matchingrules/expressions.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index e06dcc6..ce20686 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -283,7 +283,7 @@ enum MatcherDefinitionToken {
   #[token(",")]
   Comma,
 
-  #[regex(r"'(?:[^']|\\')*'")]
+  #[regex(r"'(?:[^'\\]|\\[^'\\]|\\\\|\\')*'")]
   String,
 
   #[regex("[a-zA-Z]+")]
@@ -922,7 +922,8 @@ fn parse_string(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Res
   let next = lex.next().ok_or_else(|| end_of_expression(v, "a string"))?;
   if let Ok(MatcherDefinitionToken::String) = next {
     let span = lex.span();
-    let raw_str = lex.slice().trim_matches('\'');
+    let raw_str = lex.slice();
+    let raw_str = &raw_str[1..raw_str.len() - 1];
     process_raw_string(raw_str, span, v)
   } else {
     let mut buffer = BytesMut::new().writer();
-- 
2.43.0


From eebdaa1e18ca88d53206c4eb0f52e8811790f349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:45 +0000
Subject: [PATCH 070/115] fix: escape sequences in the example values of
 matching definitions

---
 rust/pact_models/src/matchingrules/expressions.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index ce20686..0256bd9 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -798,7 +798,11 @@ fn parse_primitive_value(
 ) -> anyhow::Result<(String, ValueType, Option<Generator>)> {
   let next = lex.next().ok_or_else(|| end_of_expression(v, "expected a primitive value"))?;
   match next {
-    Ok(MatcherDefinitionToken::String) => Ok((lex.slice().trim_matches('\'').to_string(), ValueType::String, None)),
+    Ok(MatcherDefinitionToken::String) => {
+      let raw_str = lex.slice();
+      let raw_str = &raw_str[1..raw_str.len() - 1];
+      Ok((process_raw_string(raw_str, lex.span(), v)?, ValueType::String, None))
+    },
     Ok(MatcherDefinitionToken::Null) => Ok((String::new(), ValueType::String, None)),
     Ok(MatcherDefinitionToken::Int(_)) => {
       // Logos is returning an INT token when a Decimal should match. We need to now parse the
-- 
2.43.0


From e36d747c582a8b8d531fa0bd3962e91287b90379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:34 +0000
Subject: [PATCH 071/115] fix: numbers followed by a full stop without digits
 in matching definitions

---
 .../src/matchingrules/expressions.rs          | 45 +++----------------
 1 file changed, 5 insertions(+), 40 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index 0256bd9..6f16ae5 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -295,12 +295,9 @@ enum MatcherDefinitionToken {
   #[regex("[0-9]+", |lex| lex.slice().parse().ok())]
   Num(usize),
 
-  #[regex(r"-?[0-9]\.[0-9]+")]
+  #[regex(r"-?[0-9]+\.[0-9]+")]
   Decimal,
 
-  #[regex(r"\.[0-9]+")]
-  DecimalPart,
-
   #[regex(r"true|false")]
   Boolean,
 
@@ -805,26 +802,10 @@ fn parse_primitive_value(
     },
     Ok(MatcherDefinitionToken::Null) => Ok((String::new(), ValueType::String, None)),
     Ok(MatcherDefinitionToken::Int(_)) => {
-      // Logos is returning an INT token when a Decimal should match. We need to now parse the
-      // remaining pattern if it is a decimal
-      if lex.remainder().starts_with('.') {
-        let int_part = lex.slice();
-        let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
-        Ok((format!("{}{}", int_part, lex.slice()), ValueType::Decimal, None))
-      } else {
-        Ok((lex.slice().to_string(), ValueType::Integer, None))
-      }
+      Ok((lex.slice().to_string(), ValueType::Integer, None))
     },
     Ok(MatcherDefinitionToken::Num(_)) => {
-      // Logos is returning an NUM token when a Decimal should match. We need to now parse the
-      // remaining pattern if it is a decimal
-      if lex.remainder().starts_with('.') {
-        let int_part = lex.slice();
-        let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
-        Ok((format!("{}{}", int_part, lex.slice()), ValueType::Decimal, None))
-      } else {
-        Ok((lex.slice().to_string(), ValueType::Integer, None))
-      }
+      Ok((lex.slice().to_string(), ValueType::Integer, None))
     },
     Ok(MatcherDefinitionToken::Decimal) => Ok((lex.slice().to_string(), ValueType::Decimal, None)),
     Ok(MatcherDefinitionToken::Boolean) => Ok((lex.slice().to_string(), ValueType::Boolean, None)),
@@ -843,15 +824,7 @@ fn parse_number(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Res
   if let Ok(MatcherDefinitionToken::Decimal) = next {
     Ok((lex.slice().to_string(), ValueType::Number,  Some(MatchingRule::Number), None, None))
   } else if let Ok(MatcherDefinitionToken::Int(_) | MatcherDefinitionToken::Num(_)) = next {
-    // Logos is returning an INT token when a Decimal should match. We need to now parse the
-    // remaining pattern if it is a decimal
-    if lex.remainder().starts_with('.') {
-      let int_part = lex.slice();
-      let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
-      Ok((format!("{}{}", int_part, lex.slice()), ValueType::Number, Some(MatchingRule::Number), None, None))
-    } else {
-      Ok((lex.slice().to_string(), ValueType::Number, Some(MatchingRule::Number), None, None))
-    }
+    Ok((lex.slice().to_string(), ValueType::Number, Some(MatchingRule::Number), None, None))
   } else if let Ok(MatcherDefinitionToken::Id) = next {
     if lex.slice() == "fromProviderState" {
       let (value, value_type, generator) = from_provider_state(lex, v)?;
@@ -888,15 +861,7 @@ fn parse_decimal(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Re
   parse_comma(lex, v)?;
   let next = lex.next().ok_or_else(|| end_of_expression(v, "expected a decimal number"))?;
   if let Ok(MatcherDefinitionToken::Int(_) | MatcherDefinitionToken::Num(_)) = next {
-    // Logos is returning an INT token when a Decimal should match. We need to now parse the
-    // remaining pattern if it is a decimal
-    if lex.remainder().starts_with('.') {
-      let int_part = lex.slice();
-      let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
-      Ok((format!("{}{}", int_part, lex.slice()), ValueType::Decimal, Some(MatchingRule::Decimal), None, None))
-    } else {
-      Ok((lex.slice().to_string(), ValueType::Decimal, Some(MatchingRule::Decimal), None, None))
-    }
+    Ok((lex.slice().to_string(), ValueType::Decimal, Some(MatchingRule::Decimal), None, None))
   } else if let Ok(MatcherDefinitionToken::Decimal) = next {
     Ok((lex.slice().to_string(), ValueType::Decimal, Some(MatchingRule::Decimal), None, None))
   } else if let Ok(MatcherDefinitionToken::Id) = next {
-- 
2.43.0


From 71d277fc3cc3fa4433d1f8b6c8dea68f3412604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:24 +0000
Subject: [PATCH 072/115] fix: accepted misspelled fromProviderState in date
 and time definitions

---
 rust/pact_models/src/matchingrules/expressions.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index 6f16ae5..d6f6351 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -718,6 +718,9 @@ fn parse_datetime(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::R
   let remainder = lex.remainder().trim_start();
   let (value, value_type, generator) = if remainder.starts_with("fromProviderState") {
     lex.next();
+    if lex.slice() != "fromProviderState" {
+      return Err(anyhow!(error_message(lex, v, "Expected a string value", "Expected this to be a string")?));
+    }
     from_provider_state(lex, v)?
   } else {
     (parse_string(lex, v)?, ValueType::String, Some(Generator::DateTime(Some(format.clone()), None)))
@@ -735,6 +738,9 @@ fn parse_date(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Resul
   let remainder = lex.remainder().trim_start();
   let (value, value_type, generator) = if remainder.starts_with("fromProviderState") {
     lex.next();
+    if lex.slice() != "fromProviderState" {
+      return Err(anyhow!(error_message(lex, v, "Expected a string value", "Expected this to be a string")?));
+    }
     from_provider_state(lex, v)?
   } else {
     (parse_string(lex, v)?, ValueType::String, Some(Generator::Date(Some(format.clone()), None)))
@@ -752,6 +758,9 @@ fn parse_time(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Resul
   let remainder = lex.remainder().trim_start();
   let (value, value_type, generator) = if remainder.starts_with("fromProviderState") {
     lex.next();
+    if lex.slice() != "fromProviderState" {
+      return Err(anyhow!(error_message(lex, v, "Expected a string value", "Expected this to be a string")?));
+    }
     from_provider_state(lex, v)?
   } else {
     (parse_string(lex, v)?, ValueType::String, Some(Generator::Time(Some(format.clone()), None)))
-- 
2.43.0


From 1b5069a6765a41cc9515c30adcbb8af818eefb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:24 +0000
Subject: [PATCH 073/115] fix: format verification named the type of the
 enclosing element

---
 rust/pact_models/src/lib.rs              | 4 ++--
 rust/pact_models/src/provider_states.rs  | 4 ++--
 rust/pact_models/src/sync_interaction.rs | 2 +-
 rust/pact_models/src/sync_pact.rs        | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rust/pact_models/src/lib.rs b/rust/pact_models/src/lib.rs
index b12b90f..af2c47e 100644
--- a/rust/pact_models/src/lib.rs
+++ b/rust/pact_models/src/lib.rs
@@ -228,7 +228,7 @@ impl PactJsonVerifier for Consumer {
         if let Some(name) = values.get("name") {
           if !name.is_string() {
             results.push(PactFileVerificationResult::new(path.to_owned() + "/name", ResultLevel::ERROR,
-              format!("Must be a String, got {}", json_type_of(pact_json))))
+              format!("Must be a String, got {}", json_type_of(name))))
           }
         } else {
           results.push(PactFileVerificationResult::new(path.to_owned() + "/name",
@@ -298,7 +298,7 @@ impl PactJsonVerifier for Provider {
         if let Some(name) = values.get("name") {
           if !name.is_string() {
             results.push(PactFileVerificationResult::new(path.to_owned() + "/name", ResultLevel::ERROR,
-                                                         format!("Must be a String, got {}", json_type_of(pact_json))))
+                                                         format!("Must be a String, got {}", json_type_of(name))))
           }
         } else {
           results.push(PactFileVerificationResult::new(path.to_owned() + "/name",
diff --git a/rust/pact_models/src/provider_states.rs b/rust/pact_models/src/provider_states.rs
index a687c29..9d03bbd 100644
--- a/rust/pact_models/src/provider_states.rs
+++ b/rust/pact_models/src/provider_states.rs
@@ -128,14 +128,14 @@ impl PactJsonVerifier for ProviderState {
             "Provider state 'name' is required")),
           Some(name) => if !name.is_string() {
             results.push(PactFileVerificationResult::new(path, ResultLevel::ERROR,
-              format!("Provider state 'name' must be a String, got {}", json_type_of(pact_json))))
+              format!("Provider state 'name' must be a String, got {}", json_type_of(name))))
           }
         }
 
         if let Some(params) = values.get("params") {
           if !params.is_object() {
             results.push(PactFileVerificationResult::new(path, ResultLevel::ERROR,
-              format!("Provider state 'params' must be an Object, got {}", json_type_of(pact_json))))
+              format!("Provider state 'params' must be an Object, got {}", json_type_of(params))))
           }
         }
 
diff --git a/rust/pact_models/src/sync_interaction.rs b/rust/pact_models/src/sync_interaction.rs
index e865e0a..6707f3c 100644
--- a/rust/pact_models/src/sync_interaction.rs
+++ b/rust/pact_models/src/sync_interaction.rs
@@ -273,7 +273,7 @@ impl PactJsonVerifier for RequestResponseInteraction {
         if let Some(description) = values.get("description") {
           if !description.is_string() {
             results.push(PactFileVerificationResult::new(path.to_owned() + "/description", ResultLevel::ERROR,
-                                                         format!("Must be a String, got {}", json_type_of(pact_json))))
+                                                         format!("Must be a String, got {}", json_type_of(description))))
           }
         } else {
           results.push(PactFileVerificationResult::new(path,
diff --git a/rust/pact_models/src/sync_pact.rs b/rust/pact_models/src/sync_pact.rs
index 3c48b53..1048762 100644
--- a/rust/pact_models/src/sync_pact.rs
+++ b/rust/pact_models/src/sync_pact.rs
@@ -373,7 +373,7 @@ impl PactJsonVerifier for RequestResponsePact {
                 }))
             }
             _ => results.push(PactFileVerificationResult::new("/interactions", ResultLevel::ERROR,
-                                                              &format!("Must be an Object, got {}", json_type_of(pact_json))))
+                                                              &format!("Must be an Array, got {}", json_type_of(interactions))))
           }
         } else {
           results.push(PactFileVerificationResult::new("/interactions", ResultLevel::WARNING, "Missing interactions"))
-- 
2.43.0


From 377b7abe496bdd11f847da22115961363f771d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:29 +0000
Subject: [PATCH 074/115] fix: matching rules were not applied to lists when
 the example list is empty

---
 rust/pact_matching/src/matchingrules.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rust/pact_matching/src/matchingrules.rs b/rust/pact_matching/src/matchingrules.rs
index 9c38012..891bf91 100644
--- a/rust/pact_matching/src/matchingrules.rs
+++ b/rust/pact_matching/src/matchingrules.rs
@@ -451,6 +451,13 @@ pub fn compare_lists_with_matchingrule<T: Display + Debug + PartialEq + Clone +
         result.extend(match_list_contents(path, expected, actual, context, callback));
       }
     }
+  } else if let Err(mismatch) = expected.matches_with(actual, rule, cascaded) {
+    result.push(CommonMismatch {
+      path: path.to_string(),
+      expected: expected.for_mismatch(),
+      actual: actual.for_mismatch(),
+      description: mismatch.to_string()
+    });
   }
 
   if result.is_empty() {
-- 
2.43.0


From f35e6dd82778fa5abce867cee1cec30598b158fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:29 +0000
Subject: [PATCH 075/115] fix: the integer matcher rejected negative numbers in
 texts

---
 rust/pact_matching/src/matchers.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rust/pact_matching/src/matchers.rs b/rust/pact_matching/src/matchers.rs
index 7cf878e..c090d08 100644
--- a/rust/pact_matching/src/matchers.rs
+++ b/rust/pact_matching/src/matchers.rs
@@ -201,9 +201,10 @@ impl Matches<&str> for &str {
         }
       },
       MatchingRule::Integer => {
-        match actual.parse::<u64>() {
-          Ok(_) => Ok(()),
-          Err(_) => Err(anyhow!("Expected '{}' to match an integer number", actual))
+        if actual.parse::<u64>().is_ok() || actual.parse::<i64>().is_ok() {
+          Ok(())
+        } else {
+          Err(anyhow!("Expected '{}' to match an integer number", actual))
         }
       },
       #[allow(unused_variables)]
-- 
2.43.0


From 5e6ebe3c622f5872e35a15680958fdb8c831856e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:29 +0000
Subject: [PATCH 076/115] fix: the number and decimal matchers accepted the
 words nan, inf and infinity

---
 rust/pact_matching/src/matchers.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rust/pact_matching/src/matchers.rs b/rust/pact_matching/src/matchers.rs
index c090d08..3e0750e 100644
--- a/rust/pact_matching/src/matchers.rs
+++ b/rust/pact_matching/src/matchers.rs
@@ -195,9 +195,10 @@ impl Matches<&str> for &str {
         }
       },
       MatchingRule::Number | MatchingRule::Decimal => {
+        // the Rust parser also accepts "nan", "inf" and "infinity"
         match actual.parse::<f64>() {
-          Ok(_) => Ok(()),
-          Err(_) => Err(anyhow!("Expected '{}' to match a number", actual))
+          Ok(_) if actual.contains(|ch: char| ch.is_ascii_digit()) => Ok(()),
+          _ => Err(anyhow!("Expected '{}' to match a number", actual))
         }
       },
       MatchingRule::Integer => {
-- 
2.43.0


From aee8cb69d96a31b7a75b1c5a21f80054ff2017c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:04 +0000
Subject: [PATCH 077/115] fix: matching rules for objects combined with OR all
 had to match

---
 rust/pact_matching/src/json.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/rust/pact_matching/src/json.rs b/rust/pact_matching/src/json.rs
index 84dede9..8c575e6 100644
--- a/rust/pact_matching/src/json.rs
+++ b/rust/pact_matching/src/json.rs
@@ -5,6 +5,7 @@ use std::str::FromStr;
 use ansi_term::Colour::*;
 use anyhow::anyhow;
 use difference::*;
+use itertools::Itertools;
 use lazy_static::lazy_static;
 use onig::Regex;
 use semver::Version;
@@ -12,7 +13,7 @@ use serde_json::{json, Value};
 
 use pact_models::http_parts::HttpPart;
 use pact_models::json_utils::json_to_string;
-use pact_models::matchingrules::MatchingRule;
+use pact_models::matchingrules::{MatchingRule, RuleLogic};
 use pact_models::path_exp::DocPath;
 #[cfg(feature = "datetime")] use pact_models::time_utils::validate_datetime;
 use tracing::debug;
@@ -431,11 +432,15 @@ fn compare_maps(
     if context.matcher_is_defined(path) {
       debug!("compare_maps: Matcher is defined for path {}", path);
       let rule_list = context.select_best_matcher(path);
-      for matcher in rule_list.rules {
-        let result1 = compare_maps_with_matchingrule(&matcher, rule_list.cascaded, path, &expected, &actual, context, &mut |p, expected, actual, context| {
+      let results = rule_list.rules.iter().map(|matcher| {
+        compare_maps_with_matchingrule(matcher, rule_list.cascaded, path, &expected, &actual, context, &mut |p, expected, actual, context| {
           compare_json(p, expected, actual, context)
-        });
-        result = merge_result(result, result1);
+        })
+      }).collect_vec();
+      if rule_list.rule_logic == RuleLogic::And || results.iter().all(|result| result.is_err()) {
+        for result1 in results {
+          result = merge_result(result, result1);
+        }
       }
     } else {
       let expected_keys = expected.keys().cloned().collect();
@@ -1333,7 +1338,7 @@ mod tests2 {
   use serde_json::{json, Value};
 
   use pact_models::matchingrules_list;
-  use pact_models::matchingrules::MatchingRule;
+  use pact_models::matchingrules::{MatchingRule, RuleLogic};
   use crate::{CoreMatchingContext, DiffConfig};
 
   use super::*;
-- 
2.43.0


From 50a234ed4f009add583fda8205f76f5c960100ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:43 +0000
Subject: [PATCH 078/115] fix: which keys are allowed in an object depended on
 chance when several matching rules apply to it

---
 rust/pact_matching/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rust/pact_matching/src/lib.rs b/rust/pact_matching/src/lib.rs
index 44bb6e7..59a04e8 100644
--- a/rust/pact_matching/src/lib.rs
+++ b/rust/pact_matching/src/lib.rs
@@ -567,7 +567,10 @@ impl MatchingContext for CoreMatchingContext {
     if matchers.is_empty() {
       actual.is_not_empty()
     } else {
-      actual.as_rule_list().rules.iter().any(|r| matchers.contains(r.name().as_str()))
+      let path = path.to_vec();
+      let path_slice = path.iter().map(|p| p.as_str()).collect_vec();
+      actual.select_best_matcher(path_slice.as_slice()).rules.iter()
+        .any(|r| matchers.contains(r.name().as_str()))
     }
   }
 
-- 
2.43.0


From 55656c4ffc961a2225101f5daba1f5cb1731f116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:18 +0000
Subject: [PATCH 079/115] fix: matching rules for V4 message contents did not
 cascade and their values rules were ignored

---
 rust/pact_matching/src/lib.rs             | 2 +-
 rust/pact_models/src/matchingrules/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_matching/src/lib.rs b/rust/pact_matching/src/lib.rs
index 59a04e8..9420d7b 100644
--- a/rust/pact_matching/src/lib.rs
+++ b/rust/pact_matching/src/lib.rs
@@ -507,7 +507,7 @@ impl CoreMatchingContext {
       Category::HEADER | Category::QUERY => self.matchers.filter(|&(val, _)| {
         path.len() == 1 && path.first_field() == val.first_field()
       }),
-      Category::BODY => self.matchers.filter(|&(val, _)| {
+      Category::BODY | Category::CONTENTS => self.matchers.filter(|&(val, _)| {
         let p = path.to_vec();
         let p_slice = p.iter().map(|p| p.as_str()).collect_vec();
         val.matches_path_exactly(p_slice.as_slice())
diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index a42bbb8..90ad2dc 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -1081,7 +1081,7 @@ impl MatchingRuleCategory {
   /// Selects the best matcher for the given path by calculating a weighting for each one
   pub fn select_best_matcher(&self, path: &[&str]) -> RuleList {
     match self.name {
-      Category::BODY | Category::METADATA => self.max_by_path(path),
+      Category::BODY | Category::CONTENTS | Category::METADATA => self.max_by_path(path),
       _ => self.resolve_matchers_for_path(path).rules.iter()
         .max_by_key(|&(k, _)| {
           let (w, t) = k.path_weight(path);
-- 
2.43.0


From fb5dc3b451032a95769f770e6b6a612f080a87d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:26 +0000
Subject: [PATCH 080/115] fix: content types with different suffixes were
 equivalent

---
 rust/pact_models/src/content_types.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/content_types.rs b/rust/pact_models/src/content_types.rs
index a63944a..8574c5a 100644
--- a/rust/pact_models/src/content_types.rs
+++ b/rust/pact_models/src/content_types.rs
@@ -148,7 +148,8 @@ impl ContentType {
       self.attributes.is_empty() || self.attributes == other.attributes
     }
     else if self.attributes.is_empty() {
-      self.main_type == other.main_type && self.sub_type == other.sub_type
+      self.main_type == other.main_type && self.sub_type == other.sub_type &&
+        self.suffix == other.suffix
     } else {
       self == other
     }
-- 
2.43.0


From f1010d0baef5218dcfad88470a4e6293d90bf507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:26 +0000
Subject: [PATCH 081/115] fix: panic when binary contents of less than 10 bytes
 do not match

---
 rust/pact_matching/src/matchers.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rust/pact_matching/src/matchers.rs b/rust/pact_matching/src/matchers.rs
index 3e0750e..31b9cb6 100644
--- a/rust/pact_matching/src/matchers.rs
+++ b/rust/pact_matching/src/matchers.rs
@@ -705,6 +705,11 @@ impl Matches<bool> for bool {
   }
 }
 
+/// The first bytes of a value to be displayed in a message
+fn first_bytes(bytes: &Bytes) -> &[u8] {
+  &bytes[..bytes.len().min(10)]
+}
+
 impl Matches<Bytes> for Bytes {
   #[instrument(level = "trace")]
   fn matches_with(&self, actual: Bytes, matcher: &MatchingRule, cascaded: bool) -> anyhow::Result<()> {
@@ -737,7 +742,7 @@ impl Matches<&Bytes> for Bytes {
           Ok(())
         } else {
           Err(anyhow!("Expected '{:?}...' ({} bytes) to be equal to '{:?}...' ({} bytes)",
-                      self.split_at(10).0, self.len(), actual.split_at(10).0, actual.len()))
+                      first_bytes(self), self.len(), first_bytes(actual), actual.len()))
         }
       },
       MatchingRule::Type |
@@ -763,7 +768,7 @@ impl Matches<&Bytes> for Bytes {
         }
       }
       _ => if !cascaded || matcher.can_cascade() {
-        Err(anyhow!("Unable to match '{:?}...' ({} bytes) using {:?}", actual.split_at(10).0, actual.len(), matcher))
+        Err(anyhow!("Unable to match '{:?}...' ({} bytes) using {:?}", first_bytes(actual), actual.len(), matcher))
       } else {
         Ok(())
       }
-- 
2.43.0


From 0e0e5555fd760b868c7703108b2d6f43de6ca57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:56 +0000
Subject: [PATCH 082/115] fix: form parameters with values that do not match a
 list of rules were reported at $.$.name

---
 rust/pact_matching/src/form_urlencoded.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rust/pact_matching/src/form_urlencoded.rs b/rust/pact_matching/src/form_urlencoded.rs
index 0a61a09..918f555 100644
--- a/rust/pact_matching/src/form_urlencoded.rs
+++ b/rust/pact_matching/src/form_urlencoded.rs
@@ -3,6 +3,7 @@
 use itertools::Itertools;
 use pact_models::bodies::OptionalBody;
 use pact_models::http_parts::HttpPart;
+use pact_models::path_exp::DocPath;
 use tracing::debug;
 
 use crate::{MatchingContext, Mismatch};
@@ -64,10 +65,10 @@ pub(crate) fn match_form_urlencoded(
             .map(|(k, v)| (k.clone(), v.iter().map(|(_, v)| Some(v.clone())).collect_vec()))
             .collect();
           let result: Vec<_> = match_query_maps(expected_params, actual_params, context)
-            .values().flat_map(|m| m.iter().map(|mismatch| {
-            if let Mismatch::QueryMismatch { parameter, expected, actual, mismatch } = mismatch {
+            .iter().flat_map(|(key, m)| m.iter().map(|mismatch| {
+            if let Mismatch::QueryMismatch { expected, actual, mismatch, .. } = mismatch {
               Mismatch::BodyMismatch {
-                path: format!("$.{}", parameter),
+                path: DocPath::root().join_field(key.as_str()).to_string(),
                 expected: Some(expected.clone().into()),
                 actual: Some(actual.clone().into()),
                 mismatch: mismatch.replace("query parameter", "form post parameter")
-- 
2.43.0


From 0c2d512b81b13dce703f10626e14ab3ef2d82c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:56 +0000
Subject: [PATCH 083/115] fix: XML texts with entity references lost their
 inner white space when matching

---
 rust/pact_matching/src/xml.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/rust/pact_matching/src/xml.rs b/rust/pact_matching/src/xml.rs
index 988b6b3..6fb03f4 100644
--- a/rust/pact_matching/src/xml.rs
+++ b/rust/pact_matching/src/xml.rs
@@ -336,6 +336,22 @@ fn compare_children(
   }
 }
 
+/// Texts of an element, without the surrounding white space. The parser splits a text where there
+/// is an entity reference or a CDATA section, so neighbouring text nodes are joined first.
+fn texts(element: &Element) -> Vec<String> {
+  let mut texts = vec![];
+  let mut text = String::new();
+  for child in element.children() {
+    if let Some(node) = child.text() {
+      text.push_str(node.text());
+    } else {
+      texts.push(std::mem::take(&mut text));
+    }
+  }
+  texts.push(text);
+  texts.iter().map(|text| text.trim().to_string()).filter(|text| !text.is_empty()).collect()
+}
+
 fn compare_text(
   path: &DocPath,
   expected: &Element,
@@ -343,14 +359,8 @@ fn compare_text(
   mismatches: &mut Vec<super::Mismatch>,
   context: &dyn MatchingContext
 ) {
-    let expected_text = expected.children().iter().cloned()
-        .filter(|child| child.text().is_some())
-        .map(|child| child.text().unwrap().text().trim())
-        .collect::<String>();
-    let actual_text = actual.children().iter().cloned()
-        .filter(|child| child.text().is_some())
-        .map(|child| child.text().unwrap().text().trim())
-        .collect::<String>();
+    let expected_text = texts(expected).concat();
+    let actual_text = texts(actual).concat();
     let p = path.join("#text");
     let matcher_result = if context.matcher_is_defined(&p) {
       match_values(&p, &context.select_best_matcher(&p), expected_text.trim(), actual_text.trim())
-- 
2.43.0


From b8318fd58a6902f4e2fad582667bdca8be9b0ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:56 +0000
Subject: [PATCH 084/115] fix: XML comments and white space between elements
 were counted as children

---
 rust/pact_matching/src/xml.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rust/pact_matching/src/xml.rs b/rust/pact_matching/src/xml.rs
index 6fb03f4..0297311 100644
--- a/rust/pact_matching/src/xml.rs
+++ b/rust/pact_matching/src/xml.rs
@@ -109,19 +109,19 @@ impl<'a> Matches<&'a Element<'a>> for &'a Element<'a> {
              Err(anyhow!("Expected '{}' to be the same type as '{}'", name(self.name()),
                          name(actual.name())))
           },
-          MatchingRule::MinType(min) => if !cascaded && actual.children().len() < min {
+          MatchingRule::MinType(min) => if !cascaded && count_children(actual) < min {
              Err(anyhow!("Expected '{}' to have at least {} children", name(actual.name()), min))
           } else {
              Ok(())
           },
-          MatchingRule::MaxType(max) => if !cascaded && actual.children().len() > max {
+          MatchingRule::MaxType(max) => if !cascaded && count_children(actual) > max {
              Err(anyhow!("Expected '{}' to have at most {} children", name(actual.name()), max))
           } else {
              Ok(())
           },
-          MatchingRule::MinMaxType(min, max) => if !cascaded && actual.children().len() < min {
+          MatchingRule::MinMaxType(min, max) => if !cascaded && count_children(actual) < min {
             Err(anyhow!("Expected '{}' to have at least {} children", name(actual.name()), min))
-          } else if !cascaded && actual.children().len() > max {
+          } else if !cascaded && count_children(actual) > max {
             Err(anyhow!("Expected '{}' to have at most {} children", name(actual.name()), max))
           } else {
             Ok(())
@@ -133,7 +133,7 @@ impl<'a> Matches<&'a Element<'a>> for &'a Element<'a> {
                   Err(anyhow!("Expected '{}' to be equal to '{}'", name(self.name()), name(actual.name())))
              }
           },
-          MatchingRule::NotEmpty => if actual.children().is_empty() {
+          MatchingRule::NotEmpty => if count_children(actual) == 0 {
             Err(anyhow!("Expected '{}' to have at least one child", name(actual.name())))
           } else {
             Ok(())
@@ -240,6 +240,11 @@ fn children<'a>(element: &Element<'a>) -> Vec<Element<'a>> {
     .collect()
 }
 
+/// Number of children, not counting comments and the white space between them
+fn count_children(element: &Element) -> usize {
+  children(element).len() + texts(element).len()
+}
+
 fn desc_children(children: &[Element]) -> String {
   children.iter().map(|child| name(child.name())).join(", ")
 }
-- 
2.43.0


From 9478e20366c59257264dcce1f8cb61130d0c646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 085/115] fix: score of a request with many mismatches
 overflowed

---
 rust/pact_matching/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_matching/src/lib.rs b/rust/pact_matching/src/lib.rs
index 9420d7b..eb6c5a0 100644
--- a/rust/pact_matching/src/lib.rs
+++ b/rust/pact_matching/src/lib.rs
@@ -1290,7 +1290,7 @@ impl RequestMatchResult {
 
   /// Returns a score based on what was matched
   pub fn score(&self) -> i8 {
-    let mut score = 0;
+    let mut score: i64 = 0;
     if self.method.is_none() {
       score += 1;
     } else {
@@ -1330,7 +1330,7 @@ impl RequestMatchResult {
       },
       _ => ()
     }
-    score
+    score.clamp(i8::MIN as i64, i8::MAX as i64) as i8
   }
 
   /// If all the things matched OK
-- 
2.43.0


From 802aa57ff69d413d272b9eb90568e89711a0362a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:54 +0000
Subject: [PATCH 086/115] fix: synchronous messages could not be compared with
 match_interaction

---
 rust/pact_matching/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rust/pact_matching/src/lib.rs b/rust/pact_matching/src/lib.rs
index eb6c5a0..d9866b0 100644
--- a/rust/pact_matching/src/lib.rs
+++ b/rust/pact_matching/src/lib.rs
@@ -2467,6 +2467,8 @@ pub async fn match_interaction(
     let mut mismatches = request_result.mismatches();
     mismatches.extend_from_slice(&*response_result);
     Ok(mismatches)
+  } else if let (Some(expected), Some(actual)) = (expected.as_v4_sync_message(), actual.as_v4_sync_message()) {
+    Ok(match_sync_message(expected, actual, &pact).await)
   } else if expected.is_message() || expected.is_v4() {
     Ok(match_message(&expected, &actual, &pact).await)
   } else {
-- 
2.43.0


From c4ce6259f9f6f25e1b21b87dd7b7527022ccc940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:43 +0000
Subject: [PATCH 087/115] fix: generating values in a body changed its content
 type

---
 rust/pact_matching/src/generators/bodies.rs | 29 +++++++++++++++------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/rust/pact_matching/src/generators/bodies.rs b/rust/pact_matching/src/generators/bodies.rs
index a6c6344..71cc8e0 100644
--- a/rust/pact_matching/src/generators/bodies.rs
+++ b/rust/pact_matching/src/generators/bodies.rs
@@ -36,10 +36,12 @@ pub async fn generators_process_body(
       match result {
         Ok(val) => {
           let mut handler = JsonHandler { value: val };
-          Ok(handler.process_body(generators, mode, context, &matcher.boxed()).unwrap_or_else(|err| {
-            error!("Failed to generate the body: {}", err);
-            body.clone()
-          }))
+          Ok(handler.process_body(generators, mode, context, &matcher.boxed())
+            .map(|generated| keep_content_type(generated, body, &content_type))
+            .unwrap_or_else(|err| {
+              error!("Failed to generate the body: {}", err);
+              body.clone()
+            }))
         },
         Err(err) => {
           error!("Failed to parse the body, so not applying any generators: {}", err);
@@ -77,10 +79,12 @@ pub async fn generators_process_body(
         match result {
           Ok(val) => {
             let mut handler = FormUrlEncodedHandler { params: val };
-            Ok(handler.process_body(generators, mode, context, &matcher.boxed()).unwrap_or_else(|err| {
-              error!("Failed to generate the body: {}", err);
-              body.clone()
-            }))
+            Ok(handler.process_body(generators, mode, context, &matcher.boxed())
+              .map(|generated| keep_content_type(generated, body, &content_type))
+              .unwrap_or_else(|err| {
+                error!("Failed to generate the body: {}", err);
+                body.clone()
+              }))
           },
           Err(err) => {
             error!("Failed to parse the body, so not applying any generators: {}", err);
@@ -118,6 +122,15 @@ pub async fn generators_process_body(
   }
 }
 
+/// The generated body has the same content type (and hint) as the one it was generated from
+fn keep_content_type(generated: OptionalBody, body: &OptionalBody, content_type: &ContentType) -> OptionalBody {
+  match (generated, body) {
+    (OptionalBody::Present(contents, _, _), OptionalBody::Present(_, original, hint)) =>
+      OptionalBody::Present(contents, original.clone().or_else(|| Some(content_type.clone())), hint.clone()),
+    (generated, _) => generated
+  }
+}
+
 #[cfg(test)]
 mod tests {
   use expectest::prelude::*;
-- 
2.43.0


From 405dd8efa113fbe6d34ff204ad9d7ebb425a935b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:04 +0000
Subject: [PATCH 088/115] fix: a header was generated twice when the name of
 its generator has another case

---
 rust/pact_matching/src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rust/pact_matching/src/lib.rs b/rust/pact_matching/src/lib.rs
index d9866b0..b259c7c 100644
--- a/rust/pact_matching/src/lib.rs
+++ b/rust/pact_matching/src/lib.rs
@@ -2301,9 +2301,10 @@ pub async fn generate_request(request: &HttpRequest, mode: &GeneratorTestMode, c
     apply_generators(mode, &generators, &mut |key, generator| {
       if let Some(header) = key.first_field() {
         if let Some(ref mut headers) = request.headers {
-          if headers.contains_key(header) {
-            if let Ok(v) = generator.generate_value(&headers.get(header).unwrap().clone(), context, &DefaultVariantMatcher.boxed()) {
-              headers.insert(header.to_string(), v);
+          // Header names are not case-sensitive
+          if let Some((_, values)) = headers.iter_mut().find(|(name, _)| name.eq_ignore_ascii_case(header)) {
+            if let Ok(v) = generator.generate_value(&*values, context, &DefaultVariantMatcher.boxed()) {
+              *values = v;
             }
           } else {
             if let Ok(v) = generator.generate_value(&"".to_string(), context, &DefaultVariantMatcher.boxed()) {
@@ -2382,9 +2383,10 @@ pub async fn generate_response(response: &HttpResponse, mode: &GeneratorTestMode
     apply_generators(mode, &generators, &mut |key, generator| {
       if let Some(header) = key.first_field() {
         if let Some(ref mut headers) = response.headers {
-          if headers.contains_key(header) {
-            if let Ok(v) = generator.generate_value(&headers.get(header).unwrap().clone(), context, &DefaultVariantMatcher.boxed()) {
-              headers.insert(header.to_string(), v);
+          // Header names are not case-sensitive
+          if let Some((_, values)) = headers.iter_mut().find(|(name, _)| name.eq_ignore_ascii_case(header)) {
+            if let Ok(v) = generator.generate_value(&*values, context, &DefaultVariantMatcher.boxed()) {
+              *values = v;
             }
           } else {
             if let Ok(v) = generator.generate_value(&"".to_string(), context, &DefaultVariantMatcher.boxed()) {
-- 
2.43.0


From 456b57a1fbb211ab010e94bba567e23129153dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:16 +0000
Subject: [PATCH 089/115] fix: differences between bodies were coloured when
 coloured output was off

---
 rust/pact_verifier/src/lib.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/rust/pact_verifier/src/lib.rs b/rust/pact_verifier/src/lib.rs
index 042e7f5..3e279ed 100644
--- a/rust/pact_verifier/src/lib.rs
+++ b/rust/pact_verifier/src/lib.rs
@@ -772,13 +772,20 @@ fn display_body_mismatch(
   expected: &dyn Interaction,
   actual: &dyn Interaction,
   path: &str,
-  output: &mut Vec<String>
+  output: &mut Vec<String>,
+  coloured_output: bool
 ) {
   if expected.contents_for_verification().content_type().unwrap_or_default().is_json() {
-    output.push(pact_matching::json::display_diff(
+    let diff = pact_matching::json::display_diff(
       &expected.contents_for_verification().display_string().to_string(),
       &actual.contents_for_verification().display_string().to_string(),
-      path, "    "));
+      path, "    ");
+    if coloured_output {
+      output.push(diff);
+    } else {
+      let ansi_codes = Regex::new("\u{1b}\\[[0-9;]*m").unwrap();
+      output.push(ansi_codes.replace_all(&diff, "").to_string());
+    }
   }
 }
 
@@ -1202,7 +1209,7 @@ pub fn interaction_mismatch_output(
     }
 
     if let Mismatch::BodyMismatch { ref path, .. } = mismatch {
-      display_body_mismatch(expected, actual, path, output);
+      display_body_mismatch(expected, actual, path, output, coloured_output);
     }
 
     j += 1;
-- 
2.43.0


From 8b3678c72a5bdc59d736c04e75bc31efd7585dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:24 +0000
Subject: [PATCH 090/115] fix: query parameters without a value were not sent
 to the provider

---
 rust/pact_verifier/src/provider_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_verifier/src/provider_client.rs b/rust/pact_verifier/src/provider_client.rs
index 28385a8..5366e6d 100644
--- a/rust/pact_verifier/src/provider_client.rs
+++ b/rust/pact_verifier/src/provider_client.rs
@@ -99,7 +99,7 @@ fn create_native_request(
     builder = builder.query(&query.iter()
       .sorted_by(|a, b| Ord::cmp(&a.0, &b.0))
       .flat_map(|(k, v)| {
-        v.iter().map(|v| (k, v)).collect_vec()
+        v.iter().map(|v| (k, v.clone().unwrap_or_default())).collect_vec()
       }).collect_vec());
   }
 
-- 
2.43.0


From fd95cee2d00c9cfd705aec872c16be3f28a0cc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:24 +0000
Subject: [PATCH 091/115] fix: custom headers did not replace headers of the
 pact when the case of the name was different

---
 rust/pact_verifier/src/provider_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_verifier/src/provider_client.rs b/rust/pact_verifier/src/provider_client.rs
index 5366e6d..b5895d6 100644
--- a/rust/pact_verifier/src/provider_client.rs
+++ b/rust/pact_verifier/src/provider_client.rs
@@ -106,7 +106,7 @@ fn create_native_request(
   if let Some(headers) = &request.headers {
     let mut header_map = HeaderMap::new();
     for (k, vals) in headers {
-      if !custom_headers.contains_key(k) {
+      if !custom_headers.keys().any(|name| name.eq_ignore_ascii_case(k)) {
         for header_value in vals {
           let header_name = HeaderName::try_from(k)
             .map_err(|err| ProviderClientError::RequestHeaderNameError(
-- 
2.43.0


From 25cb8090a32045090b53055b791b24e101b990c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:24 +0000
Subject: [PATCH 092/115] fix: state change requests panicked when the number
 of retries was zero

---
 rust/pact_verifier/src/utils.rs | 156 ++++++++++++++++----------------
 1 file changed, 78 insertions(+), 78 deletions(-)

diff --git a/rust/pact_verifier/src/utils.rs b/rust/pact_verifier/src/utils.rs
index 5c6840d..00d300b 100644
--- a/rust/pact_verifier/src/utils.rs
+++ b/rust/pact_verifier/src/utils.rs
@@ -1,78 +1,78 @@
-//! Utility functions
-
-use std::panic::RefUnwindSafe;
-use std::time::Duration;
-
-use futures::StreamExt;
-use pact_models::interaction::Interaction;
-use reqwest::RequestBuilder;
-use tokio::time::sleep;
-use tracing::{trace, warn};
-
-/// Retries a request on failure
-pub(crate) async fn with_retries(retries: u8, request: RequestBuilder) -> Result<reqwest::Response, reqwest::Error> {
-  match &request.try_clone() {
-    None => {
-      warn!("with_retries: Could not retry the request as it is not cloneable");
-      request.send().await
-    }
-    Some(rb) => {
-      futures::stream::iter((1..=retries).step_by(1))
-        .fold((None::<Result<reqwest::Response, reqwest::Error>>, rb.try_clone()), |(response, request), attempt| {
-          async move {
-            match request {
-              Some(request_builder) => match response {
-                None => {
-                  let next = request_builder.try_clone();
-                  (Some(request_builder.send().await), next)
-                },
-                Some(response) => {
-                  trace!("with_retries: attempt {}/{} is {:?}", attempt, retries, response);
-                  match response {
-                    Ok(ref res) => if res.status().is_server_error() {
-                      match request_builder.try_clone() {
-                        None => (Some(response), None),
-                        Some(rb) => {
-                          sleep(Duration::from_millis(10_u64.pow(attempt as u32))).await;
-                          (Some(request_builder.send().await), Some(rb))
-                        }
-                      }
-                    } else {
-                      (Some(response), None)
-                    },
-                    Err(ref err) => if err.is_status() {
-                      if err.status().unwrap_or_default().is_server_error() {
-                        match request_builder.try_clone() {
-                          None => (Some(response), None),
-                          Some(rb) => {
-                            sleep(Duration::from_millis(10_u64.pow(attempt as u32))).await;
-                            (Some(request_builder.send().await), Some(rb))
-                          }
-                        }
-                      } else {
-                        (Some(response), None)
-                      }
-                    } else {
-                      (Some(response), None)
-                    }
-                  }
-                }
-              }
-              None => (response, None)
-            }
-          }
-        }).await.0.unwrap()
-    }
-  }
-}
-
-pub(crate) fn as_safe_ref(interaction: &dyn Interaction) -> Box<dyn Interaction + Send + Sync + RefUnwindSafe> {
-  if let Some(v4) = interaction.as_v4_sync_message() {
-    Box::new(v4)
-  } else if let Some(v4) = interaction.as_v4_async_message() {
-    Box::new(v4)
-  } else {
-    let v4 = interaction.as_v4_http().unwrap();
-    Box::new(v4)
-  }
-}
+//! Utility functions
+
+use std::panic::RefUnwindSafe;
+use std::time::Duration;
+
+use futures::StreamExt;
+use pact_models::interaction::Interaction;
+use reqwest::RequestBuilder;
+use tokio::time::sleep;
+use tracing::{trace, warn};
+
+/// Retries a request on failure
+pub(crate) async fn with_retries(retries: u8, request: RequestBuilder) -> Result<reqwest::Response, reqwest::Error> {
+  match &request.try_clone() {
+    None => {
+      warn!("with_retries: Could not retry the request as it is not cloneable");
+      request.send().await
+    }
+    Some(rb) => {
+      futures::stream::iter((1..=retries.max(1)).step_by(1))
+        .fold((None::<Result<reqwest::Response, reqwest::Error>>, rb.try_clone()), |(response, request), attempt| {
+          async move {
+            match request {
+              Some(request_builder) => match response {
+                None => {
+                  let next = request_builder.try_clone();
+                  (Some(request_builder.send().await), next)
+                },
+                Some(response) => {
+                  trace!("with_retries: attempt {}/{} is {:?}", attempt, retries, response);
+                  match response {
+                    Ok(ref res) => if res.status().is_server_error() {
+                      match request_builder.try_clone() {
+                        None => (Some(response), None),
+                        Some(rb) => {
+                          sleep(Duration::from_millis(10_u64.pow(attempt as u32))).await;
+                          (Some(request_builder.send().await), Some(rb))
+                        }
+                      }
+                    } else {
+                      (Some(response), None)
+                    },
+                    Err(ref err) => if err.is_status() {
+                      if err.status().unwrap_or_default().is_server_error() {
+                        match request_builder.try_clone() {
+                          None => (Some(response), None),
+                          Some(rb) => {
+                            sleep(Duration::from_millis(10_u64.pow(attempt as u32))).await;
+                            (Some(request_builder.send().await), Some(rb))
+                          }
+                        }
+                      } else {
+                        (Some(response), None)
+                      }
+                    } else {
+                      (Some(response), None)
+                    }
+                  }
+                }
+              }
+              None => (response, None)
+            }
+          }
+        }).await.0.unwrap()
+    }
+  }
+}
+
+pub(crate) fn as_safe_ref(interaction: &dyn Interaction) -> Box<dyn Interaction + Send + Sync + RefUnwindSafe> {
+  if let Some(v4) = interaction.as_v4_sync_message() {
+    Box::new(v4)
+  } else if let Some(v4) = interaction.as_v4_async_message() {
+    Box::new(v4)
+  } else {
+    let v4 = interaction.as_v4_http().unwrap();
+    Box::new(v4)
+  }
+}
-- 
2.43.0


From b2b11a67c3db6e1b78a28e263f1996e94b960709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:24 +0000
Subject: [PATCH 093/115] fix: pact files in sub-directories of a pact
 directory were not verified

---
 rust/pact_verifier/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_verifier/src/lib.rs b/rust/pact_verifier/src/lib.rs
index 3e279ed..4a2261c 100644
--- a/rust/pact_verifier/src/lib.rs
+++ b/rust/pact_verifier/src/lib.rs
@@ -753,7 +753,7 @@ fn walkdir(
         let entry = entry?;
         let path = entry.path();
         if path.is_dir() {
-            walkdir(&path, provider)?;
+            pacts.extend(walkdir(&path, provider)?);
         } else {
           match timeit(|| read_pact(&path)) {
             Ok((pact, tm)) => {
-- 
2.43.0


From 353a011d0a23ab607c60a4d8f5eb225ee990e6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:24 +0000
Subject: [PATCH 094/115] fix: notices for failed verifications were displayed
 for successful ones and the other way around

---
 rust/pact_verifier/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust/pact_verifier/src/lib.rs b/rust/pact_verifier/src/lib.rs
index 4a2261c..4eb7217 100644
--- a/rust/pact_verifier/src/lib.rs
+++ b/rust/pact_verifier/src/lib.rs
@@ -1057,6 +1057,10 @@ pub async fn verify_provider_async<F: RequestFilterExecutor, S: ProviderStateExe
               pact_source_duration
             ).await;
 
+            let failed = match &verify_result {
+              Ok(result) => result.results.iter().any(|result| result.result.is_err()),
+              Err(_) => true
+            };
             let mut results = vec![];
             match &verify_result {
               Ok(result) => {
@@ -1092,13 +1096,13 @@ pub async fn verify_provider_async<F: RequestFilterExecutor, S: ProviderStateExe
             if let Some(publish) = publish_options {
               publish_result(results.as_slice(), &pact_source, &publish, metrics_data.as_ref()).await;
 
-              if !errors.is_empty() || !pending_errors.is_empty() {
+              if failed {
                 process_notices(&context, VERIFICATION_NOTICE_AFTER_ERROR_RESULT_AND_PUBLISH, &mut verification_result);
               } else {
                 process_notices(&context, VERIFICATION_NOTICE_AFTER_SUCCESSFUL_RESULT_AND_PUBLISH, &mut verification_result);
               }
             } else {
-              if !errors.is_empty() || pending_errors.is_empty() {
+              if failed {
                 process_notices(&context, VERIFICATION_NOTICE_AFTER_ERROR_RESULT_AND_NO_PUBLISH, &mut verification_result);
               } else {
                 process_notices(&context, VERIFICATION_NOTICE_AFTER_SUCCESSFUL_RESULT_AND_NO_PUBLISH, &mut verification_result);
-- 
2.43.0


From f92efc32d97f7f576dbc652b24517217b23c820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:43 +0000
Subject: [PATCH 095/115] fix: synchronous messages with more than one response
 always failed the verification

---
 rust/pact_verifier/src/messages.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_verifier/src/messages.rs b/rust/pact_verifier/src/messages.rs
index 498e44b..a69dd0b 100644
--- a/rust/pact_verifier/src/messages.rs
+++ b/rust/pact_verifier/src/messages.rs
@@ -339,7 +339,8 @@ pub(crate) async fn verify_sync_message_from_provider<'a, F: RequestFilterExecut
 
         debug!("actual synchronous message = {:?}", actual);
 
-        let mismatches = match_sync_message_response(&message, &message.response, &actual.response, pact).await;
+        let expected_responses = &message.response[..message.response.len().min(1)];
+        let mismatches = match_sync_message_response(&message, expected_responses, &actual.response, pact).await;
         if mismatches.is_empty() {
           Ok(message.id().clone())
         } else {
-- 
2.43.0


From 962c101acdd28914bcc769fa412b0a9b4cd0f5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:07 +0000
Subject: [PATCH 096/115] fix: publishing verification results without a
 provider version panicked

---
 rust/pact_verifier/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rust/pact_verifier/src/lib.rs b/rust/pact_verifier/src/lib.rs
index 4eb7217..acda939 100644
--- a/rust/pact_verifier/src/lib.rs
+++ b/rust/pact_verifier/src/lib.rs
@@ -1623,6 +1623,10 @@ async fn publish_to_broker(
   auth: Option<HttpAuth>,
   metrics_data: Option<&VerificationMetrics>
 ) -> Result<Value, pact_broker::PactBrokerError> {
+  let provider_version = provider_version.clone()
+    .ok_or_else(|| pact_broker::PactBrokerError::ValidationError(
+      vec!["A provider version is required to publish verification results".to_string()]))?;
+
   info!("Publishing verification results back to the Pact Broker");
   let result = if results.iter().all(|r| r.result.is_ok()) {
     debug!("Publishing a successful result to {}", source);
@@ -1640,7 +1644,7 @@ async fn publish_to_broker(
     broker_url.as_str(),
     auth.clone(),
     result,
-    provider_version.clone().unwrap(),
+    provider_version,
     build_url.clone(),
     provider_tags.clone(),
     provider_branch.clone(),
-- 
2.43.0


From 08078921239faba178ff90964abb03189396d657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:30 +0000
Subject: [PATCH 097/115] fix: the query of HAL links was not sent to the Pact
 broker

---
 rust/pact_verifier/src/pact_broker.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/rust/pact_verifier/src/pact_broker.rs b/rust/pact_verifier/src/pact_broker.rs
index 3f186af..fa79440 100644
--- a/rust/pact_verifier/src/pact_broker.rs
+++ b/rust/pact_verifier/src/pact_broker.rs
@@ -69,6 +69,13 @@ fn find_entry(map: &serde_json::Map<String, Value>, key: &str) -> Option<(String
     }
 }
 
+fn path_and_query(url: &Url) -> String {
+  match url.query() {
+    Some(query) => format!("{}?{}", url.path(), query),
+    None => url.path().to_string()
+  }
+}
+
 /// Errors that can occur with a Pact Broker
 #[derive(Debug, Clone, thiserror::Error)]
 pub enum PactBrokerError {
@@ -286,7 +293,7 @@ impl HALClient {
 
     let base_url = self.url.parse::<Url>()?;
     let joined_url = base_url.join(&link_url)?;
-    self.fetch(joined_url.path().into()).await
+    self.fetch(path_and_query(&joined_url).as_str()).await
   }
 
   async fn fetch(&self, path: &str) -> Result<Value, PactBrokerError> {
@@ -321,7 +328,11 @@ impl HALClient {
   fn resolve_path(&self, path: &str) -> Result<Url, PactBrokerError> {
     let broker_url = self.url.parse::<Url>()?;
     let context_path = broker_url.path();
-    let url = if path.is_empty() {
+    let (path, query) = match path.split_once('?') {
+      Some((path, query)) => (path, Some(query)),
+      None => (path, None)
+    };
+    let mut url = if path.is_empty() {
       broker_url
     } else if !context_path.is_empty() && context_path != "/" {
       if path.starts_with(context_path) {
@@ -342,6 +353,9 @@ impl HALClient {
     } else {
       broker_url.join(path)?
     };
+    if query.is_some() {
+      url.set_query(query);
+    }
     Ok(url)
   }
 
@@ -477,7 +491,7 @@ impl HALClient {
       base_url.join(url)?
     } else {
       let url = url.parse::<Url>()?;
-      base_url.join(&url.path())?
+      base_url.join(path_and_query(&url).as_str())?
     };
 
     let request_builder = match self.auth {
-- 
2.43.0


From e1a2a609d969d5bf57f61e91fc77960e2019aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:30 +0000
Subject: [PATCH 098/115] fix: an empty list of pacts from the Pact broker was
 not reported as an error

---
 rust/pact_verifier/src/pact_broker.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/pact_verifier/src/pact_broker.rs b/rust/pact_verifier/src/pact_broker.rs
index fa79440..e615431 100644
--- a/rust/pact_verifier/src/pact_broker.rs
+++ b/rust/pact_verifier/src/pact_broker.rs
@@ -613,6 +613,10 @@ pub async fn fetch_pacts_from_broker(
         })?;
 
     let pact_links = hal_client.clone().iter_links("pacts")?;
+    if pact_links.is_empty() {
+      return Err(anyhow!(PactBrokerError::NotFound(
+        format!("No pacts for provider '{}' where found in the pact broker. URL: '{}'", provider_name, broker_url))))
+    }
 
     let results: Vec<_> = futures::stream::iter(pact_links)
         .map(|ref pact_link| {
-- 
2.43.0


From 8f85937afbaae975c9b2160d3d05a5bcc2be45e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:30 +0000
Subject: [PATCH 099/115] fix: only the notices of the last pact were returned
 with the result

---
 rust/pact_verifier/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/pact_verifier/src/lib.rs b/rust/pact_verifier/src/lib.rs
index acda939..5bf1e0e 100644
--- a/rust/pact_verifier/src/lib.rs
+++ b/rust/pact_verifier/src/lib.rs
@@ -949,7 +949,9 @@ const VERIFICATION_NOTICE_AFTER_ERROR_RESULT_AND_NO_PUBLISH: &str = "after_verif
 
 fn process_notices(context: &Option<PactVerificationContext>, stage: &str, result: &mut VerificationExecutionResult) {
   if let Some(c) = context {
-    result.notices = c.verification_properties.notices.clone();
+    if stage == VERIFICATION_NOTICE_BEFORE {
+      result.notices.extend_from_slice(c.verification_properties.notices.as_slice());
+    }
     for notice in &c.verification_properties.notices {
       if let Some(when) = notice.get("when") {
         if when.as_str() == stage {
-- 
2.43.0


From 7311caffac812ff456821ed8690c93fc7dca78ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:10 +0000
Subject: [PATCH 100/115] fix: using the handle of an interaction that could
 not be created could end the process

---
 rust/pact_ffi/src/mock_server/handles.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index 393fda3..5eed5db 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -292,7 +292,8 @@ impl InteractionHandle {
       let inner_mut = &mut *inner.borrow_mut();
       trace!("with_interaction - inner = {:?}", inner_mut);
       let interactions = &mut inner_mut.pact.interactions;
-      match interactions.get_mut((interaction - 1) as usize) {
+      // An index of zero is the handle of an interaction that was never created
+      match (interaction as usize).checked_sub(1).and_then(|index| interactions.get_mut(index)) {
         Some(inner_i) => {
           Some(f(interaction - 1, inner_mut.mock_server_started, inner_i.as_mut()))
         },
@@ -405,7 +406,9 @@ impl MessageHandle {
     handles.get_mut(&index).map(|inner| {
       let mut ref_mut = inner.borrow_mut();
       let specification = ref_mut.specification_version;
-      ref_mut.pact.interactions.get_mut((interaction - 1) as usize)
+      // An index of zero is the handle of a message that was never created
+      (interaction as usize).checked_sub(1)
+        .and_then(|index| ref_mut.pact.interactions.get_mut(index))
         .map(|inner_i| {
           if inner_i.is_message() {
             Some(f(interaction - 1, inner_i.as_mut(), specification))
-- 
2.43.0


From 8a4f94c5bd05bba6f4ed231b493ff9bb4c69cc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:03 +0000
Subject: [PATCH 101/115] fix: setting a second metadata value of a message
 pact removed the values set before in that namespace

---
 rust/pact_ffi/src/mock_server/handles.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index 5eed5db..650b082 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -3072,7 +3072,14 @@ pub extern fn pactffi_with_message_pact_metadata(pact: MessagePactHandle, namesp
     let value = convert_cstr("value", value).unwrap_or_default();
 
     if !namespace.is_empty() {
-      inner.metadata.insert(namespace.to_string(), json!({ name: value }));
+      match inner.metadata.get_mut(namespace).and_then(|md| md.as_object_mut()) {
+        Some(md) => {
+          md.insert(name.to_string(), json!(value));
+        }
+        None => {
+          inner.metadata.insert(namespace.to_string(), json!({ name: value }));
+        }
+      }
     } else {
       warn!("no namespace provided for metadata {:?} => {:?}. Ignoring", name, value);
     }
-- 
2.43.0


From f072d662b02884d554ee28d390aeeeb5a89ea2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:15 +0000
Subject: [PATCH 102/115] fix: the contentType metadata of a message was not
 used as the content type of its contents

---
 rust/pact_ffi/src/mock_server/handles.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index 650b082..c0b2500 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -1904,10 +1904,12 @@ pub extern "C" fn pactffi_with_body(
                 !mock_server_started
             } else if let Some(message) = inner.as_v4_async_message_mut() {
                 trace!("Processing async message body");
+                let content_type_hint = message.contents.lookup_content_type()
+                    .and_then(|ct| ContentType::parse(ct.as_str()).ok());
                 message.contents.contents = process_body(
                     body,
                     &content_type,
-                    &None,
+                    &content_type_hint,
                     &mut message.contents.matching_rules,
                     &mut message.contents.generators,
                 );
@@ -1928,10 +1930,12 @@ pub extern "C" fn pactffi_with_body(
                         message.response.last_mut().unwrap()
                     }
                 };
+                let content_type_hint = contents.lookup_content_type()
+                    .and_then(|ct| ContentType::parse(ct.as_str()).ok());
                 contents.contents = process_body(
                     body,
                     &content_type,
-                    &None,
+                    &content_type_hint,
                     &mut contents.matching_rules,
                     &mut contents.generators,
                 );
-- 
2.43.0


From ebb7395896f31e712e12cf263b417c3bf2a96ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:57 +0000
Subject: [PATCH 103/115] fix: setting a body added a second content type
 header when there is one in another case

---
 rust/pact_ffi/src/mock_server/handles.rs | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index c0b2500..961e4f6 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -1864,14 +1864,9 @@ pub extern "C" fn pactffi_with_body(
                                 "Setting request content type header to '{}' (if not already set)",
                                 ct
                             );
-                            if let Some(headers) = http.request.headers.as_mut() {
-                                headers
-                                    .entry(content_type_header.to_string())
-                                    .or_insert_with(|| vec![ct.to_string()]);
-                            } else {
-                                http.request.headers = Some(hashmap! {
-                                    content_type_header.clone() => vec![ct.to_string()]
-                                });
+                            if !http.request.has_header(&content_type_header) {
+                                http.request.headers_mut()
+                                    .insert(content_type_header.clone(), vec![ct.to_string()]);
                             }
                         }
                     }
@@ -1889,14 +1884,9 @@ pub extern "C" fn pactffi_with_body(
                                 "Setting response content type header to '{}' (if not already set)",
                                 ct
                             );
-                            if let Some(headers) = http.response.headers.as_mut() {
-                                headers
-                                    .entry(content_type_header.to_string())
-                                    .or_insert_with(|| vec![ct.to_string()]);
-                            } else {
-                                http.response.headers = Some(hashmap! {
-                                    content_type_header.clone() => vec![ct.to_string()]
-                                });
+                            if !http.response.has_header(&content_type_header) {
+                                http.response.headers_mut()
+                                    .insert(content_type_header.clone(), vec![ct.to_string()]);
                             }
                         }
                     }
-- 
2.43.0


From 94649c9471ecebeef9fdcfb29d4c8616b6378e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:57 +0000
Subject: [PATCH 104/115] fix: setting a body with a content type that can not
 be parsed ended the process

---
 rust/pact_ffi/src/mock_server/handles.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index 961e4f6..ba80449 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -1841,7 +1841,10 @@ pub extern "C" fn pactffi_with_body(
         body
     );
     let content_type =
-        convert_cstr("content_type", content_type).map(|ct| ContentType::parse(ct).unwrap());
+        convert_cstr("content_type", content_type).map(|ct| ContentType::parse(ct).unwrap_or_else(|err| {
+            warn!("Failed to parse '{}' as a content type: {}. Will use text/plain", ct, err);
+            TEXT.clone()
+        }));
     trace!(?content_type);
     let content_type_header = "Content-Type".to_string();
     let body = convert_cstr("body", body).unwrap_or_default();
-- 
2.43.0


From 7ab7953378b43430efec47f8737b9f559065c163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:02 +0000
Subject: [PATCH 105/115] fix: a matching rule for metadata with a key that is
 not a path expression ended the process

---
 rust/pact_ffi/src/mock_server/handles.rs | 26 ++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index ba80449..4420150 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -1092,6 +1092,16 @@ fn from_integration_json_v2(
   }
 }
 
+// Path for the matching rules and generators of a metadata value. Keys that are not valid path
+// expressions are used as a field name.
+fn metadata_path(key: &str) -> DocPath {
+  DocPath::new(key).unwrap_or_else(|_| {
+    let mut path = DocPath::root();
+    path.push_field(key);
+    path
+  })
+}
+
 pub(crate) fn process_xml(body: String, matching_rules: &mut MatchingRuleCategory, generators: &mut Generators) -> Result<Vec<u8>, String> {
   trace!("process_xml");
   match serde_json::from_str(&body) {
@@ -1273,8 +1283,8 @@ pub extern fn pactffi_with_metadata(
           let matching_rules = message.contents.matching_rules.add_category(Category::METADATA);
           let generators = &mut message.contents.generators;
           let value = match json {
-            Value::Object(map) => process_object(&map, matching_rules, generators, DocPath::new(key).unwrap(), false),
-            Value::Array(array) => process_array(array.as_slice(), matching_rules, generators, DocPath::new(key).unwrap(), false, false),
+            Value::Object(map) => process_object(&map, matching_rules, generators, metadata_path(key), false),
+            Value::Array(array) => process_array(array.as_slice(), matching_rules, generators, metadata_path(key), false, false),
             json => json.clone()
           };
         message.contents.metadata.insert(key.to_string(), value);
@@ -1294,8 +1304,8 @@ pub extern fn pactffi_with_metadata(
           let matching_rules = message.request.matching_rules.add_category(Category::METADATA);
           let generators = &mut message.request.generators;
           let value = match json {
-            Value::Object(map) => process_object(&map, matching_rules, generators, DocPath::new(key).unwrap(), false),
-            Value::Array(array) => process_array(array.as_slice(), matching_rules, generators, DocPath::new(key).unwrap(), false, false),
+            Value::Object(map) => process_object(&map, matching_rules, generators, metadata_path(key), false),
+            Value::Array(array) => process_array(array.as_slice(), matching_rules, generators, metadata_path(key), false, false),
             json => json.clone()
           };
           message.request.metadata.insert(key.to_string(), value);
@@ -1305,8 +1315,8 @@ pub extern fn pactffi_with_metadata(
             let matching_rules = response.matching_rules.add_category(Category::METADATA);
             let generators = &mut response.generators;
             let value = match json {
-              Value::Object(map) => process_object(&map, matching_rules, generators, DocPath::new(key).unwrap(), false),
-              Value::Array(array) => process_array(array.as_slice(), matching_rules, generators, DocPath::new(key).unwrap(), false, false),
+              Value::Object(map) => process_object(&map, matching_rules, generators, metadata_path(key), false),
+              Value::Array(array) => process_array(array.as_slice(), matching_rules, generators, metadata_path(key), false, false),
               json => json.clone()
             };
             response.metadata.insert(key.to_string(), value);
@@ -2960,8 +2970,8 @@ pub extern fn pactffi_message_with_metadata_v2(message_handle: MessageHandle, ke
         let generators = &mut message.contents.generators;
         let value = match serde_json::from_str(value) {
           Ok(json) => match json {
-            Value::Object(map) => process_object(&map, matching_rules, generators, DocPath::new(key).unwrap(), false),
-            Value::Array(array) => process_array(array.as_slice(), matching_rules, generators, DocPath::new(key).unwrap(), false, false),
+            Value::Object(map) => process_object(&map, matching_rules, generators, metadata_path(key), false),
+            Value::Array(array) => process_array(array.as_slice(), matching_rules, generators, metadata_path(key), false, false),
             Value::Null => Value::Null,
             _ => json
           },
-- 
2.43.0


From 03ec7af28c3a59a3d9460fe80ed7406f852c85fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:09 +0000
Subject: [PATCH 106/115] fix: only the first of several examples of an XML
 element had its text

---
 rust/pact_ffi/src/mock_server/xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_ffi/src/mock_server/xml.rs b/rust/pact_ffi/src/mock_server/xml.rs
index 4b2f23f..bd0bc89 100644
--- a/rust/pact_ffi/src/mock_server/xml.rs
+++ b/rust/pact_ffi/src/mock_server/xml.rs
@@ -266,7 +266,7 @@ fn duplicate_element<'a>(doc: Document<'a>, el: &Element<'a>) -> Element<'a> {
   for child in el.children() {
     match child {
       ChildOfElement::Element(el) => element.append_child(duplicate_element(doc, &el)),
-      ChildOfElement::Text(txt) => element.append_child(txt),
+      ChildOfElement::Text(txt) => element.append_child(doc.create_text(txt.text())),
       _ => ()
     }
   }
-- 
2.43.0


From d26d040dad903d108f6b983d00aa33c596f47757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:46 +0000
Subject: [PATCH 107/115] fix: rules for XML elements with a dot in their name
 were set for another element

---
 rust/pact_ffi/src/mock_server/xml.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/xml.rs b/rust/pact_ffi/src/mock_server/xml.rs
index bd0bc89..936f047 100644
--- a/rust/pact_ffi/src/mock_server/xml.rs
+++ b/rust/pact_ffi/src/mock_server/xml.rs
@@ -73,7 +73,7 @@ fn create_element_from_json<'a>(
       if let Value::Object(attr) = val {
         let name = json_to_string(attr.get("name").unwrap());
         updated_path.push(&name);
-        let doc_path = DocPath::new(updated_path.join(".").to_string()).unwrap_or(DocPath::root());
+        let doc_path = element_path(&updated_path);
 
         if let Ok((rules, generator)) = matchers_from_integration_json(object) {
           for rule in rules {
@@ -132,7 +132,7 @@ fn create_element_from_json<'a>(
     if let Some(matcher) = object.get("matcher") {
       let mut text_path = path.clone();
       text_path.push("#text");
-      let doc_path = DocPath::new(&text_path.join(".")).unwrap_or(DocPath::root());
+      let doc_path = element_path(&text_path);
 
       if let Value::Object(matcher) = matcher {
         if let Ok((rules, generator)) = matchers_from_integration_json(matcher) {
@@ -215,6 +215,21 @@ fn create_element_from_json<'a>(
   }
 }
 
+// Path to an element from the names of its ancestors and itself. The names can contain characters
+// which have a meaning in path expressions (i.e. "a.b").
+fn element_path(path: &Vec<&str>) -> DocPath {
+  match DocPath::new(path.join(".")) {
+    Ok(doc_path) if doc_path.len() == path.len() => doc_path,
+    _ => {
+      let mut doc_path = DocPath::root();
+      for name in path.iter().skip(1) {
+        doc_path.push_field(*name);
+      }
+      doc_path
+    }
+  }
+}
+
 fn add_attributes(
   element: &Element,
   attributes: &Map<String, Value>,
@@ -224,7 +239,7 @@ fn add_attributes(
 ) {
   trace!("add_attributes: attributes = {:?}", attributes);
   for (k, v) in attributes {
-    let path = format!("{}['@{}']", path.join("."), k);
+    let path = format!("{}['@{}']", element_path(path), k);
 
     let value = match v {
       Value::Object(matcher_definition) => if matcher_definition.contains_key("pact:matcher:type") {
-- 
2.43.0


From f86be01d42262c2fcec58dde815873d609a1fdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:53 +0000
Subject: [PATCH 108/115] fix: a value that can not be in a form removed the
 rules of other values with a similar name

---
 rust/pact_ffi/src/mock_server/form_urlencoded.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/form_urlencoded.rs b/rust/pact_ffi/src/mock_server/form_urlencoded.rs
index b8c886d..dae2f3d 100644
--- a/rust/pact_ffi/src/mock_server/form_urlencoded.rs
+++ b/rust/pact_ffi/src/mock_server/form_urlencoded.rs
@@ -1,6 +1,5 @@
 //! Form UrlEncoded matching support
 
-use std::collections::HashMap;
 use serde_json::Value;
 use tracing::{debug, error, trace};
 
@@ -52,11 +51,9 @@ fn convert_json_value_to_query_params(value: Value, matching_rules: &mut Matchin
 }
 
 fn handle_form_urlencoded_invalid_value(value: &Value, path: &DocPath, matching_rules: &mut MatchingRuleCategory, generators: &mut Generators) {
-  for key in matching_rules.clone().rules.keys() {
-    if String::from(key).contains(&String::from(path)) {
-      matching_rules.rules.remove(&key);
-      generators.categories.entry(GeneratorCategory::BODY).or_insert(HashMap::new()).remove(&key);
-    }
+  matching_rules.rules.retain(|key, _| !key.tokens().starts_with(path.tokens()));
+  if let Some(body_generators) = generators.categories.get_mut(&GeneratorCategory::BODY) {
+    body_generators.retain(|key, _| !key.tokens().starts_with(path.tokens()));
   }
   error!("Value '{:?}' is not supported in form urlencoded. Matchers and generators (if defined) are removed", value);
 }
-- 
2.43.0


From 4a3cfdb245e9c53b37dc909d5f0fa215164051e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:53 +0000
Subject: [PATCH 109/115] fix: a form body that only begins like a JSON
 document ended the process

---
 rust/pact_ffi/src/mock_server/form_urlencoded.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust/pact_ffi/src/mock_server/form_urlencoded.rs b/rust/pact_ffi/src/mock_server/form_urlencoded.rs
index dae2f3d..869ebc2 100644
--- a/rust/pact_ffi/src/mock_server/form_urlencoded.rs
+++ b/rust/pact_ffi/src/mock_server/form_urlencoded.rs
@@ -15,7 +15,13 @@ pub fn process_form_urlencoded_json(body: String, matching_rules: &mut MatchingR
   trace!("process_form_urlencoded_json");
   let json = process_json(body, matching_rules, generators);
   debug!("form_urlencoded json: {json}");
-  let values: Value = serde_json::from_str(json.as_str()).unwrap();
+  let values: Value = match serde_json::from_str(json.as_str()) {
+    Ok(values) => values,
+    Err(err) => {
+      error!("Failed to parse the form urlencoded body as JSON, will use it as is: {}", err);
+      return json;
+    }
+  };
   debug!("form_urlencoded values: {values}");
   let params = convert_json_value_to_query_params(values, matching_rules, generators);
   debug!("form_urlencoded params: {:?}", params);
-- 
2.43.0


From 255aa41dad45fec43a6ebc157f8939eea3be75dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:59 +0000
Subject: [PATCH 110/115] fix: an invalid description of an XML body ended the
 process

---
 rust/pact_ffi/src/mock_server/xml.rs | 37 +++++++++++++++-------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/xml.rs b/rust/pact_ffi/src/mock_server/xml.rs
index 936f047..5a3ebc1 100644
--- a/rust/pact_ffi/src/mock_server/xml.rs
+++ b/rust/pact_ffi/src/mock_server/xml.rs
@@ -32,7 +32,7 @@ pub fn generate_xml_body(
   match attributes.get("root") {
     Some(val) => match val {
       Value::Object(obj) => {
-        match create_element_from_json(doc, None, obj, matching_rules, generators, &vec!["$"], false, &mut hashmap!{}) {
+        match create_element_from_json(doc, None, obj, matching_rules, generators, &vec!["$"], false, &mut hashmap!{})? {
           Either::Left(element) => doc.root().append_child(element),
           Either::Right(_) => warn!("Can't append text node to the root")
         }
@@ -63,7 +63,7 @@ fn create_element_from_json<'a>(
   path: &Vec<&str>,
   _type_matcher: bool,
   namespaces: &mut HashMap<String, String>
-) -> Either<Element<'a>, Text<'a>> {
+) -> Result<Either<Element<'a>, Text<'a>>, String> {
   trace!("create_element_from_json {:?}: object = {:?}", path, object);
   let mut element = None;
   let mut text = None;
@@ -71,7 +71,10 @@ fn create_element_from_json<'a>(
     let mut updated_path = path.clone();
     if let Some(val) = object.get("value") {
       if let Value::Object(attr) = val {
-        let name = json_to_string(attr.get("name").unwrap());
+        let name = match attr.get("name") {
+          Some(name) => json_to_string(name),
+          None => return Err(format!("Intermediate JSON format is invalid, element has no name: {:?}", val))
+        };
         updated_path.push(&name);
         let doc_path = element_path(&updated_path);
 
@@ -111,21 +114,21 @@ fn create_element_from_json<'a>(
                 Value::Object(attributes) => {
                   let mut updated_path = path.clone();
                   updated_path.push(new_element.name().local_part());
-                  create_element_from_json(doc, Some(new_element), attributes, matching_rules, generators, &updated_path, true, namespaces);
+                  create_element_from_json(doc, Some(new_element), attributes, matching_rules, generators, &updated_path, true, namespaces)?;
                 },
-                _ => panic!("Intermediate JSON format is invalid, child is not an object: {:?}", child)
+                _ => return Err(format!("Intermediate JSON format is invalid, child is not an object: {:?}", child))
               }
             },
-            _ => panic!("Intermediate JSON format is invalid, children is not an Array: {:?}", children)
+            _ => return Err(format!("Intermediate JSON format is invalid, children is not an Array: {:?}", children))
           }
         };
 
         element = Some(new_element)
       } else {
-        panic!("Intermediate JSON format is invalid, corresponding value for the given matcher was not an object: {:?}", object)
+        return Err(format!("Intermediate JSON format is invalid, corresponding value for the given matcher was not an object: {:?}", object))
       }
     } else {
-      panic!("Intermediate JSON format is invalid, no corresponding value for the given matcher: {:?}", object)
+      return Err(format!("Intermediate JSON format is invalid, no corresponding value for the given matcher: {:?}", object))
     }
   } else if let Some(content) = object.get("content") {
     text = Some(doc.create_text(json_to_string(content).as_str()));
@@ -175,23 +178,23 @@ fn create_element_from_json<'a>(
             Value::Object(attributes) => {
               let mut updated_path = path.clone();
               updated_path.push(&name);
-              create_element_from_json(doc, Some(new_element), attributes, matching_rules, generators, &updated_path, false, namespaces);
+              create_element_from_json(doc, Some(new_element), attributes, matching_rules, generators, &updated_path, false, namespaces)?;
             },
-            _ => panic!("Intermediate JSON format is invalid, child is not an object: {:?}", child)
+            _ => return Err(format!("Intermediate JSON format is invalid, child is not an object: {:?}", child))
           }
         },
-        _ => panic!("Intermediate JSON format is invalid, children is not an Array: {:?}", children)
+        _ => return Err(format!("Intermediate JSON format is invalid, children is not an Array: {:?}", children))
       }
     };
     element = Some(new_element);
   } else {
-    panic!("Ignoring invalid object {:?}", object);
+    return Err(format!("Intermediate JSON format is invalid, found an invalid object {:?}", object));
   };
 
   if let Some(parent) = parent {
     let examples = match object.get("examples") {
       Some(val) => match val {
-        Number(val) => val.as_u64().unwrap(),
+        Number(val) => val.as_u64().unwrap_or(1),
         _ => 1
       }
       None => 1
@@ -207,11 +210,11 @@ fn create_element_from_json<'a>(
   }
 
   if let Some(element) = element {
-    Either::Left(element)
+    Ok(Either::Left(element))
   } else if let Some(text) = text {
-    Either::Right(text)
+    Ok(Either::Right(text))
   } else {
-    panic!("Intermediate JSON was mapped to neither an element or a text node")
+    Err("Intermediate JSON was mapped to neither an element or a text node".to_string())
   }
 }
 
@@ -260,7 +263,7 @@ fn add_attributes(
             _ => ()
           };
         }
-        json_to_string(matcher_definition.get("value").unwrap())
+        matcher_definition.get("value").map(json_to_string).unwrap_or_default()
       } else {
         json_to_string(&v)
       },
-- 
2.43.0


From 568a46665285849234953bdb48946526f3335af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:19 +0000
Subject: [PATCH 111/115] fix: generating a value for a regex with anchors
 ended the process

---
 rust/pact_ffi/src/mock_server/mod.rs | 29 +++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/mod.rs b/rust/pact_ffi/src/mock_server/mod.rs
index c8bc41e..01e2b3e 100644
--- a/rust/pact_ffi/src/mock_server/mod.rs
+++ b/rust/pact_ffi/src/mock_server/mod.rs
@@ -641,12 +641,10 @@ pub unsafe extern fn pactffi_check_regex(regex: *const c_char, example: *const c
 /// Generates an example string based on the provided regex.
 pub fn generate_regex_value_internal(regex: &str) -> Result<String, String> {
   let mut parser = regex_syntax::ParserBuilder::new().unicode(false).build();
-  match parser.parse(regex) {
-    Ok(hir) => {
-      let mut rnd = rand::thread_rng();
-      let gen = rand_regex::Regex::with_hir(hir, 20).unwrap();
-      let result: String = rnd.sample(gen);
-      Ok(result)
+  match parser.parse(strip_anchors(regex)) {
+    Ok(hir) => match rand_regex::Regex::with_hir(hir, 20) {
+      Ok(gen) => Ok(rand::thread_rng().sample(gen)),
+      Err(err) => Err(format!("generate_regex_value: can not generate a value for '{}' - {}", regex, err))
     },
     Err(err) => {
       let error = format!("generate_regex_value: '{}' is not a valid regular expression - {}", regex, err);
@@ -655,6 +653,16 @@ pub fn generate_regex_value_internal(regex: &str) -> Result<String, String> {
   }
 }
 
+// The generated value is for the whole regex, so the anchors at its start and end have no effect on it
+fn strip_anchors(regex: &str) -> &str {
+  let regex = regex.strip_prefix('^').unwrap_or(regex);
+  match regex.strip_suffix('$') {
+    // An odd number of backslashes before the '$' means that it is escaped
+    Some(stripped) if stripped.bytes().rev().take_while(|b| *b == b'\\').count() % 2 == 0 => stripped,
+    _ => regex
+  }
+}
+
 /// Generates an example string based on the provided regex.
 /// NOTE: The memory for the returned string needs to be freed with the `pactffi_string_delete` function.
 ///
@@ -671,9 +679,12 @@ pub unsafe extern fn pactffi_generate_regex_value(regex: *const c_char) -> Strin
     let c_str = CStr::from_ptr(regex);
     match c_str.to_str() {
       Ok(regex) => match generate_regex_value_internal(regex) {
-        Ok(val) => {
-          let result_str = CString::new(val.as_str()).unwrap();
-          StringResult::Ok(result_str.into_raw())
+        Ok(val) => match CString::new(val) {
+          Ok(result_str) => StringResult::Ok(result_str.into_raw()),
+          Err(err) => {
+            let error = CString::new(format!("generate_regex_value: generated value can not be returned as a C string: {}", err)).unwrap();
+            StringResult::Failed(error.into_raw())
+          }
         },
         Err(err) => {
           let error = CString::new(err).unwrap();
-- 
2.43.0


From a4815b20c7a98fb650b8d45ee566f10c6da18af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:19 +0000
Subject: [PATCH 112/115] fix: a negative buffer length for the error message
 was used as a huge one

---
 rust/pact_ffi/src/error/ffi.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rust/pact_ffi/src/error/ffi.rs b/rust/pact_ffi/src/error/ffi.rs
index bc417b7..7fe9f93 100644
--- a/rust/pact_ffi/src/error/ffi.rs
+++ b/rust/pact_ffi/src/error/ffi.rs
@@ -53,6 +53,11 @@ pub extern "C" fn pactffi_get_error_message(
         return Status::NullBuffer as c_int;
     }
 
+    // A negative length can't hold anything.
+    if length < 0 {
+        return Status::BufferTooSmall as c_int;
+    }
+
     // Convert the buffer raw pointer into a byte slice.
     let buffer = unsafe {
         slice::from_raw_parts_mut(buffer as *mut u8, length as usize)
-- 
2.43.0


From c60bfd14ecd0e6beb1451f3477e7e5c95c922432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:19 +0000
Subject: [PATCH 113/115] fix: message metadata that is not a string was
 returned as an empty string

---
 rust/pact_ffi/src/models/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_ffi/src/models/message.rs b/rust/pact_ffi/src/models/message.rs
index 5fff1ad..2f30a35 100644
--- a/rust/pact_ffi/src/models/message.rs
+++ b/rust/pact_ffi/src/models/message.rs
@@ -491,7 +491,7 @@ ffi_fn! {
         let message = as_ref!(message);
         let key = safe_str!(key);
         let value = message.metadata.get(key).ok_or(anyhow::anyhow!("invalid metadata key"))?;
-        let value_ptr = string::to_c(value.as_str().unwrap_or_default())?;
+        let value_ptr = string::to_c(json_to_string(value).as_str())?;
         value_ptr as *const c_char
     } {
         std::ptr::null()
-- 
2.43.0


From 9f33b7278e7702eae56b630fed0d606e4c4adac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:28 +0000
Subject: [PATCH 114/115] fix: only a part of the buffer after the error
 message was zeroed

---
 rust/pact_ffi/src/util/write.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rust/pact_ffi/src/util/write.rs b/rust/pact_ffi/src/util/write.rs
index 03b23f5..4ffc2ca 100644
--- a/rust/pact_ffi/src/util/write.rs
+++ b/rust/pact_ffi/src/util/write.rs
@@ -67,13 +67,11 @@ trait ZeroizedWrite: Write {
 
 impl<'a> ZeroizedWrite for &'a mut [u8] {
     fn zeroized_write(mut self, buf: &[u8]) -> io::Result<usize> {
-        // Write the buffer.
+        // Write the buffer. This advances the slice to what comes after the written bytes.
         let bytes = self.write(buf)?;
 
-        // Check if there's a remainder and zeroize if there is.
-        if let Some(remainder) = self.get_mut(buf.len()..) {
-            remainder.iter_mut().zeroize();
-        }
+        // Zeroize the remainder, if there is any.
+        self.iter_mut().zeroize();
 
         Ok(bytes)
     }
-- 
2.43.0


From e03ba77d359635d571886bbdcc81b089dd9c9228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:18 +0000
Subject: [PATCH 115/115] fix: contents set through the C functions pointed to
 memory of the caller

---
 rust/pact_ffi/src/mock_server/handles.rs     | 4 ++--
 rust/pact_ffi/src/models/async_message.rs    | 4 ++--
 rust/pact_ffi/src/models/contents.rs         | 4 ++--
 rust/pact_ffi/src/models/http_interaction.rs | 8 ++++----
 rust/pact_ffi/src/models/message.rs          | 4 ++--
 rust/pact_ffi/src/models/sync_message.rs     | 8 ++++----
 6 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index 4420150..2c5a090 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -2913,10 +2913,10 @@ pub extern fn pactffi_message_with_contents(message_handle: MessageHandle, conte
         } else if content_type.is_text() || content_type.is_json() {
           OptionalBody::Present(Bytes::from(process_json(body_str.to_string(), category, &mut message.contents.generators)), Some(content_type), None)
         } else {
-          OptionalBody::Present(Bytes::from(unsafe { std::slice::from_raw_parts(body, size) }), Some(content_type), None)
+          OptionalBody::Present(Bytes::copy_from_slice(unsafe { std::slice::from_raw_parts(body, size) }), Some(content_type), None)
         }
       } else {
-        OptionalBody::Present(Bytes::from(unsafe { std::slice::from_raw_parts(body, size) }), None, None)
+        OptionalBody::Present(Bytes::copy_from_slice(unsafe { std::slice::from_raw_parts(body, size) }), None, None)
       };
 
       message.contents.contents = body;
diff --git a/rust/pact_ffi/src/models/async_message.rs b/rust/pact_ffi/src/models/async_message.rs
index 6c9bf4d..bae3917 100644
--- a/rust/pact_ffi/src/models/async_message.rs
+++ b/rust/pact_ffi/src/models/async_message.rs
@@ -160,7 +160,7 @@ ffi_fn! {
     } else {
       let contents = safe_str!(contents);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
-      message.contents.contents = OptionalBody::Present(Bytes::from(contents), content_type, Some(ContentTypeHint::TEXT));
+      message.contents.contents = OptionalBody::Present(Bytes::copy_from_slice(contents.as_bytes()), content_type, Some(ContentTypeHint::TEXT));
     }
   }
 }
@@ -242,7 +242,7 @@ ffi_fn! {
       message.contents.contents = OptionalBody::Null;
     } else {
       let slice = unsafe { std::slice::from_raw_parts(contents, len) };
-      let contents = Bytes::from(slice);
+      let contents = Bytes::copy_from_slice(slice);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
       message.contents.contents = OptionalBody::Present(contents, content_type, Some(ContentTypeHint::BINARY));
     }
diff --git a/rust/pact_ffi/src/models/contents.rs b/rust/pact_ffi/src/models/contents.rs
index 7868d43..5d7651b 100644
--- a/rust/pact_ffi/src/models/contents.rs
+++ b/rust/pact_ffi/src/models/contents.rs
@@ -91,7 +91,7 @@ ffi_fn! {
     } else {
       let contents_str = safe_str!(contents_str);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
-      contents.contents = OptionalBody::Present(Bytes::from(contents_str), content_type, Some(ContentTypeHint::TEXT));
+      contents.contents = OptionalBody::Present(Bytes::copy_from_slice(contents_str.as_bytes()), content_type, Some(ContentTypeHint::TEXT));
     }
   }
 }
@@ -173,7 +173,7 @@ ffi_fn! {
       contents.contents = OptionalBody::Null;
     } else {
       let slice = unsafe { std::slice::from_raw_parts(contents_bin, len) };
-      let contents_bytes = Bytes::from(slice);
+      let contents_bytes = Bytes::copy_from_slice(slice);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
       contents.contents = OptionalBody::Present(contents_bytes, content_type, Some(ContentTypeHint::BINARY));
     }
diff --git a/rust/pact_ffi/src/models/http_interaction.rs b/rust/pact_ffi/src/models/http_interaction.rs
index 6be8c14..2886c53 100644
--- a/rust/pact_ffi/src/models/http_interaction.rs
+++ b/rust/pact_ffi/src/models/http_interaction.rs
@@ -124,7 +124,7 @@ ffi_fn! {
     } else {
       let contents = safe_str!(contents);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
-      interaction.request.body = OptionalBody::Present(Bytes::from(contents), content_type, Some(ContentTypeHint::TEXT));
+      interaction.request.body = OptionalBody::Present(Bytes::copy_from_slice(contents.as_bytes()), content_type, Some(ContentTypeHint::TEXT));
     }
   }
 }
@@ -206,7 +206,7 @@ ffi_fn! {
       interaction.request.body = OptionalBody::Null;
     } else {
       let slice = unsafe { std::slice::from_raw_parts(contents, len) };
-      let contents = Bytes::from(slice);
+      let contents = Bytes::copy_from_slice(slice);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
       interaction.request.body = OptionalBody::Present(contents, content_type, Some(ContentTypeHint::BINARY));
     }
@@ -298,7 +298,7 @@ ffi_fn! {
     } else {
       let contents = safe_str!(contents);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
-      interaction.response.body = OptionalBody::Present(Bytes::from(contents), content_type, Some(ContentTypeHint::TEXT));
+      interaction.response.body = OptionalBody::Present(Bytes::copy_from_slice(contents.as_bytes()), content_type, Some(ContentTypeHint::TEXT));
     }
   }
 }
@@ -380,7 +380,7 @@ ffi_fn! {
       interaction.response.body = OptionalBody::Null;
     } else {
       let slice = unsafe { std::slice::from_raw_parts(contents, len) };
-      let contents = Bytes::from(slice);
+      let contents = Bytes::copy_from_slice(slice);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
       interaction.response.body = OptionalBody::Present(contents, content_type, Some(ContentTypeHint::BINARY));
     }
diff --git a/rust/pact_ffi/src/models/message.rs b/rust/pact_ffi/src/models/message.rs
index 2f30a35..4fa2a41 100644
--- a/rust/pact_ffi/src/models/message.rs
+++ b/rust/pact_ffi/src/models/message.rs
@@ -207,7 +207,7 @@ ffi_fn! {
     } else {
       let contents = safe_str!(contents);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
-      message.contents = OptionalBody::Present(Bytes::from(contents), content_type, Some(ContentTypeHint::TEXT));
+      message.contents = OptionalBody::Present(Bytes::copy_from_slice(contents.as_bytes()), content_type, Some(ContentTypeHint::TEXT));
     }
   }
 }
@@ -279,7 +279,7 @@ ffi_fn! {
       message.contents = OptionalBody::Null;
     } else {
       let slice = unsafe { std::slice::from_raw_parts(contents, len) };
-      let contents = Bytes::from(slice);
+      let contents = Bytes::copy_from_slice(slice);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
       message.contents = OptionalBody::Present(contents, content_type, Some(ContentTypeHint::BINARY));
     }
diff --git a/rust/pact_ffi/src/models/sync_message.rs b/rust/pact_ffi/src/models/sync_message.rs
index 6cf3fc2..65f5f09 100644
--- a/rust/pact_ffi/src/models/sync_message.rs
+++ b/rust/pact_ffi/src/models/sync_message.rs
@@ -106,7 +106,7 @@ ffi_fn! {
     } else {
       let contents = safe_str!(contents);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
-      message.request.contents = OptionalBody::Present(Bytes::from(contents), content_type, Some(ContentTypeHint::TEXT));
+      message.request.contents = OptionalBody::Present(Bytes::copy_from_slice(contents.as_bytes()), content_type, Some(ContentTypeHint::TEXT));
     }
   }
 }
@@ -188,7 +188,7 @@ ffi_fn! {
       message.request.contents = OptionalBody::Null;
     } else {
       let slice = unsafe { std::slice::from_raw_parts(contents, len) };
-      let contents = Bytes::from(slice);
+      let contents = Bytes::copy_from_slice(slice);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
       message.request.contents = OptionalBody::Present(contents, content_type, Some(ContentTypeHint::BINARY));
     }
@@ -347,7 +347,7 @@ ffi_fn! {
     } else {
       let contents = safe_str!(contents);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
-      response.contents = OptionalBody::Present(Bytes::from(contents), content_type, Some(ContentTypeHint::TEXT));
+      response.contents = OptionalBody::Present(Bytes::copy_from_slice(contents.as_bytes()), content_type, Some(ContentTypeHint::TEXT));
     }
   }
 }
@@ -447,7 +447,7 @@ ffi_fn! {
       response.contents = OptionalBody::Null;
     } else {
       let slice = unsafe { std::slice::from_raw_parts(contents, len) };
-      let contents = Bytes::from(slice);
+      let contents = Bytes::copy_from_slice(slice);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
       response.contents = OptionalBody::Present(contents, content_type, Some(ContentTypeHint::BINARY));
     }
-- 
2.43.0

