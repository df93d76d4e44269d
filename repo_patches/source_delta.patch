From e2a02156a223802ccc02564d4bbc2cc8c1f82435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 01/22] fix: forget a swept key in the list of expiring keys

check_and_expire removed the entry but left its key in expiring_keys, so a later
sweep failed with a KeyError, and a later swap-remove panicked.
---
 server/src/storage/hashmap_storage.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/src/storage/hashmap_storage.rs b/server/src/storage/hashmap_storage.rs
index 70a1375..becf2a2 100644
--- a/server/src/storage/hashmap_storage.rs
+++ b/server/src/storage/hashmap_storage.rs
@@ -256,9 +256,12 @@ impl Storage for HashMapStorage {
             None => return Err(ServerError::KeyError(format!("Key {} not found.", key))),
         };
         if item.element.is_expired() {
-            match self.storage.remove(key) {
-                _ => Ok(true),
+            let key_index = item.key_index;
+            self.storage.remove(key);
+            if let Some(index) = key_index {
+                self.invalidate_key_index(index);
             }
+            Ok(true)
         } else {
             Ok(false)
         }
-- 
2.43.0


From 55f875dc60494b33f8d500e4ae8208d1c5af4d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 02/22] fix: set_if_not_exists must not see expired entries

---
 server/src/storage/hashmap_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/storage/hashmap_storage.rs b/server/src/storage/hashmap_storage.rs
index becf2a2..7dc8840 100644
--- a/server/src/storage/hashmap_storage.rs
+++ b/server/src/storage/hashmap_storage.rs
@@ -180,7 +180,7 @@ impl Storage for HashMapStorage {
     fn set_if_not_exists(
         &mut self, key: &str, value: StorageElement
     ) -> Result<bool, ServerError> {
-        if self.storage.contains_key(key) {
+        if self.contains_key(key)? {
             Ok(false)
         } else {
             match self.set(key, value) {
-- 
2.43.0


From e5254b8880522d625a7b03fea25e0c04a285f744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 03/22] fix: refuse lifetimes that are out of range instead of
 panicking

---
 server/src/analysis/interpreter.rs | 32 +++++++++++++++---------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/server/src/analysis/interpreter.rs b/server/src/analysis/interpreter.rs
index 3e22f20..4854b80 100644
--- a/server/src/analysis/interpreter.rs
+++ b/server/src/analysis/interpreter.rs
@@ -225,10 +225,7 @@ impl<S: Storage + Send> Interpreter<S> {
     fn set(
         &mut self, key: &StorageKey, value: StorageValue, expiration: Option<u64>
     ) -> Result<InterpreterResponse, ServerError> {
-        let expiration = match expiration {
-            None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
-        };
+        let expiration = get_expiration_time(expiration)?;
         let element = StorageElement{key: key.to_string(), value, expiration};
         self.storage.set(key, element)?;
         Ok(InterpreterResponse::Message("Ok".to_string()))
@@ -238,10 +235,7 @@ impl<S: Storage + Send> Interpreter<S> {
     fn set_if_not_exists(
         &mut self, key: &StorageKey, value: StorageValue, expiration: Option<u64>
     ) -> Result<InterpreterResponse, ServerError> {
-        let expiration = match expiration {
-            None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
-        };
+        let expiration = get_expiration_time(expiration)?;
         let element = StorageElement{key: key.to_string(), value, expiration};
         let result = self.storage.set_if_not_exists(key, element)?;
         Ok(InterpreterResponse::Bool(result))
@@ -251,10 +245,7 @@ impl<S: Storage + Send> Interpreter<S> {
     fn update(
         &mut self, key: &StorageKey, value: StorageValue, expiration: Option<u64>
     ) -> Result<InterpreterResponse, ServerError> {
-        let expiration = match expiration {
-            None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
-        };
+        let expiration = get_expiration_time(expiration)?;
         let element = StorageElement{key: key.to_string(), value, expiration};
         self.storage.update(key, element)?;
         Ok(InterpreterResponse::Message("Ok".to_string()))
@@ -264,10 +255,7 @@ impl<S: Storage + Send> Interpreter<S> {
     fn update_expiration(
         &mut self, key: &StorageKey, expiration: Option<u64>
     ) -> Result<InterpreterResponse, ServerError> {
-        let expiration = match expiration {
-            None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
-        };
+        let expiration = get_expiration_time(expiration)?;
         self.storage.update_expiration(key, expiration)?;
         Ok(InterpreterResponse::Message("Ok".to_string()))
     }
@@ -406,6 +394,18 @@ impl<S: Storage + Send> Interpreter<S> {
 }
 
 
+/// Convert a lifetime in seconds to the time at which an entry expires.
+fn get_expiration_time(lifetime: Option<u64>) -> Result<Option<SystemTime>, ServerError> {
+    match lifetime {
+        None => Ok(None),
+        Some(time) => match SystemTime::now().checked_add(Duration::from_secs(time)) {
+            Some(expiration) => Ok(Some(expiration)),
+            None => Err(ServerError::TypeError(format!("Lifetime {} is too large.", time))),
+        },
+    }
+}
+
+
 /// Validate that a statement is available at the given authorization level.
 fn validate_authorization(
     statements: &Vec<Statement>, authorization: AuthorizationLevel
-- 
2.43.0


From 933863314613d4660a1e7adc53f1699388dde563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:17 +0000
Subject: [PATCH 04/22] fix: tokenizer must not run past trailing whitespace

A query of only blanks, or ending in a blank, panicked with an index out of bounds.
---
 server/src/analysis/tokenizer.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index ea50b7e..322a88a 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -57,9 +57,6 @@ impl Tokenizer {
 
     /// Retrieve the next token
     fn get_next_token(&mut self) -> Result<Token, ServerError> {
-        while self.view().is_whitespace() {
-            self.advance();
-        }
         self.token_start_index = self.current_index;
         let next_char = self.view();
         
@@ -96,6 +93,13 @@ impl Tokenizer {
         next_token
     }
 
+    /// Move past any whitespace at the current position
+    fn skip_whitespace(&mut self) {
+        while !self.is_at_end() && self.view().is_whitespace() {
+            self.advance();
+        }
+    }
+
     /// Check if we are at the end of the command
     fn is_at_end(&self) -> bool {
         self.current_index >= self.command.len()
@@ -236,6 +240,7 @@ impl Tokenizer {
 impl Iterator for Tokenizer {
     type Item = Result<AnnotatedToken, ServerError>;
     fn next(&mut self) -> Option<Self::Item> {
+        self.skip_whitespace();
         if self.is_at_end() | self.error_detected {
             return None
         }
-- 
2.43.0


From 89fdd3fbbf8d3b73958b5f63699117e8b943f586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:27 +0000
Subject: [PATCH 05/22] fix: a string literal may be the last thing in a query

The tokenizer looked at the character after the closing quote without checking that there is one.
---
 server/src/analysis/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index 322a88a..ad6fa06 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -195,7 +195,7 @@ impl Tokenizer {
                 char_vec.push(next_char);
             }
         }
-        if !is_valid_literal_end_char(self.view()) {
+        if !self.is_at_end() && !is_valid_literal_end_char(self.view()) {
             return Err(
                 ServerError::TokenizationError(
                     "Invalid character found at the end of a string.".to_string()
-- 
2.43.0


From d077f10e8e733c56b9edca8bda755beb2763e4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:37 +0000
Subject: [PATCH 06/22] fix: refuse a command without its key instead of
 panicking

---
 server/src/analysis/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index afb409a..e385c34 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -116,6 +116,9 @@ impl Parser {
     fn process_identifier_statement<F>(&mut self, f: F) -> Result<Statement, ServerError>
     where F: Fn(&String) -> Statement
     {
+        if self.is_at_end() {
+            return Err(ServerError::ParseError("Expected an identifier instead of the end of the query.".to_string()));
+        }
         let next_token = self.advance();
         
         match &next_token.token {
-- 
2.43.0


From 6c8bb1b11a92f6fd0a09680287929aaef4f4ddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:46 +0000
Subject: [PATCH 07/22] fix: a map type at the end of a query must not panic

The non-short-circuiting | looked at the next token even at the end.
---
 server/src/analysis/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index e385c34..c836e1f 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -378,7 +378,7 @@ impl Parser {
             self.advance();
             let key_type = get_key_type(&type_token.token)?;
             let collection_type = get_collection_type(&next_token.token)?;
-            let map = if self.is_at_statement_end() | (self.view().token != Token::LeftCurlyBracket) {
+            let map = if self.is_at_statement_end() || (self.view().token != Token::LeftCurlyBracket) {
                 StorageValue::Map(StorageMap::new(key_type, collection_type))
             } else {
                 self.get_map_value(key_type, collection_type)?
-- 
2.43.0


From db8ef388265e0e36505fdaf3f04c6be956747359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:14 +0000
Subject: [PATCH 08/22] fix: refuse unfinished vector and map literals instead
 of panicking

---
 server/src/analysis/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index c836e1f..2ebb87d 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -436,6 +436,9 @@ impl Parser {
         let mut value = StorageVector::new(collection_type);
         // We've already checked that the first character is a left bracket
         self.advance(); // [
+        if self.is_at_end() {
+            return Err(ServerError::ParseError("Unfinished vector literal found.".to_string()))
+        }
         if let Token::RightBracket = self.view().token {
             return Ok(StorageValue::Vector(value));
         }
@@ -462,6 +465,9 @@ impl Parser {
         let mut value = StorageMap::new(key_type, collection_type);
         // We've already checked that the first character is a left bracket
         self.advance(); // [
+        if self.is_at_end() {
+            return Err(ServerError::ParseError("Unfinished map literal found.".to_string()));
+        }
         if let Token::RightCurlyBracket = self.view().token {
             return Ok(StorageValue::Map(value));
         }
@@ -479,6 +485,9 @@ impl Parser {
             if let Err(_) = value.set(element_key, element_value) {
                 return Err(ServerError::ParseError("Could not add element to map.".to_string()));
             }
+            if self.is_at_end() {
+                return Err(ServerError::ParseError("Unfinished map literal found.".to_string()));
+            }
             if let Token::RightCurlyBracket = self.view().token {
                 break;
             } else if let Token::Comma = self.view().token {
-- 
2.43.0


From 628b0d116aa8f31f75014c5fa330ddd1b69351aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:41 +0000
Subject: [PATCH 09/22] fix: accept empty vector and map literals

The closing bracket was not consumed, so the rest of the query was refused.
---
 server/src/analysis/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index 2ebb87d..1c4817c 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -440,6 +440,7 @@ impl Parser {
             return Err(ServerError::ParseError("Unfinished vector literal found.".to_string()))
         }
         if let Token::RightBracket = self.view().token {
+            self.advance(); // ]
             return Ok(StorageValue::Vector(value));
         }
 
@@ -469,6 +470,7 @@ impl Parser {
             return Err(ServerError::ParseError("Unfinished map literal found.".to_string()));
         }
         if let Token::RightCurlyBracket = self.view().token {
+            self.advance(); // }
             return Ok(StorageValue::Map(value));
         }
 
-- 
2.43.0


From 37cb34c0e524fe4351c011e6fe5babd76246f2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:03 +0000
Subject: [PATCH 10/22] fix: keep the case of string literals

The whole query was converted to lower case, string contents included.
---
 server/src/analysis/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index ad6fa06..c32fb2d 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -31,7 +31,6 @@ pub struct Tokenizer {
 impl Tokenizer {
     /// Build a new tokenizer
     pub fn new(command: &str) -> Tokenizer {
-        let command = command.to_lowercase();
         let command = Vec::from_iter(command.chars());
         Tokenizer {
             command,
@@ -228,7 +227,8 @@ impl Tokenizer {
             }
 
         }
-        let token_string: String = char_vec.into_iter().collect();
+        // Keywords and identifiers are case-insensitive
+        let token_string: String = char_vec.into_iter().collect::<String>().to_lowercase();
         let token = match get_word_to_token_map().get(&token_string) {
             Some(keyword_token) => keyword_token.clone(),
             None => Token::Identifier(Box::new(token_string)),
-- 
2.43.0


From 25dc2798f34d487552dfd670396b50eaff35a471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:39 +0000
Subject: [PATCH 11/22] fix: refuse float literals that are out of range

They became infinite, which cannot be written in a reply.
---
 server/src/analysis/tokenizer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index c32fb2d..f088d20 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -134,9 +134,9 @@ impl Tokenizer {
         }
         let token_string: String = char_vec.into_iter().collect();
         if is_float {
-            let value: f32 = match token_string.parse() {
-                Ok(val) => val,
-                Err(_) => {
+            let value: f32 = match token_string.parse::<f32>() {
+                Ok(val) if val.is_finite() => val,
+                _ => {
                     return Err(
                         ServerError::TokenizationError(
                             format!("Expected float literal, got '{}'", token_string)
-- 
2.43.0


From b11be2af34e5981d960898d15739c02c3554fe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 12/22] fix: replies with non-empty maps can be serialized

---
 server/src/storage/types.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/server/src/storage/types.rs b/server/src/storage/types.rs
index 2196c63..356acc3 100644
--- a/server/src/storage/types.rs
+++ b/server/src/storage/types.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use std::hash::{Hash, Hasher};
 use std::time::SystemTime;
 
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
 use crate::error::ServerError;
 
@@ -238,10 +238,30 @@ impl StorageVector {
 
 
 
+/// Serialize the entries of a map as a list of (key, value) pairs.
+///
+/// Formats like JSON only allow strings as the keys of an object.
+fn serialize_map_entries<S: Serializer>(
+    map: &HashMap<StorageValue, StorageValue>, serializer: S
+) -> Result<S::Ok, S::Error> {
+    serializer.collect_seq(map)
+}
+
+
+/// Read the entries of a map from a list of (key, value) pairs.
+fn deserialize_map_entries<'de, D: Deserializer<'de>>(
+    deserializer: D
+) -> Result<HashMap<StorageValue, StorageValue>, D::Error> {
+    let entries: Vec<(StorageValue, StorageValue)> = Deserialize::deserialize(deserializer)?;
+    Ok(entries.into_iter().collect())
+}
+
+
 /// A map object that can be saved in the key value store
 #[derive(Clone, Debug, Deserialize, Serialize)]
 pub struct StorageMap {
     /// The raw map to be accessed
+    #[serde(serialize_with = "serialize_map_entries", deserialize_with = "deserialize_map_entries")]
     map: HashMap<StorageValue, StorageValue>,
     /// The type of key to be used
     pub key_type: KeyType,
-- 
2.43.0


From a57ebd834dd2249d1b8fdff9d52d3bd165520194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 13/22] fix: write replies completely

---
 server/src/io/tcp.rs       | 2 +-
 server/src/io/tcp_async.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 8696881..29f3e29 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -50,7 +50,7 @@ impl StreamSender for TcpStreamSender {
         let http_response = make_response(&code, &json_payload);
         let http_bytes = http_response.as_bytes();
 
-        if let Err(_) = self.stream.write(http_bytes) {
+        if let Err(_) = self.stream.write_all(http_bytes) {
             return Err(ServerError::NetworkError("Error writing to stream.".to_string()));
         };
         if let Err(_) = self.stream.flush() {
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 69c19bd..5b9604b 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -61,7 +61,7 @@ impl TcpStreamSender {
 
         let http_response = make_response(&code, &json_payload);
         let http_bytes = http_response.as_bytes();
-        if let Err(_) = self.stream.write(http_bytes).await {
+        if let Err(_) = self.stream.write_all(http_bytes).await {
             return Err(ServerError::NetworkError("Error writing to stream.".to_string()));
         };
         if let Err(_) = self.stream.flush().await {
-- 
2.43.0


From 4e2a1118eebed40587546b551d92050851cfc9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 14/22] fix: keep reading while the headers are incomplete

---
 server/src/io/tcp.rs       | 1 +
 server/src/io/tcp_async.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 29f3e29..4b0a7db 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -129,6 +129,7 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
+            Ok(Status::Partial) if size_read > 0 => continue,
             _ => return StreamRequest {
                 request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
                 headers,
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 5b9604b..70a8c4c 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -140,6 +140,7 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
+            Ok(Status::Partial) if size_read > 0 => continue,
             _ => return StreamRequest {
                 request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
                 headers,
-- 
2.43.0


From ce0641b6f23b2fbf3d577cac1a5f0a54f91bfc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 15/22] fix: refuse a request that ends before its body is
 complete

---
 server/src/io/tcp.rs       | 8 ++++++++
 server/src/io/tcp_async.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 4b0a7db..fc139ff 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -164,6 +164,14 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
 
             break (headers, body);
         }
+        if size_read == 0 {
+            // The client stopped sending before the whole body arrived.
+            return StreamRequest {
+                request: Err(ServerError::RequestError("Malformed request.".to_string())),
+                headers,
+                sender: Some(Box::new(TcpStreamSender{stream})),
+            };
+        }
     };
 
     let query = match extract_request_from_body(&body) {
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 70a8c4c..04f4cd5 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -175,6 +175,14 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
 
             break (headers, body);
         }
+        if size_read == 0 {
+            // The client stopped sending before the whole body arrived.
+            return StreamRequest {
+                request: Err(ServerError::RequestError("Malformed request.".to_string())),
+                headers,
+                sender: Some(TcpStreamSender{stream}),
+            };
+        }
     };
 
     let query = match extract_request_from_body(&body) {
-- 
2.43.0


From 331928c6ec86f348013c9e83fc39ec83d4a5f3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 16/22] fix: refuse a request without a content length

---
 server/src/io/tcp.rs       | 6 +++++-
 server/src/io/tcp_async.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index fc139ff..2ac67e1 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -147,7 +147,11 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             },
         };
         let body_length = match body_length {
-            None => continue,
+            None => return StreamRequest {
+                request: Err(ServerError::RequestError("Malformed request.".to_string())),
+                headers,
+                sender: Some(Box::new(TcpStreamSender{stream})),
+            },
             Some(body_length) => body_length,
         };
         if (body_start as u64 + body_length as u64) as usize <= buffer.len() {
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 04f4cd5..7031913 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -158,7 +158,11 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             },
         };
         let body_length = match body_length {
-            None => continue,
+            None => return StreamRequest {
+                request: Err(ServerError::RequestError("Malformed request.".to_string())),
+                headers,
+                sender: Some(TcpStreamSender{stream}),
+            },
             Some(body_length) => body_length,
         };
         if (body_start as u64 + body_length as u64) as usize <= buffer.len() {
-- 
2.43.0


From 496e6caccbebf814e0516292c53b388788c2ceae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 17/22] fix: a huge content length must not overflow

---
 server/src/io/tcp.rs       | 2 +-
 server/src/io/tcp_async.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 2ac67e1..d141ffc 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -154,7 +154,7 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             },
             Some(body_length) => body_length,
         };
-        if (body_start as u64 + body_length as u64) as usize <= buffer.len() {
+        if body_length <= buffer.len() - body_start {
             match request.method {
                 Some("POST") => (),
                 _ => return StreamRequest {
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 7031913..fecf759 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -165,7 +165,7 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             },
             Some(body_length) => body_length,
         };
-        if (body_start as u64 + body_length as u64) as usize <= buffer.len() {
+        if body_length <= buffer.len() - body_start {
             match request.method {
                 Some("POST") => (),
                 _ => return StreamRequest {
-- 
2.43.0


From dc91ff103a71d03bb34ed29e0753f81a421ee2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 18/22] fix: header names are case insensitive

---
 server/src/io/tcp.rs       | 20 ++++++++++++++++++--
 server/src/io/tcp_async.rs | 20 ++++++++++++++++++--
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index d141ffc..c3074a2 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -65,7 +65,7 @@ impl StreamSender for TcpStreamSender {
 fn extract_body_length_from_request(request: &Request) -> Result<Option<usize>, ServerError> {
     let mut length: Option<usize> = None;
     for header in request.headers.iter() {
-        if header.name == "Content-Length" {
+        if header.name.eq_ignore_ascii_case("Content-Length") {
             let length_str = match String::from_utf8(header.value.clone().to_vec()) {
                 Ok(utf_str) => utf_str,
                 Err(_) => return Err(ServerError::RequestError("Malformed request.".to_string())),
@@ -95,12 +95,28 @@ fn extract_request_from_body(body: &str) -> Result<String, ServerError> {
 }
 
 
+/// Header names are case insensitive: write them the usual way, e.g. "Content-Length".
+fn canonical_header_name(name: &str) -> String {
+    let parts: Vec<String> = name
+        .split('-')
+        .map(|part| {
+            let mut part = part.to_ascii_lowercase();
+            if let Some(first) = part.get_mut(0..1) {
+                first.make_ascii_uppercase();
+            }
+            part
+        })
+        .collect();
+    parts.join("-")
+}
+
+
 /// Convert the headers of an HTTP request into a hashmap.
 fn convert_headers_to_map(request: &Request) -> HashMap<String, String> {
     let mut map = HashMap::new();
     for header in request.headers.iter() {
         if let Ok(value) = String::from_utf8(header.value.to_vec()) {
-            map.insert(header.name.to_string(), value);
+            map.insert(canonical_header_name(header.name), value);
         }
     }
     map
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index fecf759..edaca48 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -76,7 +76,7 @@ impl TcpStreamSender {
 fn extract_body_length_from_request(request: &Request) -> Result<Option<usize>, ServerError> {
     let mut length: Option<usize> = None;
     for header in request.headers.iter() {
-        if header.name == "Content-Length" {
+        if header.name.eq_ignore_ascii_case("Content-Length") {
             let length_str = match String::from_utf8(header.value.clone().to_vec()) {
                 Ok(utf_str) => utf_str,
                 Err(_) => return Err(ServerError::RequestError("Malformed request.".to_string())),
@@ -106,12 +106,28 @@ fn extract_request_from_body(body: &str) -> Result<String, ServerError> {
 }
 
 
+/// Header names are case insensitive: write them the usual way, e.g. "Content-Length".
+fn canonical_header_name(name: &str) -> String {
+    let parts: Vec<String> = name
+        .split('-')
+        .map(|part| {
+            let mut part = part.to_ascii_lowercase();
+            if let Some(first) = part.get_mut(0..1) {
+                first.make_ascii_uppercase();
+            }
+            part
+        })
+        .collect();
+    parts.join("-")
+}
+
+
 /// Convert the headers of an HTTP request into a hashmap.
 fn convert_headers_to_map(request: &Request) -> HashMap<String, String> {
     let mut map = HashMap::new();
     for header in request.headers.iter() {
         if let Ok(value) = String::from_utf8(header.value.to_vec()) {
-            map.insert(header.name.to_string(), value);
+            map.insert(canonical_header_name(header.name), value);
         }
     }
     map
-- 
2.43.0


From 196fef5582fd1515ca977b6e18aaac923ad02521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:36 +0000
Subject: [PATCH 19/22] fix: the simple server stops only when a shutdown was
 executed

---
 server/src/single_threaded.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/server/src/single_threaded.rs b/server/src/single_threaded.rs
index 61a0f50..442d78e 100644
--- a/server/src/single_threaded.rs
+++ b/server/src/single_threaded.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use crate::auth::{AuthenticationResult, AuthenticationService, MockAuthenticator};
 use crate::error::ServerError;
 use crate::io::stream::{StreamHandler, StreamRequest};
-use crate::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Parser, Statement, Tokenizer};
+use crate::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Parser, Tokenizer};
 use crate::storage::hashmap_storage::HashMapStorage;
 use crate::storage::Storage;
 
@@ -84,15 +84,9 @@ impl<Auth: AuthenticationService, Stor: Storage + Send> SingleThreadedServer<Aut
             return (Err(error), false)
         }
         let statements = statements.unwrap();
-        let mut shut_down = false;
-        for statement in statements.iter() {
-            if let Statement::Shutdown = statement {
-                shut_down = true;
-                break;
-            }
-        }
         let int_request = InterpreterRequest{statements, authorization};
         let result = self.interpreter.interpret(int_request);
+        let shut_down = matches!(result, Ok(InterpreterResponse::ShuttingDown));
         (result, shut_down)
     }
 }
-- 
2.43.0


From 9cb268a8a605c3514118005dd4316041adf5641f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:14 +0000
Subject: [PATCH 20/22] fix: the simple server reports a malformed request as
 such

---
 server/src/single_threaded.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/server/src/single_threaded.rs b/server/src/single_threaded.rs
index 442d78e..aa10af5 100644
--- a/server/src/single_threaded.rs
+++ b/server/src/single_threaded.rs
@@ -47,6 +47,10 @@ impl<Auth: AuthenticationService, Stor: Storage + Send> SingleThreadedServer<Aut
     
     /// Handle a single stream request to the server. 
     fn handle_request(&mut self, request: Result<String, ServerError>, headers: HashMap<String, String>) -> (Result<InterpreterResponse, ServerError>, bool) {
+        let request_string = match request {
+            Ok(request_string) => request_string,
+            Err(error) => return (Err(error), false),
+        };
         let authentication = self.authenticator.authenticate(&headers);
         let (username, authorization)= match authentication {
             Ok(AuthenticationResult::Authenticated(username, level)) => (username, level),
@@ -67,11 +71,6 @@ impl<Auth: AuthenticationService, Stor: Storage + Send> SingleThreadedServer<Aut
             },
             Some(auth) => auth,
         };
-        if let Err(error) = &request {
-            return (Err(error.clone()), false);
-        }
-        let request_string = request.unwrap();
-
         let mut tokenizer = Tokenizer::new(&request_string);
         let tokens = tokenizer.tokenize();
         if let Err(error) = tokens {
-- 
2.43.0


From f6a6964cd886a06e63c4ceeb850a673e9fbe8c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:08 +0000
Subject: [PATCH 21/22] fix: the async server stops only after the requester
 has its reply

---
 server/src/async.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/server/src/async.rs b/server/src/async.rs
index f25cdb2..e2c38de 100644
--- a/server/src/async.rs
+++ b/server/src/async.rs
@@ -31,7 +31,7 @@ fn authenticate(authenticator: Arc<Mutex<MockAuthenticator>>, headers: &HashMap<
 }
 
 
-async fn listen_for_requests(analysis_sender: AnalysisSender) {
+async fn listen_for_requests(analysis_sender: AnalysisSender, shutdown_flag: Arc<Mutex<bool>>) {
     let authenticator = Arc::new(Mutex::new(MockAuthenticator));
     let mut stream_handler = TcpStreamHandler::new(IpAddr::V4(Ipv4Addr::new(127, 0,0,1)), 7878).await;
     loop {
@@ -81,8 +81,17 @@ async fn listen_for_requests(analysis_sender: AnalysisSender) {
 
         }
         let response = job_receiver.recv().await.unwrap();
+        let shutting_down = if let Ok(InterpreterResponse::ShuttingDown) = &response {
+            true
+        } else {
+            false
+        };
         send_response_to_client(sender, response).await;
-
+        // The requester has its reply, so now the server may go away.
+        if shutting_down {
+            println!("Received shutdown signal!");
+            reset_flag(&shutdown_flag, true);
+        }
 
         println!("Listening for requests");
     }
@@ -157,17 +166,12 @@ fn check_flag(flag: &Arc<Mutex<bool>>) -> bool {
     *flag.lock().unwrap()
 }
 
-async fn execute_requests(mut receiver: ExecuteReceiver, shutdown_flag: Arc<Mutex<bool>>) {
+async fn execute_requests(mut receiver: ExecuteReceiver) {
     let storage = HashMapStorage::new();
     let mut interpreter = Interpreter::new(storage);
     loop {
         let (request, sender) = receiver.recv().await.unwrap();
         let response = interpreter.interpret(request);
-        let shutting_down = if let Ok(InterpreterResponse::ShuttingDown) = &response {
-            true
-        } else {
-            false
-        };
         if let Some(sender) = sender {
             match sender.send(response).await {
                 Ok(_) => (),
@@ -176,10 +180,6 @@ async fn execute_requests(mut receiver: ExecuteReceiver, shutdown_flag: Arc<Mute
                 }
             }
         }
-        if shutting_down {
-            println!("Received shutdown signal!");
-            reset_flag(&shutdown_flag, true);
-        }
     }
 }
 
@@ -200,9 +200,8 @@ async fn serve() {
     let (execute_sender, execute_receiver) = mpsc::channel(CHANNEL_QUEUE_SIZE);
     let (analysis_sender, analysis_receiver) = mpsc::channel(CHANNEL_QUEUE_SIZE);
 
-    let shutdown_copy = Arc::clone(&shutdown_flag);
     tokio::spawn(async move {
-        execute_requests(execute_receiver, shutdown_copy).await;
+        execute_requests(execute_receiver).await;
     });
 
     let execute_sender_analyze = execute_sender.clone();
@@ -212,8 +211,9 @@ async fn serve() {
     tokio::spawn(async move {
         expire_old_keys(execute_sender).await;
     });
+    let shutdown_copy = Arc::clone(&shutdown_flag);
     tokio::spawn(async move {
-        listen_for_requests(analysis_sender).await;
+        listen_for_requests(analysis_sender, shutdown_copy).await;
     });
     let mut count = 0;
     async {
-- 
2.43.0


From fed9b056b88f42cefe4730b4d682e4cc368b691e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 22/22] fix: stop iterating statements after a parse error

---
 server/src/analysis/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index 1c4817c..b4a5894 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -514,7 +514,10 @@ impl Iterator for Parser {
         match self.get_next_statement() {
             Ok(None) => None,
             Ok(Some(statement)) => Some(Ok(statement)),
-            Err(err) => Some(Err(err)),
+            Err(err) => {
+                self.error_encountered = true;
+                Some(Err(err))
+            }
         }
     }
 }
-- 
2.43.0

