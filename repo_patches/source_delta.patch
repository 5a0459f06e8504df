From c3875e0b987af64789ed50004f8ce38d53286b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:04 +0000
Subject: [PATCH 01/21] fix: drop an expired key from the expiring-key index
 when removing it

check_and_expire left the key in expiring_keys: later passes failed with a
KeyError and later deletes or updates panicked in invalidate_key_index.
---
 server/src/storage/hashmap_storage.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/src/storage/hashmap_storage.rs b/server/src/storage/hashmap_storage.rs
index 70a1375..fd24ffa 100644
--- a/server/src/storage/hashmap_storage.rs
+++ b/server/src/storage/hashmap_storage.rs
@@ -256,6 +256,9 @@ impl Storage for HashMapStorage {
             None => return Err(ServerError::KeyError(format!("Key {} not found.", key))),
         };
         if item.element.is_expired() {
+            if let Some(index) = item.key_index {
+                self.invalidate_key_index(index);
+            }
             match self.storage.remove(key) {
                 _ => Ok(true),
             }
-- 
2.43.0


From 62eb10cc854972cf43a172364eac3d0294d818a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:04 +0000
Subject: [PATCH 02/21] fix: let set_if_not_exists replace an expired entry

An expired key that was not collected yet blocked the conditional set,
although every read says the key does not exist.
---
 server/src/storage/hashmap_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/storage/hashmap_storage.rs b/server/src/storage/hashmap_storage.rs
index fd24ffa..49989c3 100644
--- a/server/src/storage/hashmap_storage.rs
+++ b/server/src/storage/hashmap_storage.rs
@@ -180,7 +180,7 @@ impl Storage for HashMapStorage {
     fn set_if_not_exists(
         &mut self, key: &str, value: StorageElement
     ) -> Result<bool, ServerError> {
-        if self.storage.contains_key(key) {
+        if self.contains_key(key)? {
             Ok(false)
         } else {
             match self.set(key, value) {
-- 
2.43.0


From e5396718cbd309e8c022ac1ddb8caa098c44a26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:04 +0000
Subject: [PATCH 03/21] fix: refuse a lifetime too large to represent instead
 of panicking

---
 server/src/analysis/interpreter.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/server/src/analysis/interpreter.rs b/server/src/analysis/interpreter.rs
index 3e22f20..3ad24e0 100644
--- a/server/src/analysis/interpreter.rs
+++ b/server/src/analysis/interpreter.rs
@@ -227,7 +227,7 @@ impl<S: Storage + Send> Interpreter<S> {
     ) -> Result<InterpreterResponse, ServerError> {
         let expiration = match expiration {
             None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
+            Some(time) => Some(expiration_from_lifetime(time)?),
         };
         let element = StorageElement{key: key.to_string(), value, expiration};
         self.storage.set(key, element)?;
@@ -240,7 +240,7 @@ impl<S: Storage + Send> Interpreter<S> {
     ) -> Result<InterpreterResponse, ServerError> {
         let expiration = match expiration {
             None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
+            Some(time) => Some(expiration_from_lifetime(time)?),
         };
         let element = StorageElement{key: key.to_string(), value, expiration};
         let result = self.storage.set_if_not_exists(key, element)?;
@@ -253,7 +253,7 @@ impl<S: Storage + Send> Interpreter<S> {
     ) -> Result<InterpreterResponse, ServerError> {
         let expiration = match expiration {
             None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
+            Some(time) => Some(expiration_from_lifetime(time)?),
         };
         let element = StorageElement{key: key.to_string(), value, expiration};
         self.storage.update(key, element)?;
@@ -266,7 +266,7 @@ impl<S: Storage + Send> Interpreter<S> {
     ) -> Result<InterpreterResponse, ServerError> {
         let expiration = match expiration {
             None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
+            Some(time) => Some(expiration_from_lifetime(time)?),
         };
         self.storage.update_expiration(key, expiration)?;
         Ok(InterpreterResponse::Message("Ok".to_string()))
@@ -406,6 +406,14 @@ impl<S: Storage + Send> Interpreter<S> {
 }
 
 
+/// Convert a lifetime in seconds to the time at which it ends.
+fn expiration_from_lifetime(lifetime: u64) -> Result<SystemTime, ServerError> {
+    SystemTime::now().checked_add(Duration::from_secs(lifetime)).ok_or_else(
+        || ServerError::ParseError(format!("Lifetime {} is too large.", lifetime))
+    )
+}
+
+
 /// Validate that a statement is available at the given authorization level.
 fn validate_authorization(
     statements: &Vec<Statement>, authorization: AuthorizationLevel
-- 
2.43.0


From 6378c5beed3d8cadd7e0ea2f02e65ea538564ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:04 +0000
Subject: [PATCH 04/21] fix: serialize non-empty maps

StorageValue is not a valid JSON object key, so encoding a reply with a
non-empty map panicked and took the server (or worker) down.
---
 server/src/storage/types.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/server/src/storage/types.rs b/server/src/storage/types.rs
index 2196c63..3ed7033 100644
--- a/server/src/storage/types.rs
+++ b/server/src/storage/types.rs
@@ -238,10 +238,30 @@ impl StorageVector {
 
 
 
+/// Serializes the entries of a map as a list of pairs, since JSON objects only allow string keys.
+mod map_entries {
+    use super::{HashMap, StorageValue};
+    use serde::{Deserialize, Deserializer, Serializer};
+
+    pub fn serialize<S: Serializer>(
+        map: &HashMap<StorageValue, StorageValue>, serializer: S
+    ) -> Result<S::Ok, S::Error> {
+        serializer.collect_seq(map)
+    }
+
+    pub fn deserialize<'de, D: Deserializer<'de>>(
+        deserializer: D
+    ) -> Result<HashMap<StorageValue, StorageValue>, D::Error> {
+        let entries: Vec<(StorageValue, StorageValue)> = Vec::deserialize(deserializer)?;
+        Ok(entries.into_iter().collect())
+    }
+}
+
 /// A map object that can be saved in the key value store
 #[derive(Clone, Debug, Deserialize, Serialize)]
 pub struct StorageMap {
     /// The raw map to be accessed
+    #[serde(with = "map_entries")]
     map: HashMap<StorageValue, StorageValue>,
     /// The type of key to be used
     pub key_type: KeyType,
-- 
2.43.0


From 73bf16c9596b7d5aad31c5119a9c4332e9b862b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:04 +0000
Subject: [PATCH 05/21] fix: accept white space at the end of a query

Skipping it ran past the end of the text and panicked.
---
 server/src/analysis/tokenizer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index ea50b7e..e2e7596 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -239,6 +239,12 @@ impl Iterator for Tokenizer {
         if self.is_at_end() | self.error_detected {
             return None
         }
+        while self.view().is_whitespace() {
+            self.advance();
+            if self.is_at_end() {
+                return None
+            }
+        }
         match self.get_next_token() {
             Err(err) => {
                 self.error_detected = true;
-- 
2.43.0


From 6fce08a456492b4a4799b127c9640692e1669cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:04 +0000
Subject: [PATCH 06/21] fix: accept a string literal at the end of a query

Looking at the character after the closing quote panicked.
---
 server/src/analysis/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index e2e7596..0592fdc 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -191,7 +191,7 @@ impl Tokenizer {
                 char_vec.push(next_char);
             }
         }
-        if !is_valid_literal_end_char(self.view()) {
+        if !self.is_at_end() && !is_valid_literal_end_char(self.view()) {
             return Err(
                 ServerError::TokenizationError(
                     "Invalid character found at the end of a string.".to_string()
-- 
2.43.0


From 49424e8d0b5c9469b60ee8014e08a49927f5891c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:04 +0000
Subject: [PATCH 07/21] fix: report a missing identifier at the end of a query

The parser read past the last token and panicked.
---
 server/src/analysis/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index afb409a..e385c34 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -116,6 +116,9 @@ impl Parser {
     fn process_identifier_statement<F>(&mut self, f: F) -> Result<Statement, ServerError>
     where F: Fn(&String) -> Statement
     {
+        if self.is_at_end() {
+            return Err(ServerError::ParseError("Expected an identifier instead of the end of the query.".to_string()));
+        }
         let next_token = self.advance();
         
         match &next_token.token {
-- 
2.43.0


From ad4b5e4f4ff5f49e89a541f63bb900a7240c7baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 08/21] fix: refuse truncated collection literals instead of
 panicking

The parser looked at the token after the end of the query for an empty map
at the end, an opening bracket at the end, or an unfinished map.
---
 server/src/analysis/parser.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index e385c34..f96c50e 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -378,7 +378,7 @@ impl Parser {
             self.advance();
             let key_type = get_key_type(&type_token.token)?;
             let collection_type = get_collection_type(&next_token.token)?;
-            let map = if self.is_at_statement_end() | (self.view().token != Token::LeftCurlyBracket) {
+            let map = if self.is_at_statement_end() || (self.view().token != Token::LeftCurlyBracket) {
                 StorageValue::Map(StorageMap::new(key_type, collection_type))
             } else {
                 self.get_map_value(key_type, collection_type)?
@@ -436,6 +436,9 @@ impl Parser {
         let mut value = StorageVector::new(collection_type);
         // We've already checked that the first character is a left bracket
         self.advance(); // [
+        if self.is_at_end() {
+            return Err(ServerError::ParseError("Unfinished vector literal found.".to_string()));
+        }
         if let Token::RightBracket = self.view().token {
             return Ok(StorageValue::Vector(value));
         }
@@ -462,6 +465,9 @@ impl Parser {
         let mut value = StorageMap::new(key_type, collection_type);
         // We've already checked that the first character is a left bracket
         self.advance(); // [
+        if self.is_at_end() {
+            return Err(ServerError::ParseError("Unfinished map literal found.".to_string()));
+        }
         if let Token::RightCurlyBracket = self.view().token {
             return Ok(StorageValue::Map(value));
         }
@@ -479,6 +485,9 @@ impl Parser {
             if let Err(_) = value.set(element_key, element_value) {
                 return Err(ServerError::ParseError("Could not add element to map.".to_string()));
             }
+            if self.is_at_end() {
+                return Err(ServerError::ParseError("Unfinished map literal found.".to_string()));
+            }
             if let Token::RightCurlyBracket = self.view().token {
                 break;
             } else if let Token::Comma = self.view().token {
-- 
2.43.0


From 1cf22d15de8f7c46a173da40a8f920d637145ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 09/21] fix: consume the closing bracket of empty vector and
 map literals

'set x int []' and 'set x int int {}' were refused as parse errors.
---
 server/src/analysis/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index f96c50e..00b069c 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -440,6 +440,7 @@ impl Parser {
             return Err(ServerError::ParseError("Unfinished vector literal found.".to_string()));
         }
         if let Token::RightBracket = self.view().token {
+            self.advance(); // ]
             return Ok(StorageValue::Vector(value));
         }
 
@@ -469,6 +470,7 @@ impl Parser {
             return Err(ServerError::ParseError("Unfinished map literal found.".to_string()));
         }
         if let Token::RightCurlyBracket = self.view().token {
+            self.advance(); // }
             return Ok(StorageValue::Map(value));
         }
 
-- 
2.43.0


From d4cd086397c11290f4f33235bdd4031e5a55d778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 10/21] fix: keep the letter case of string literals

The whole query was lower-cased, including the string values to be stored.
Only keywords and identifiers are case insensitive.
---
 server/src/analysis/tokenizer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index 0592fdc..366305b 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -31,7 +31,6 @@ pub struct Tokenizer {
 impl Tokenizer {
     /// Build a new tokenizer
     pub fn new(command: &str) -> Tokenizer {
-        let command = command.to_lowercase();
         let command = Vec::from_iter(command.chars());
         Tokenizer {
             command,
@@ -224,7 +223,7 @@ impl Tokenizer {
             }
 
         }
-        let token_string: String = char_vec.into_iter().collect();
+        let token_string = String::from_iter(char_vec).to_lowercase();
         let token = match get_word_to_token_map().get(&token_string) {
             Some(keyword_token) => keyword_token.clone(),
             None => Token::Identifier(Box::new(token_string)),
-- 
2.43.0


From d6a5f8e89c3d2e9b7497bbb8f22e13f8e01141e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 11/21] fix: refuse float literals out of range

They silently became infinity, which replies can only encode as null.
---
 server/src/analysis/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index 366305b..eba8f2f 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -131,8 +131,8 @@ impl Tokenizer {
         let token_string: String = char_vec.into_iter().collect();
         if is_float {
             let value: f32 = match token_string.parse() {
-                Ok(val) => val,
-                Err(_) => {
+                Ok(val) if f32::is_finite(val) => val,
+                _ => {
                     return Err(
                         ServerError::TokenizationError(
                             format!("Expected float literal, got '{}'", token_string)
-- 
2.43.0


From 5d1ea1328a7a0046ac35fa2743725a23f5f7d291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 12/21] fix: stop the single threaded server only when a
 shutdown was executed

A request that merely contained a shutdown stopped it, even when refused for
authorization or when an earlier statement failed.
---
 server/src/single_threaded.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/server/src/single_threaded.rs b/server/src/single_threaded.rs
index 61a0f50..442d78e 100644
--- a/server/src/single_threaded.rs
+++ b/server/src/single_threaded.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use crate::auth::{AuthenticationResult, AuthenticationService, MockAuthenticator};
 use crate::error::ServerError;
 use crate::io::stream::{StreamHandler, StreamRequest};
-use crate::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Parser, Statement, Tokenizer};
+use crate::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Parser, Tokenizer};
 use crate::storage::hashmap_storage::HashMapStorage;
 use crate::storage::Storage;
 
@@ -84,15 +84,9 @@ impl<Auth: AuthenticationService, Stor: Storage + Send> SingleThreadedServer<Aut
             return (Err(error), false)
         }
         let statements = statements.unwrap();
-        let mut shut_down = false;
-        for statement in statements.iter() {
-            if let Statement::Shutdown = statement {
-                shut_down = true;
-                break;
-            }
-        }
         let int_request = InterpreterRequest{statements, authorization};
         let result = self.interpreter.interpret(int_request);
+        let shut_down = matches!(result, Ok(InterpreterResponse::ShuttingDown));
         (result, shut_down)
     }
 }
-- 
2.43.0


From 6b16fbf9ea8b0c8240c4c4b3727c31e9e0da0ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 13/21] fix: report a malformed request as such in the single
 threaded server

Authentication ran first on the headers of a request that could not be read,
so the client got an internal authentication service error (500).
---
 server/src/single_threaded.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/src/single_threaded.rs b/server/src/single_threaded.rs
index 442d78e..01174f1 100644
--- a/server/src/single_threaded.rs
+++ b/server/src/single_threaded.rs
@@ -47,6 +47,9 @@ impl<Auth: AuthenticationService, Stor: Storage + Send> SingleThreadedServer<Aut
     
     /// Handle a single stream request to the server. 
     fn handle_request(&mut self, request: Result<String, ServerError>, headers: HashMap<String, String>) -> (Result<InterpreterResponse, ServerError>, bool) {
+        if let Err(error) = &request {
+            return (Err(error.clone()), false);
+        }
         let authentication = self.authenticator.authenticate(&headers);
         let (username, authorization)= match authentication {
             Ok(AuthenticationResult::Authenticated(username, level)) => (username, level),
@@ -67,9 +70,6 @@ impl<Auth: AuthenticationService, Stor: Storage + Send> SingleThreadedServer<Aut
             },
             Some(auth) => auth,
         };
-        if let Err(error) = &request {
-            return (Err(error.clone()), false);
-        }
         let request_string = request.unwrap();
 
         let mut tokenizer = Tokenizer::new(&request_string);
-- 
2.43.0


From 123bcf5ed6a15a3134dfeb22af65a30a8df7f0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 14/21] fix: stop reading when the client closes before its
 request is complete

The read loop spun forever on end of stream.
---
 server/src/io/tcp.rs       | 7 +++++++
 server/src/io/tcp_async.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 8696881..b15189e 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -126,6 +126,13 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 };
             },
         };
+        if size_read == 0 {
+            return StreamRequest {
+                request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
+                headers,
+                sender: Some(Box::new(TcpStreamSender{stream})),
+            };
+        }
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 69c19bd..bc2f107 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -137,6 +137,13 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 };
             },
         };
+        if size_read == 0 {
+            return StreamRequest {
+                request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
+                headers,
+                sender: Some(TcpStreamSender{stream}),
+            };
+        }
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
-- 
2.43.0


From 0980cc14a073cf71676d11d88fd508e3286f94b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 15/21] fix: keep reading while the request header is
 incomplete

A header longer than one read or split across packets was an error.
---
 server/src/io/tcp.rs       | 1 +
 server/src/io/tcp_async.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index b15189e..2fef038 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -136,6 +136,7 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
+            Ok(Status::Partial) => continue,
             _ => return StreamRequest {
                 request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
                 headers,
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index bc2f107..682d137 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -147,6 +147,7 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
+            Ok(Status::Partial) => continue,
             _ => return StreamRequest {
                 request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
                 headers,
-- 
2.43.0


From 20d34ee2eb74f8c5815f3d024b387d00d6afe8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 16/21] fix: do not overflow on huge Content-Length values

---
 server/src/io/tcp.rs       | 2 +-
 server/src/io/tcp_async.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 2fef038..e5dd8a4 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -157,7 +157,7 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             None => continue,
             Some(body_length) => body_length,
         };
-        if (body_start as u64 + body_length as u64) as usize <= buffer.len() {
+        if body_length <= buffer.len() - body_start {
             match request.method {
                 Some("POST") => (),
                 _ => return StreamRequest {
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 682d137..7a84b80 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -168,7 +168,7 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             None => continue,
             Some(body_length) => body_length,
         };
-        if (body_start as u64 + body_length as u64) as usize <= buffer.len() {
+        if body_length <= buffer.len() - body_start {
             match request.method {
                 Some("POST") => (),
                 _ => return StreamRequest {
-- 
2.43.0


From 88a136ca05eb4df939cd7aae44920aa052aa593a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 17/21] fix: find Content-Length in any letter case

HTTP header names are case insensitive; with 'content-length' the server waited
for more input forever.
---
 server/src/io/tcp.rs       | 2 +-
 server/src/io/tcp_async.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index e5dd8a4..fbd1f80 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -65,7 +65,7 @@ impl StreamSender for TcpStreamSender {
 fn extract_body_length_from_request(request: &Request) -> Result<Option<usize>, ServerError> {
     let mut length: Option<usize> = None;
     for header in request.headers.iter() {
-        if header.name == "Content-Length" {
+        if header.name.eq_ignore_ascii_case("Content-Length") {
             let length_str = match String::from_utf8(header.value.clone().to_vec()) {
                 Ok(utf_str) => utf_str,
                 Err(_) => return Err(ServerError::RequestError("Malformed request.".to_string())),
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 7a84b80..b37b7c2 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -76,7 +76,7 @@ impl TcpStreamSender {
 fn extract_body_length_from_request(request: &Request) -> Result<Option<usize>, ServerError> {
     let mut length: Option<usize> = None;
     for header in request.headers.iter() {
-        if header.name == "Content-Length" {
+        if header.name.eq_ignore_ascii_case("Content-Length") {
             let length_str = match String::from_utf8(header.value.clone().to_vec()) {
                 Ok(utf_str) => utf_str,
                 Err(_) => return Err(ServerError::RequestError("Malformed request.".to_string())),
-- 
2.43.0


From af4e42bc965bb178ec662fac37ff158c90bc21e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 18/21] fix: send replies completely

write may accept only a part of the bytes, truncating large replies.
---
 server/src/io/tcp.rs       | 2 +-
 server/src/io/tcp_async.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index fbd1f80..6cf586f 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -50,7 +50,7 @@ impl StreamSender for TcpStreamSender {
         let http_response = make_response(&code, &json_payload);
         let http_bytes = http_response.as_bytes();
 
-        if let Err(_) = self.stream.write(http_bytes) {
+        if let Err(_) = self.stream.write_all(http_bytes) {
             return Err(ServerError::NetworkError("Error writing to stream.".to_string()));
         };
         if let Err(_) = self.stream.flush() {
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index b37b7c2..f9c2118 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -61,7 +61,7 @@ impl TcpStreamSender {
 
         let http_response = make_response(&code, &json_payload);
         let http_bytes = http_response.as_bytes();
-        if let Err(_) = self.stream.write(http_bytes).await {
+        if let Err(_) = self.stream.write_all(http_bytes).await {
             return Err(ServerError::NetworkError("Error writing to stream.".to_string()));
         };
         if let Err(_) = self.stream.flush().await {
-- 
2.43.0


From 1a4fdc3eb16e07058e884fb7abd384f0dd088e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:25 +0000
Subject: [PATCH 19/21] fix: answer before stopping the async server

The process exited while replies were still being written and after taking
further requests, which were executed or cut off without a complete answer.
The listener now stops after answering the shutdown, and exit waits for it.
---
 server/src/async.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/server/src/async.rs b/server/src/async.rs
index f25cdb2..c039f4d 100644
--- a/server/src/async.rs
+++ b/server/src/async.rs
@@ -81,8 +81,11 @@ async fn listen_for_requests(analysis_sender: AnalysisSender) {
 
         }
         let response = job_receiver.recv().await.unwrap();
+        let shutting_down = matches!(response, Ok(InterpreterResponse::ShuttingDown));
         send_response_to_client(sender, response).await;
-
+        if shutting_down {
+            break;
+        }
 
         println!("Listening for requests");
     }
@@ -124,8 +127,7 @@ fn process_analyze_request(request: String, authorization: AuthorizationLevel) -
 
 
 async fn analyze_request(mut analyze_receiver: AnalysisReceiver, execute_sender: ExecuteSender) {
-    loop {
-        let (request, authorization, sender) = analyze_receiver.recv().await.unwrap();
+    while let Some((request, authorization, sender)) = analyze_receiver.recv().await {
         let exec_sender = execute_sender.clone();
         tokio::spawn(async move {
             let result = process_analyze_request(request, authorization);
@@ -212,7 +214,7 @@ async fn serve() {
     tokio::spawn(async move {
         expire_old_keys(execute_sender).await;
     });
-    tokio::spawn(async move {
+    let listener = tokio::spawn(async move {
         listen_for_requests(analysis_sender).await;
     });
     let mut count = 0;
@@ -226,6 +228,9 @@ async fn serve() {
             time::sleep(Duration::from_millis(1000)).await;
         }
     }.await;
+    if let Err(err) = listener.await {
+        println!("Error stopping the listener. {:?}", err);
+    }
     println!("Done.");
 }
 
-- 
2.43.0


From 8b799aa1e2a9bb5a3f24d9d3c7afe5941766f9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:04 +0000
Subject: [PATCH 20/21] fix: answer a request that declares no length at once

---
 server/src/io/tcp.rs       | 6 ++----
 server/src/io/tcp_async.rs | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 6cf586f..5064254 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -153,10 +153,8 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 };
             },
         };
-        let body_length = match body_length {
-            None => continue,
-            Some(body_length) => body_length,
-        };
+        // A request without a declared length has no body (RFC 9112, 6.3).
+        let body_length = body_length.unwrap_or(0);
         if body_length <= buffer.len() - body_start {
             match request.method {
                 Some("POST") => (),
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index f9c2118..3f9e0ac 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -164,10 +164,8 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 };
             },
         };
-        let body_length = match body_length {
-            None => continue,
-            Some(body_length) => body_length,
-        };
+        // A request without a declared length has no body (RFC 9112, 6.3).
+        let body_length = body_length.unwrap_or(0);
         if body_length <= buffer.len() - body_start {
             match request.method {
                 Some("POST") => (),
-- 
2.43.0


From 80daa89f81056ef5ed24bc6e3869f581edfef87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 21/21] fix: report a missing key alike whether it was removed
 or has expired

---
 server/src/storage/hashmap_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/storage/hashmap_storage.rs b/server/src/storage/hashmap_storage.rs
index 49989c3..ae14d8c 100644
--- a/server/src/storage/hashmap_storage.rs
+++ b/server/src/storage/hashmap_storage.rs
@@ -89,7 +89,7 @@ impl Storage for HashMapStorage {
         match self.storage.get_mut(key) {
             Some(value) if value.element.is_expired() => Err(make_key_error(key)),
             Some(value) =>Ok(&mut value.element),
-            None => Err(ServerError::KeyError(format!("No item with index {} found.", key))),
+            None => Err(make_key_error(key)),
         }
     }
 
-- 
2.43.0

