From ce38b81f5972779fe859896437c54f2caa10588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 01/42] fix: group items by their exact integer key

Large integer keys were rounded to f64 first, so that different keys fell
into one group and the key of a request did not find its own group.
---
 src/core/json/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/json/mod.rs b/src/core/json/mod.rs
index c1a11d6..859c8d0 100644
--- a/src/core/json/mod.rs
+++ b/src/core/json/mod.rs
@@ -44,6 +44,9 @@ fn group_by_key<'json, J: JsonLike<'json>>(
         let key_str = key
             .as_str()
             .map(|a| a.to_string())
+            // integers first: not every one of them is exactly representable as f64
+            .or_else(|| key.as_i64().map(|a| a.to_string()))
+            .or_else(|| key.as_u64().map(|a| a.to_string()))
             .or_else(|| key.as_f64().map(|a| a.to_string()));
 
         if let Some(key) = key_str {
-- 
2.43.0


From 193c99887c82d5257e0e096e0f3fb3c83c07b50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:42 +0000
Subject: [PATCH 02/42] symex: guarded access to private parts for the
 verification harnesses

---
 src/core/auth/mod.rs | 11 +++++++++++
 src/core/mod.rs      | 10 ++++++++++
 src/core/rest/mod.rs | 10 ++++++++++
 3 files changed, 31 insertions(+)

diff --git a/src/core/auth/mod.rs b/src/core/auth/mod.rs
index 0f0ec36..9206010 100644
--- a/src/core/auth/mod.rs
+++ b/src/core/auth/mod.rs
@@ -3,3 +3,14 @@ pub mod error;
 pub mod jwt;
 mod verification;
 pub mod verify;
+
+#[cfg(tailcall_symex)]
+pub mod symex {
+    pub use super::verification::Verification;
+    pub use super::verify::{AuthVerifier, Verifier};
+    pub use super::{basic, error, jwt};
+
+    pub async fn verify(v: &AuthVerifier, ctx: &crate::core::http::RequestContext) -> Verification {
+        super::verify::Verify::verify(v, ctx).await
+    }
+}
diff --git a/src/core/mod.rs b/src/core/mod.rs
index 702d5a0..40ecd2d 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)]
 #![allow(clippy::module_inception)]
 #![allow(clippy::mutable_key_type)]
 
@@ -60,6 +61,15 @@ pub use tailcall_macros as macros;
 pub use transform::Transform;
 pub use wrapping_type::Type;
 
+/// Private parts made visible to symbolic execution harnesses.
+#[cfg(tailcall_symex)]
+pub mod symex {
+    pub use super::{auth::symex as auth, rest::symex as rest};
+    pub mod counter {
+        pub use super::super::counter::*;
+    }
+}
+
 const DEFAULT_VERIFY_SSL: bool = true;
 pub const fn default_verify_ssl() -> Option<bool> {
     Some(DEFAULT_VERIFY_SSL)
diff --git a/src/core/rest/mod.rs b/src/core/rest/mod.rs
index 2a086d5..e1416d1 100644
--- a/src/core/rest/mod.rs
+++ b/src/core/rest/mod.rs
@@ -13,3 +13,13 @@ pub use endpoint_set::{Checked, EndpointSet, Unchecked};
 
 type Request = http::Request<hyper::Body>;
 pub use error::{Error, Result};
+
+#[cfg(tailcall_symex)]
+pub mod symex {
+    pub use super::endpoint::Endpoint;
+    pub use super::partial_request::PartialRequest;
+    pub use super::path::{Path, Segment};
+    pub use super::query_params::QueryParams;
+    pub use super::type_map::TypeMap;
+    pub use super::typed_variables::{TypedVariable, UrlParamType, N};
+}
-- 
2.43.0


From cdecaff20ec4a1793506f27735ba1b2f02ae1f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 03/42] fix: a REST path pattern needs all of its segments

A request with fewer segments than the pattern matched it, leaving path
parameters without a value.
---
 src/core/rest/path.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/rest/path.rs b/src/core/rest/path.rs
index 59fd608..504d4b4 100644
--- a/src/core/rest/path.rs
+++ b/src/core/rest/path.rs
@@ -53,7 +53,9 @@ impl Path {
     pub fn matches(&self, path: &str) -> Option<Variables> {
         let mut variables = Variables::default();
         let mut req_segments = path.split('/').filter(|s| !s.is_empty());
-        for (segment, req_segment) in self.segments.iter().zip(&mut req_segments) {
+        for segment in self.segments.iter() {
+            // a request with fewer segments than the pattern should not match
+            let req_segment = req_segments.next()?;
             match segment {
                 Segment::Literal(segment) => {
                     if segment != req_segment {
-- 
2.43.0


From bb975f683999a742a562dade73f0469d0a00c6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:27 +0000
Subject: [PATCH 04/42] fix: keep non-negative integers unsigned in borrowed
 JSON

---
 src/core/json/borrow.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/json/borrow.rs b/src/core/json/borrow.rs
index 60edafc..6da8d1f 100644
--- a/src/core/json/borrow.rs
+++ b/src/core/json/borrow.rs
@@ -66,9 +66,10 @@ impl<'ctx> JsonLike<'ctx> for Value<'ctx> {
             JsonPrimitive::Bool(x) => Value::Bool(x),
             JsonPrimitive::Str(s) => Value::Str(s.into()),
             JsonPrimitive::Number(n) => {
-                if let Some(n) = n.as_i64() {
+                // unsigned first: a borrowed number made from an i64 always counts as negative
+                if let Some(n) = n.as_u64() {
                     Value::Number(n.into())
-                } else if let Some(n) = n.as_u64() {
+                } else if let Some(n) = n.as_i64() {
                     Value::Number(n.into())
                 } else if let Some(n) = n.as_f64() {
                     Value::Number(n.into())
-- 
2.43.0


From fdf4b9ab769b4b99f5d0e8437350299c9658d962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:51 +0000
Subject: [PATCH 05/42] fix: a REST query parameter has the type of its
 variable

---
 src/core/rest/query_params.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/rest/query_params.rs b/src/core/rest/query_params.rs
index 1fbe743..b6a2c0c 100644
--- a/src/core/rest/query_params.rs
+++ b/src/core/rest/query_params.rs
@@ -24,7 +24,7 @@ impl QueryParams {
         let mut params = Vec::new();
         for (k, v) in map {
             let t = TypedVariable::try_from(
-                q.get(&k).ok_or(Error::UndefinedQueryParam(k.to_string()))?,
+                q.get(&v).ok_or(Error::UndefinedQueryParam(k.to_string()))?,
                 &v,
             )?;
             params.push((k, t));
-- 
2.43.0


From 8cc1fd799c5b321f0bf41f4ece30251d344d9569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 06/42] fix: compare upstream requests themselves, not their
 hashes

---
 src/core/http/data_loader_request.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/core/http/data_loader_request.rs b/src/core/http/data_loader_request.rs
index 4631fdd..88b85e3 100644
--- a/src/core/http/data_loader_request.rs
+++ b/src/core/http/data_loader_request.rs
@@ -2,7 +2,7 @@ use std::collections::BTreeSet;
 use std::hash::{Hash, Hasher};
 use std::ops::Deref;
 
-use tailcall_hasher::TailcallHasher;
+use reqwest::header::HeaderValue;
 
 #[derive(Debug)]
 pub struct DataLoaderRequest {
@@ -46,7 +46,7 @@ impl Hash for DataLoaderRequest {
             body.as_bytes().hash(state);
         }
         for name in &self.headers {
-            if let Some(value) = self.request.headers().get(name) {
+            for value in self.request.headers().get_all(name) {
                 name.hash(state);
                 value.hash(state);
             }
@@ -55,16 +55,20 @@ impl Hash for DataLoaderRequest {
 }
 
 impl PartialEq for DataLoaderRequest {
+    /// Compares everything that is hashed, not the hashes: different requests
+    /// may have equal hashes.
     fn eq(&self, other: &Self) -> bool {
-        let mut hasher_self = TailcallHasher::default();
-        self.hash(&mut hasher_self);
-        let hash_self = hasher_self.finish();
-
-        let mut hasher_other = TailcallHasher::default();
-        other.hash(&mut hasher_other);
-        let hash_other = hasher_other.finish();
+        fn keyed(req: &DataLoaderRequest) -> impl Iterator<Item = (&String, &HeaderValue)> {
+            let headers = req.request.headers();
+            req.headers
+                .iter()
+                .flat_map(|name| headers.get_all(name).iter().map(move |value| (name, value)))
+        }
 
-        hash_self == hash_other
+        self.request.url() == other.request.url()
+            && self.request.body().map(|b| b.as_bytes())
+                == other.request.body().map(|b| b.as_bytes())
+            && keyed(self).eq(keyed(other))
     }
 }
 
-- 
2.43.0


From 5bd71b351d8bbc32856185ae7f62bea78b0756fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 07/42] symex: guarded access to batching, transform, ir and
 jit parts

---
 src/core/http/mod.rs |  6 ++++++
 src/core/ir/mod.rs   |  7 +++++++
 src/core/jit/mod.rs  | 10 ++++++++++
 src/core/mod.rs      |  8 +++++++-
 4 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/core/http/mod.rs b/src/core/http/mod.rs
index 816f0fc..8ad1f39 100644
--- a/src/core/http/mod.rs
+++ b/src/core/http/mod.rs
@@ -22,5 +22,11 @@ pub mod showcase;
 mod telemetry;
 mod transformations;
 
+/// Private parts made visible to symbolic execution harnesses.
+#[cfg(tailcall_symex)]
+pub mod symex {
+    pub use super::transformations::*;
+}
+
 pub static TAILCALL_HTTPS_ORIGIN: HeaderValue = HeaderValue::from_static("https://tailcall.run");
 pub static TAILCALL_HTTP_ORIGIN: HeaderValue = HeaderValue::from_static("http://tailcall.run");
diff --git a/src/core/ir/mod.rs b/src/core/ir/mod.rs
index 99008c5..6ba34d5 100644
--- a/src/core/ir/mod.rs
+++ b/src/core/ir/mod.rs
@@ -37,3 +37,10 @@ pub trait GraphQLOperationContext {
     fn directives(&self) -> Option<String>;
     fn selection_set(&self, related_fields: &RelatedFields) -> Option<String>;
 }
+
+/// Private parts made visible to symbolic execution harnesses.
+#[cfg(tailcall_symex)]
+pub mod symex {
+    pub use super::eval_http::*;
+    pub use super::request::*;
+}
diff --git a/src/core/jit/mod.rs b/src/core/jit/mod.rs
index a895399..0a5debe 100644
--- a/src/core/jit/mod.rs
+++ b/src/core/jit/mod.rs
@@ -25,3 +25,13 @@ pub use graphql_executor::*;
 pub use model::*;
 pub use request::*;
 pub use response::*;
+
+/// Private parts made visible to symbolic execution harnesses.
+#[cfg(tailcall_symex)]
+pub mod symex {
+    pub use super::builder::*;
+    pub use super::context::*;
+    pub use super::store::*;
+    pub use super::synth::*;
+    pub use super::transform::*;
+}
diff --git a/src/core/mod.rs b/src/core/mod.rs
index 40ecd2d..ae559f7 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -64,7 +64,13 @@ pub use wrapping_type::Type;
 /// Private parts made visible to symbolic execution harnesses.
 #[cfg(tailcall_symex)]
 pub mod symex {
-    pub use super::{auth::symex as auth, rest::symex as rest};
+    pub use super::{
+        auth::symex as auth, http::symex as http, ir::symex as ir, jit::symex as jit,
+        rest::symex as rest,
+    };
+    pub mod transform {
+        pub use super::super::transform::*;
+    }
     pub mod counter {
         pub use super::super::counter::*;
     }
-- 
2.43.0


From 2f13e112a0444cdd580e855ab5824187bd585f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:33 +0000
Subject: [PATCH 08/42] symex: guarded access to the header settings

---
 src/core/config/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/config/mod.rs b/src/core/config/mod.rs
index 8236e78..a70c1e1 100644
--- a/src/core/config/mod.rs
+++ b/src/core/config/mod.rs
@@ -27,3 +27,9 @@ mod resolver;
 mod source;
 pub mod transformer;
 mod url_query;
+
+/// Private parts made visible to symbolic execution harnesses.
+#[cfg(tailcall_symex)]
+pub mod symex {
+    pub use super::headers::*;
+}
-- 
2.43.0


From fd8622bf4c56fb63862ed79996e1fd4d20693fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:26 +0000
Subject: [PATCH 09/42] fix: error reports keep descriptions and survive empty
 messages

---
 src/core/errata.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/core/errata.rs b/src/core/errata.rs
index 6864abf..1f14fc1 100644
--- a/src/core/errata.rs
+++ b/src/core/errata.rs
@@ -79,10 +79,9 @@ fn margin(str: &str, margin: usize) -> String {
 }
 
 fn bullet(str: &str) -> String {
-    let mut chars = margin(str, 2).chars().collect::<Vec<char>>();
-    chars[0] = '•';
-    chars[1] = ' ';
-    chars.into_iter().collect::<String>()
+    let mut result = String::from("• ");
+    result.extend(margin(str, 2).chars().skip(2));
+    result
 }
 
 impl Display for Errata {
@@ -218,7 +217,12 @@ impl From<ValidationError<String>> for Errata {
                 .as_vec()
                 .iter()
                 .map(|cause| {
-                    Errata::new(cause.message.as_str()).trace(Vec::from(cause.trace.clone()))
+                    let mut err =
+                        Errata::new(cause.message.as_str()).trace(Vec::from(cause.trace.clone()));
+                    if let Some(description) = &cause.description {
+                        err = err.description(description.to_owned());
+                    }
+                    err
                 })
                 .collect(),
         )
-- 
2.43.0


From f4866c2ed6d099c0e8c85b8299d2881bac9ac13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:14 +0000
Subject: [PATCH 10/42] symex: guarded access to the data loader's caches

---
 src/core/data_loader/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/data_loader/mod.rs b/src/core/data_loader/mod.rs
index 56af74d..a75902d 100644
--- a/src/core/data_loader/mod.rs
+++ b/src/core/data_loader/mod.rs
@@ -10,3 +10,10 @@ pub use cache::LruCache;
 pub use data_loader::DataLoader;
 pub use dedupe::DedupeResult;
 pub use loader::Loader;
+
+#[cfg(tailcall_symex)]
+pub mod symex {
+    pub use super::cache::{HashMapCache, NoCache};
+    pub use super::factory::CacheFactory;
+    pub use super::storage::CacheStorage;
+}
-- 
2.43.0


From d8d1a02b6f89c0b4b7ebcdcbb8e35c95b816e514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 11/42] fix: honour every cache directive of upstream answers

---
 src/core/http/cache.rs           | 29 +++++++++++++++++++++++++----
 src/core/http/request_context.rs | 20 +++++---------------
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/src/core/http/cache.rs b/src/core/http/cache.rs
index 6681fa4..8d9391a 100644
--- a/src/core/http/cache.rs
+++ b/src/core/http/cache.rs
@@ -1,12 +1,33 @@
-use cache_control::CacheControl;
+use cache_control::{Cachability, CacheControl};
 
 use super::Response;
 
 pub fn cache_policy(res: &Response<async_graphql::Value>) -> Option<CacheControl> {
-    let header = res.headers.get(http::header::CACHE_CONTROL)?;
-    let value = header.to_str().ok()?;
+    let mut values = Vec::new();
+    for header in res.headers.get_all(http::header::CACHE_CONTROL) {
+        values.push(header.to_str().ok()?);
+    }
+    if values.is_empty() {
+        return None;
+    }
+    let value = values.join(",").to_ascii_lowercase();
+    let mut policy = CacheControl::from_value(&value)?;
+
+    // `cachability` holds only the last one of its directives, so that the others
+    // have to be looked for
+    let has = |name: &str| {
+        value
+            .split(',')
+            .any(|directive| directive.split('=').next().map(str::trim) == Some(name))
+    };
+    if has("private") {
+        policy.no_store |= has("no-cache");
+        policy.cachability = Some(Cachability::Private);
+    } else if has("no-cache") {
+        policy.cachability = Some(Cachability::NoCache);
+    }
 
-    CacheControl::from_value(value)
+    Some(policy)
 }
 
 #[cfg(test)]
diff --git a/src/core/http/request_context.rs b/src/core/http/request_context.rs
index 23cd4be..b5def7b 100644
--- a/src/core/http/request_context.rs
+++ b/src/core/http/request_context.rs
@@ -55,9 +55,6 @@ impl RequestContext {
             allowed_headers: HeaderMap::new(),
         }
     }
-    fn set_min_max_age_conc(&self, min_max_age: i32) {
-        *self.min_max_age.lock().unwrap() = Some(min_max_age);
-    }
     pub fn get_min_max_age(&self) -> Option<i32> {
         *self.min_max_age.lock().unwrap()
     }
@@ -71,16 +68,9 @@ impl RequestContext {
     }
 
     pub fn set_min_max_age(&self, max_age: i32) {
-        let min_max_age_lock = self.get_min_max_age();
-        match min_max_age_lock {
-            Some(min_max_age) if max_age < min_max_age => {
-                self.set_min_max_age_conc(max_age);
-            }
-            None => {
-                self.set_min_max_age_conc(max_age);
-            }
-            _ => {}
-        }
+        // read and update under one lock, so that no concurrent update gets lost
+        let mut min_max_age = self.min_max_age.lock().unwrap();
+        *min_max_age = Some(min_max_age.map_or(max_age, |min| min.min(max_age)));
     }
 
     pub fn set_cache_visibility(&self, cachability: &Option<Cachability>) {
@@ -91,10 +81,10 @@ impl RequestContext {
 
     pub fn set_cache_control(&self, cache_policy: CacheControl) {
         if let Some(max_age) = cache_policy.max_age {
-            self.set_min_max_age(max_age.as_secs() as i32);
+            self.set_min_max_age(max_age.as_secs().try_into().unwrap_or(i32::MAX));
         }
         self.set_cache_visibility(&cache_policy.cachability);
-        if Some(Cachability::NoCache) == cache_policy.cachability {
+        if cache_policy.no_store || Some(Cachability::NoCache) == cache_policy.cachability {
             self.set_min_max_age(-1);
         }
     }
-- 
2.43.0


From cdbd4c7fd25dda37ac3a21531ff3a8d66b2dab26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:31 +0000
Subject: [PATCH 12/42] fix: do not cache constant responses with a protected
 field

---
 src/core/jit/transform/check_protected.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/jit/transform/check_protected.rs b/src/core/jit/transform/check_protected.rs
index c2c86a8..0d39cd2 100644
--- a/src/core/jit/transform/check_protected.rs
+++ b/src/core/jit/transform/check_protected.rs
@@ -14,7 +14,7 @@ impl<A> CheckProtected<A> {
     }
 }
 
-/// Checks if the IR will always evaluate to a Protected Value
+/// Checks if any part of the IR evaluates to a Protected Value
 pub fn is_protected(ir: &IR) -> bool {
     match ir {
         IR::Dynamic(_) => false,
@@ -25,7 +25,7 @@ pub fn is_protected(ir: &IR) -> bool {
         IR::Protect(_, _) => true,
         IR::Map(map) => is_protected(&map.input),
         IR::Pipe(ir, ir1) => is_protected(ir) || is_protected(ir1),
-        IR::Merge(vec) => vec.iter().all(is_protected),
+        IR::Merge(vec) => vec.iter().any(is_protected),
         IR::Discriminate(_, ir) => is_protected(ir),
         IR::Entity(hash_map) => hash_map.values().any(is_protected),
         IR::Service(_) => false,
@@ -37,9 +37,10 @@ impl<A> Transform for CheckProtected<A> {
     type Error = Infallible;
 
     fn transform(&self, mut plan: Self::Value) -> Valid<Self::Value, Self::Error> {
-        plan.is_protected = plan.iter_dfs().all(|field| match field.ir {
+        // one protected field is enough to protect the response
+        plan.is_protected = plan.iter_dfs().any(|field| match field.ir {
             Some(ref ir) => is_protected(ir),
-            None => true,
+            None => false,
         });
 
         Valid::succeed(plan)
-- 
2.43.0


From 6ec355ff855d3d2a6c86f64a6a13c842ded9fe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 13/42] fix: keep plans and constant responses of different
 operations apart

---
 src/core/jit/graphql_executor.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/core/jit/graphql_executor.rs b/src/core/jit/graphql_executor.rs
index e1c131c..0b831c5 100644
--- a/src/core/jit/graphql_executor.rs
+++ b/src/core/jit/graphql_executor.rs
@@ -65,6 +65,22 @@ impl JITExecutor {
     fn req_hash(request: &async_graphql::Request) -> OPHash {
         let mut hasher = TailcallHasher::default();
         request.query.hash(&mut hasher);
+        request.operation_name.hash(&mut hasher);
+
+        OPHash::new(hasher.finish())
+    }
+
+    /// Besides the operation itself, its variables may decide on what is part
+    /// of a constant response.
+    #[inline(always)]
+    fn const_hash(request: &async_graphql::Request) -> OPHash {
+        let mut hasher = TailcallHasher::default();
+        request.query.hash(&mut hasher);
+        request.operation_name.hash(&mut hasher);
+        for (name, value) in request.variables.iter() {
+            name.hash(&mut hasher);
+            value.to_string().hash(&mut hasher);
+        }
 
         OPHash::new(hasher.finish())
     }
@@ -75,12 +91,12 @@ impl JITExecutor {
         &self,
         request: async_graphql::Request,
     ) -> impl Future<Output = AnyResponse<Vec<u8>>> + Send + '_ {
-        // TODO: hash considering only the query itself ignoring specified operation and
-        // variables that could differ for the same query
+        // plans are independent of the variables, responses aren't
         let hash = Self::req_hash(&request);
+        let const_hash = Self::const_hash(&request);
 
         async move {
-            if let Some(response) = self.app_ctx.const_execution_cache.get(&hash) {
+            if let Some(response) = self.app_ctx.const_execution_cache.get(&const_hash) {
                 return response.clone();
             }
 
@@ -98,7 +114,7 @@ impl JITExecutor {
                 };
                 self.app_ctx
                     .operation_plans
-                    .insert(hash.clone(), exec.plan.clone());
+                    .insert(hash, exec.plan.clone());
                 exec
             };
 
@@ -115,7 +131,7 @@ impl JITExecutor {
             if is_const && !is_protected {
                 self.app_ctx
                     .const_execution_cache
-                    .insert(hash, response.clone());
+                    .insert(const_hash, response.clone());
             }
 
             response
-- 
2.43.0


From a6cb29919cb4cb20fd79750fa3293746ae0f1a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:45 +0000
Subject: [PATCH 14/42] fix: ask the providers of a protected type for the
 fields returning it

---
 src/core/blueprint/operators/protected.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/blueprint/operators/protected.rs b/src/core/blueprint/operators/protected.rs
index 6f80a44..dfec633 100644
--- a/src/core/blueprint/operators/protected.rs
+++ b/src/core/blueprint/operators/protected.rs
@@ -56,6 +56,18 @@ pub fn update_protected<'a>(
                         .unwrap_or_default(),
                 );
 
+                // the providers of a protected type are as well those of the fields
+                // that return it, unknown ones are reported for the type itself
+                protection.extend(
+                    config
+                        .find_type(field.type_of.name())
+                        .and_then(|type_| type_.protected.clone())
+                        .and_then(|protect| protect.id)
+                        .unwrap_or_default()
+                        .into_iter()
+                        .filter(|id| providers.contains_key(id)),
+                );
+
                 Valid::from_iter(protection.iter(), |id| {
                     if let Some(provider) = providers.get(id) {
                         Valid::succeed(Auth::Provider(provider.clone()))
-- 
2.43.0


From 6faf608a6a0bf8dc9525f9b95ac40da3bc88c736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:24 +0000
Subject: [PATCH 15/42] fix: do not ignore cache policies which cannot be
 parsed

---
 src/core/http/cache.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/http/cache.rs b/src/core/http/cache.rs
index 8d9391a..b4ae61a 100644
--- a/src/core/http/cache.rs
+++ b/src/core/http/cache.rs
@@ -5,13 +5,15 @@ use super::Response;
 pub fn cache_policy(res: &Response<async_graphql::Value>) -> Option<CacheControl> {
     let mut values = Vec::new();
     for header in res.headers.get_all(http::header::CACHE_CONTROL) {
-        values.push(header.to_str().ok()?);
+        values.push(String::from_utf8_lossy(header.as_bytes()));
     }
     if values.is_empty() {
         return None;
     }
     let value = values.join(",").to_ascii_lowercase();
-    let mut policy = CacheControl::from_value(&value)?;
+    // a policy that can't be understood permits nothing
+    let mut policy = CacheControl::from_value(&value)
+        .unwrap_or_else(|| CacheControl { no_store: true, ..Default::default() });
 
     // `cachability` holds only the last one of its directives, so that the others
     // have to be looked for
-- 
2.43.0


From 918ae89b26d166728e52b73019976f144af9d01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 16/42] fix: keep an empty list of varying headers when a
 configuration is written

---
 src/core/config/cors.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/core/config/cors.rs b/src/core/config/cors.rs
index f68678e..72ac20e 100644
--- a/src/core/config/cors.rs
+++ b/src/core/config/cors.rs
@@ -54,10 +54,7 @@ pub struct Cors {
 
     /// A list of header names that indicate the values of which might cause the
     /// server's response to vary, potentially affecting caching.
-    #[serde(
-        default = "preflight_request_headers",
-        skip_serializing_if = "is_default"
-    )]
+    #[serde(default = "preflight_request_headers")]
     pub vary: Vec<String>,
 }
 
-- 
2.43.0


From c8536b6650c2cab917970a109879d3fa682c4ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 17/42] fix: do not turn certificate checks back on in a later
 @upstream which does not mention them

---
 src/core/config/directives/upstream.rs | 8 ++------
 src/core/mod.rs                        | 8 --------
 2 files changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/core/config/directives/upstream.rs b/src/core/config/directives/upstream.rs
index 0beeb99..1935317 100644
--- a/src/core/config/directives/upstream.rs
+++ b/src/core/config/directives/upstream.rs
@@ -5,7 +5,7 @@ use serde::{Deserialize, Serialize};
 use tailcall_macros::{DirectiveDefinition, InputDefinition};
 
 use crate::core::macros::MergeRight;
-use crate::core::{default_verify_ssl, is_default, verify_ssl_is_default};
+use crate::core::is_default;
 
 const DEFAULT_MAX_SIZE: usize = 100;
 
@@ -136,11 +136,7 @@ pub struct Upstream {
     /// `Tailcall/1.0`
     pub user_agent: Option<String>,
 
-    #[serde(
-        default = "default_verify_ssl",
-        rename = "verifySSL",
-        skip_serializing_if = "verify_ssl_is_default"
-    )]
+    #[serde(rename = "verifySSL", default, skip_serializing_if = "is_default")]
     /// A boolean value that determines whether to verify certificates.
     /// Setting this as `false` will make tailcall accept self-signed
     /// certificates. NOTE: use this *only* during development or testing.
diff --git a/src/core/mod.rs b/src/core/mod.rs
index ae559f7..30cf669 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -76,11 +76,6 @@ pub mod symex {
     }
 }
 
-const DEFAULT_VERIFY_SSL: bool = true;
-pub const fn default_verify_ssl() -> Option<bool> {
-    Some(DEFAULT_VERIFY_SSL)
-}
-
 pub trait EnvIO: Send + Sync + 'static {
     fn get(&self, key: &str) -> Option<Cow<'_, str>>;
 }
@@ -130,9 +125,6 @@ pub fn pos<A>(a: A) -> Positioned<A> {
     Positioned::new(a, Pos::default())
 }
 
-pub fn verify_ssl_is_default(val: &Option<bool>) -> bool {
-    val.is_none() || val.unwrap()
-}
 
 #[cfg(test)]
 pub mod tests {
-- 
2.43.0


From 8cf74c81c11dc910ddc4fca8a2b707ad7d3d9c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 18/42] fix: write descriptions, arguments and directives of
 interfaces, unions, arguments and input fields

---
 src/core/config/from_document.rs |  9 ++++---
 src/core/config/into_document.rs | 44 +++++++++++++++++---------------
 src/core/document.rs             | 34 ++++++++++++++++--------
 3 files changed, 52 insertions(+), 35 deletions(-)

diff --git a/src/core/config/from_document.rs b/src/core/config/from_document.rs
index 2009693..ace227b 100644
--- a/src/core/config/from_document.rs
+++ b/src/core/config/from_document.rs
@@ -167,7 +167,9 @@ fn to_types(
             .trace(&type_name)
             .some(),
             TypeKind::Union(_) => Valid::none(),
-            TypeKind::Scalar => Valid::succeed(Some(to_scalar_type())),
+            TypeKind::Scalar => Valid::succeed(Some(to_scalar_type(
+                &type_definition.node.description,
+            ))),
         }
         .map(|option| (type_name, option))
     })
@@ -178,8 +180,9 @@ fn to_types(
         )
     })
 }
-fn to_scalar_type() -> config::Type {
-    config::Type { ..Default::default() }
+fn to_scalar_type(description: &Option<Positioned<String>>) -> config::Type {
+    let doc = description.to_owned().map(|pos| pos.node);
+    config::Type { doc, ..Default::default() }
 }
 fn to_union_types(
     type_definitions: &[&Positioned<TypeDefinition>],
diff --git a/src/core/config/into_document.rs b/src/core/config/into_document.rs
index 5df4f03..ced0ae2 100644
--- a/src/core/config/into_document.rs
+++ b/src/core/config/into_document.rs
@@ -76,7 +76,7 @@ fn config_document(config: &Config) -> ServiceDocument {
                         pos(FieldDefinition {
                             description: field.doc.clone().map(pos),
                             name: pos(Name::new(name.clone())),
-                            arguments: vec![],
+                            arguments: field_arguments(field),
                             ty: pos(type_of.into()),
                             directives,
                         })
@@ -119,28 +119,10 @@ fn config_document(config: &Config) -> ServiceDocument {
                         let type_of = &field.type_of;
                         let directives = field_directives(field);
 
-                        let args_map = field.args.clone();
-                        let args = args_map
-                            .iter()
-                            .map(|(name, arg)| {
-                                pos(async_graphql::parser::types::InputValueDefinition {
-                                    description: arg.doc.clone().map(pos),
-                                    name: pos(Name::new(name.clone())),
-                                    ty: pos((&arg.type_of).into()),
-
-                                    default_value: transform_default_value(
-                                        arg.default_value.clone(),
-                                    )
-                                    .map(pos),
-                                    directives: Vec::new(),
-                                })
-                            })
-                            .collect::<Vec<Positioned<InputValueDefinition>>>();
-
                         pos(async_graphql::parser::types::FieldDefinition {
                             description: field.doc.clone().map(pos),
                             name: pos(Name::new(name.clone())),
-                            arguments: args,
+                            arguments: field_arguments(field),
                             ty: pos(type_of.into()),
                             directives,
                         })
@@ -162,7 +144,7 @@ fn config_document(config: &Config) -> ServiceDocument {
     for (name, union) in config.unions.iter() {
         definitions.push(TypeSystemDefinition::Type(pos(TypeDefinition {
             extend: false,
-            description: None,
+            description: union.doc.clone().map(pos),
             name: pos(Name::new(name)),
             directives: Vec::new(),
             kind: TypeKind::Union(UnionType {
@@ -212,6 +194,26 @@ fn into_directives(
         .map(pos)
 }
 
+fn field_arguments(field: &crate::core::config::Field) -> Vec<Positioned<InputValueDefinition>> {
+    field
+        .args
+        .iter()
+        .map(|(name, arg)| {
+            pos(InputValueDefinition {
+                description: arg.doc.clone().map(pos),
+                name: pos(Name::new(name.clone())),
+                ty: pos((&arg.type_of).into()),
+                default_value: transform_default_value(arg.default_value.clone()).map(pos),
+                directives: arg
+                    .modify
+                    .iter()
+                    .map(|modify| pos(modify.to_directive()))
+                    .collect(),
+            })
+        })
+        .collect()
+}
+
 fn field_directives(field: &crate::core::config::Field) -> Vec<Positioned<ConstDirective>> {
     field
         .resolvers
diff --git a/src/core/document.rs b/src/core/document.rs
index 933c72c..b2ce6e1 100644
--- a/src/core/document.rs
+++ b/src/core/document.rs
@@ -132,8 +132,10 @@ fn print_type_def(type_def: &TypeDefinition) -> String {
         }
         TypeKind::Union(union) => {
             let directives = print_pos_directives(&type_def.directives);
+            let doc = get_formatted_docs(type_def.description.as_ref().map(|d| d.node.clone()), 0);
             format!(
-                "union {}{} = {}\n",
+                "{}union {} {}= {}\n",
+                doc,
                 type_def.name.node,
                 directives,
                 union
@@ -174,10 +176,14 @@ fn print_type_def(type_def: &TypeDefinition) -> String {
             } else {
                 String::new()
             };
+            let directives = print_pos_directives(&type_def.directives);
+            let doc = get_formatted_docs(type_def.description.as_ref().map(|d| d.node.clone()), 0);
             format!(
-                "interface {} {}{{\n{}\n}}\n",
+                "{}interface {} {}{}{{\n{}\n}}\n",
+                doc,
                 type_def.name.node,
                 implements,
+                directives,
                 interface
                     .fields
                     .iter()
@@ -267,14 +273,18 @@ fn print_field(field: &async_graphql::parser::types::FieldDefinition) -> String
             .arguments
             .iter()
             .map(|arg| {
-                let nullable = if arg.node.ty.node.nullable { "" } else { "!" };
-                format!(
-                    "{}: {}{}{}",
+                let doc = arg.node.description.as_ref().map_or(String::new(), |d| {
+                    format!("\"\"\"\n  {}\n  \"\"\" ", d.node)
+                });
+                let arg = format!(
+                    "{}{}: {}{} {}",
+                    doc,
                     arg.node.name,
-                    arg.node.ty.node.base,
-                    nullable,
-                    print_default_value(arg.node.default_value.as_ref())
-                )
+                    arg.node.ty.node,
+                    print_default_value(arg.node.default_value.as_ref()),
+                    print_pos_directives(&arg.node.directives),
+                );
+                arg.trim_end().to_string()
             })
             .collect::<Vec<String>>()
             .join(", ");
@@ -303,13 +313,15 @@ fn print_input_value(field: &async_graphql::parser::types::InputValueDefinition)
     let directives_str = print_pos_directives(&field.directives);
     let doc = get_formatted_docs(field.description.as_ref().map(|d| d.node.clone()), 2);
     format!(
-        "{}  {}: {}{}{}",
+        "{}  {}: {}{} {}",
         doc,
         field.name.node,
         field.ty.node,
+        print_default_value(field.default_value.as_ref()),
         directives_str,
-        print_default_value(field.default_value.as_ref())
     )
+    .trim_end()
+    .to_string()
 }
 
 pub fn print_directive<'a, T>(directive: &'a T) -> String
-- 
2.43.0


From 79f53f07c1760ce763526444db6c99d6a57890b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:39 +0000
Subject: [PATCH 19/42] fix: send the whole value of a query parameter, escaped

Of a value made of text and expressions only the first part was sent, and a
value with an ampersand, a plus or a percent sign was read as something else by
the upstream.
---
 src/core/http/query_encoder.rs    | 31 +++++++++++++--
 src/core/http/request_template.rs | 65 +++++++++++++------------------
 2 files changed, 53 insertions(+), 43 deletions(-)

diff --git a/src/core/http/query_encoder.rs b/src/core/http/query_encoder.rs
index 208c7a9..ef7a098 100644
--- a/src/core/http/query_encoder.rs
+++ b/src/core/http/query_encoder.rs
@@ -1,3 +1,5 @@
+use std::borrow::Cow;
+
 use crate::core::path::ValueString;
 
 /// Defines different strategies for encoding query parameters.
@@ -16,7 +18,7 @@ impl QueryEncoder {
         if let Some(value) = raw_value {
             match &value {
                 ValueString::Value(val) => self.encode_const_value(key, val),
-                ValueString::String(val) => format!("{}={}", key, val),
+                ValueString::String(val) => format!("{}={}", key, escape_value(val)),
             }
         } else {
             key.to_owned()
@@ -27,7 +29,7 @@ impl QueryEncoder {
             QueryEncoder::CommaSeparated => match value {
                 async_graphql::Value::List(list) if !list.is_empty() => {
                     let encoded_values: Vec<String> =
-                        list.iter().filter_map(convert_value).collect();
+                        list.iter().filter_map(encode_value).collect();
 
                     if encoded_values.is_empty() {
                         key.to_string()
@@ -35,7 +37,7 @@ impl QueryEncoder {
                         format!("{}={}", key, encoded_values.join(","))
                     }
                 }
-                _ => convert_value(value)
+                _ => encode_value(value)
                     .map(|val| format!("{}={}", key, val))
                     .unwrap_or(key.to_string()),
             },
@@ -51,7 +53,7 @@ impl QueryEncoder {
                         encoded_values.join("&")
                     }
                 }
-                _ => convert_value(value)
+                _ => encode_value(value)
                     .map(|val| format!("{}={}", key, val))
                     .unwrap_or(key.to_string()),
             },
@@ -59,6 +61,27 @@ impl QueryEncoder {
     }
 }
 
+/// Escapes the characters which would end a value within a query string, or
+/// stand for another one. All others are escaped when the query is made part
+/// of a URL.
+pub fn escape_value(value: &str) -> Cow<'_, str> {
+    if value.contains(['%', '&', '+', '#']) {
+        Cow::Owned(
+            value
+                .replace('%', "%25")
+                .replace('&', "%26")
+                .replace('+', "%2B")
+                .replace('#', "%23"),
+        )
+    } else {
+        Cow::Borrowed(value)
+    }
+}
+
+fn encode_value(value: &async_graphql::Value) -> Option<String> {
+    convert_value(value).map(|value| escape_value(&value).into_owned())
+}
+
 pub fn convert_value(value: &async_graphql::Value) -> Option<String> {
     match value {
         async_graphql::Value::String(s) => Some(s.to_string()),
diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index 1c57f14..a45b0ca 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -6,7 +6,7 @@ use http::header::{HeaderMap, HeaderValue};
 use tailcall_hasher::TailcallHasher;
 use url::Url;
 
-use super::query_encoder::QueryEncoder;
+use super::query_encoder::{escape_value, QueryEncoder};
 use crate::core::config::Encoding;
 use crate::core::endpoint::Endpoint;
 use crate::core::has_headers::HasHeaders;
@@ -14,7 +14,7 @@ use crate::core::helpers::headers::MustacheHeaders;
 use crate::core::ir::model::{CacheKey, IoId};
 use crate::core::ir::DynamicRequest;
 use crate::core::mustache::{Eval, Mustache, Segment};
-use crate::core::path::{PathString, PathValue, ValueString};
+use crate::core::path::{PathString, PathValue};
 
 /// RequestTemplate is an extension of a Mustache template.
 /// Various parts of the template can be written as a mustache template.
@@ -48,19 +48,31 @@ impl RequestTemplate {
             return Ok(url);
         }
 
-        // evaluates mustache template and returns the values evaluated by mustache
-        // template.
-        let mustache_eval = ValueStringEval::default();
-
         let extra_qp = self.query.iter().filter_map(|query| {
             let key = &query.key;
             let value = &query.value;
             let skip = query.skip_empty;
-            let parsed_value = mustache_eval.eval(value, ctx);
-            if skip && parsed_value.is_none() {
-                None
-            } else {
-                Some(self.query_encoder.encode(key, parsed_value))
+            match value.segments().as_slice() {
+                // a lone expression is encoded depending on the kind of its value
+                [Segment::Expression(parts)] => match ctx.raw_value(parts) {
+                    None if skip => None,
+                    value => Some(self.query_encoder.encode(key, value)),
+                },
+                [] if skip => None,
+                [] => Some(self.query_encoder.encode(key, None)),
+                segments => {
+                    let value = segments
+                        .iter()
+                        .map(|segment| match segment {
+                            Segment::Literal(text) => Cow::Borrowed(text.as_str()),
+                            Segment::Expression(parts) => ctx
+                                .path_string(parts)
+                                .map(|value| Cow::Owned(escape_value(&value).into_owned()))
+                                .unwrap_or_default(),
+                        })
+                        .collect::<String>();
+                    Some(format!("{}={}", key, value))
+                }
             }
         });
 
@@ -68,7 +80,9 @@ impl RequestTemplate {
             .query_pairs()
             .filter_map(|(k, v)| if v.is_empty() { None } else { Some((k, v)) });
 
-        let qp_string = base_qp.map(|(k, v)| format!("{}={}", k, v));
+        let qp_string = base_qp.map(|(k, v)| {
+            format!("{}={}", escape_value(&k).replace('=', "%3D"), escape_value(&v))
+        });
         let qp_string = qp_string.chain(extra_qp).fold("".to_string(), |str, item| {
             if str.is_empty() {
                 item
@@ -279,33 +293,6 @@ impl<Ctx: PathString + HasHeaders + PathValue> CacheKey<Ctx> for RequestTemplate
     }
 }
 
-/// ValueStringEval parses the mustache template and uses ctx to retrieve the
-/// values for templates.
-struct ValueStringEval<A>(std::marker::PhantomData<A>);
-impl<A> Default for ValueStringEval<A> {
-    fn default() -> Self {
-        Self(std::marker::PhantomData)
-    }
-}
-
-impl<'a, A: PathValue> Eval<'a> for ValueStringEval<A> {
-    type In = A;
-    type Out = Option<ValueString<'a>>;
-
-    fn eval(&self, mustache: &Mustache, in_value: &'a Self::In) -> Self::Out {
-        mustache
-            .segments()
-            .iter()
-            .filter_map(|segment| match segment {
-                Segment::Literal(text) => Some(ValueString::Value(Cow::Owned(
-                    async_graphql::Value::String(text.to_owned()),
-                ))),
-                Segment::Expression(parts) => in_value.raw_value(parts),
-            })
-            .next() // Return the first value that is found
-    }
-}
-
 struct ExpressionValueEval<A>(std::marker::PhantomData<A>);
 impl<A> Default for ExpressionValueEval<A> {
     fn default() -> Self {
-- 
2.43.0


From 60352cc95c3bc32b1a158cf3bd0cb9177cd0ae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:39 +0000
Subject: [PATCH 20/42] fix: tell GraphQL and gRPC requests with different
 headers or urls apart

Answers are kept and shared under a key, which left these out: the answer for
one caller, or of one upstream, was given to another.
---
 src/core/graphql/request_template.rs | 12 ++++++++++++
 src/core/grpc/request_template.rs    |  6 ++++++
 2 files changed, 18 insertions(+)

diff --git a/src/core/graphql/request_template.rs b/src/core/graphql/request_template.rs
index 9e849d3..ae53d81 100644
--- a/src/core/graphql/request_template.rs
+++ b/src/core/graphql/request_template.rs
@@ -197,6 +197,18 @@ impl<Ctx: PathGraphql + HasHeaders + GraphQLOperationContext> CacheKey<Ctx> for
         let mut hasher = TailcallHasher::default();
         let graphql_query = self.render_graphql_query(ctx);
         graphql_query.hash(&mut hasher);
+        self.url.hash(&mut hasher);
+
+        for (name, mustache) in self.headers.iter() {
+            name.hash(&mut hasher);
+            mustache.render_graphql(ctx).hash(&mut hasher);
+        }
+
+        for (name, value) in ctx.headers().iter() {
+            name.hash(&mut hasher);
+            value.hash(&mut hasher);
+        }
+
         Some(IoId::new(hasher.finish()))
     }
 }
diff --git a/src/core/grpc/request_template.rs b/src/core/grpc/request_template.rs
index 4643c59..8aed0da 100644
--- a/src/core/grpc/request_template.rs
+++ b/src/core/grpc/request_template.rs
@@ -122,6 +122,12 @@ impl<Ctx: PathString + HasHeaders> CacheKey<Ctx> for RequestTemplate {
         let mut hasher = TailcallHasher::default();
         let rendered_req = self.render(ctx).unwrap();
         rendered_req.hash(&mut hasher);
+
+        for (name, value) in rendered_req.headers.iter() {
+            name.hash(&mut hasher);
+            value.hash(&mut hasher);
+        }
+
         Some(IoId::new(hasher.finish()))
     }
 }
-- 
2.43.0


From e03823f2b6bfda49703d679475d6bbd44a8a2482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:00 +0000
Subject: [PATCH 21/42] fix: escape texts in the body of a GraphQL request

An argument with an apostrophe or a letter outside ASCII made the body invalid
JSON, and a header or variable with a quote ended its string within the query.
---
 src/core/graphql/request_template.rs | 5 +++--
 src/core/helpers/json.rs             | 5 +++++
 src/core/helpers/mod.rs              | 1 +
 src/core/ir/eval_context.rs          | 5 +++--
 src/core/jit/transform/graphql.rs    | 5 +++--
 src/core/path.rs                     | 5 ++++-
 6 files changed, 19 insertions(+), 7 deletions(-)
 create mode 100644 src/core/helpers/json.rs

diff --git a/src/core/graphql/request_template.rs b/src/core/graphql/request_template.rs
index ae53d81..931ca17 100644
--- a/src/core/graphql/request_template.rs
+++ b/src/core/graphql/request_template.rs
@@ -11,6 +11,7 @@ use tracing::info;
 use crate::core::config::{GraphQLOperationType, KeyValue};
 use crate::core::has_headers::HasHeaders;
 use crate::core::helpers::headers::MustacheHeaders;
+use crate::core::helpers::json;
 use crate::core::http::Method::POST;
 use crate::core::ir::model::{CacheKey, IoId};
 use crate::core::ir::{GraphQLOperationContext, RelatedFields};
@@ -132,7 +133,7 @@ impl RequestTemplate {
                     if value.is_empty() {
                         None
                     } else {
-                        Some(format!(r#"{}: {}"#, k, value.escape_default()))
+                        Some(format!(r#"{}: {}"#, k, json::escape(&value)))
                     }
                 })
                 .collect::<Vec<_>>()
@@ -152,7 +153,7 @@ impl RequestTemplate {
                 let operation = operation.to_mut();
 
                 operation.push(' ');
-                operation.push_str(&directives.escape_default().to_string());
+                operation.push_str(&json::escape(&directives));
             }
         }
 
diff --git a/src/core/helpers/json.rs b/src/core/helpers/json.rs
new file mode 100644
index 0000000..0cc945a
--- /dev/null
+++ b/src/core/helpers/json.rs
@@ -0,0 +1,5 @@
+/// Escapes a text such that it can be put between the quotes of a JSON string
+pub fn escape(text: &str) -> String {
+    let quoted = serde_json::Value::from(text).to_string();
+    quoted[1..quoted.len() - 1].to_string()
+}
diff --git a/src/core/helpers/mod.rs b/src/core/helpers/mod.rs
index cb96184..985a555 100644
--- a/src/core/helpers/mod.rs
+++ b/src/core/helpers/mod.rs
@@ -1,5 +1,6 @@
 pub mod body;
 pub mod gql_type;
 pub mod headers;
+pub mod json;
 pub mod url;
 pub mod value;
diff --git a/src/core/ir/eval_context.rs b/src/core/ir/eval_context.rs
index 89c03d8..9f3c1be 100644
--- a/src/core/ir/eval_context.rs
+++ b/src/core/ir/eval_context.rs
@@ -7,6 +7,7 @@ use http::header::HeaderMap;
 
 use super::{GraphQLOperationContext, RelatedFields, ResolverContextLike, SelectionField};
 use crate::core::document::print_directives;
+use crate::core::helpers::json;
 use crate::core::http::RequestContext;
 
 // TODO: rename to ResolverContext
@@ -158,7 +159,7 @@ fn format_selection_field(
 
         if !directives.is_empty() {
             output.push(' ');
-            output.push_str(&directives.escape_default().to_string());
+            output.push_str(&json::escape(&directives));
         }
     }
 
@@ -183,7 +184,7 @@ fn format_selection_field_arguments(field: &SelectionField) -> Cow<'static, str>
         .collect::<Vec<_>>()
         .join(",");
 
-    Cow::Owned(format!("({})", args.escape_default()))
+    Cow::Owned(format!("({})", json::escape(&args)))
 }
 
 // TODO: this is the same code as src/json/json_like.rs::get_path
diff --git a/src/core/jit/transform/graphql.rs b/src/core/jit/transform/graphql.rs
index d15b9f3..64aedae 100644
--- a/src/core/jit/transform/graphql.rs
+++ b/src/core/jit/transform/graphql.rs
@@ -7,6 +7,7 @@ use std::marker::PhantomData;
 use tailcall_valid::Valid;
 
 use crate::core::document::print_directives;
+use crate::core::helpers::json;
 use crate::core::ir::model::{IO, IR};
 use crate::core::jit::{Field, OperationPlan};
 use crate::core::json::JsonLikeOwned;
@@ -130,7 +131,7 @@ fn format_selection_field<A: Display + JsonLikeOwned>(
 
         if !directives.is_empty() {
             output.push(' ');
-            output.push_str(&directives.escape_default().to_string());
+            output.push_str(&json::escape(&directives));
         }
     }
 
@@ -154,6 +155,6 @@ fn format_selection_field_arguments<A: Display>(field: &Field<A>) -> Cow<'static
     if arguments.is_empty() {
         Cow::Borrowed("")
     } else {
-        Cow::Owned(format!("({})", arguments.escape_default()))
+        Cow::Owned(format!("({})", json::escape(&arguments)))
     }
 }
diff --git a/src/core/path.rs b/src/core/path.rs
index 006450d..a83533c 100644
--- a/src/core/path.rs
+++ b/src/core/path.rs
@@ -45,6 +45,7 @@ fn convert_value(value: Cow<'_, async_graphql::Value>) -> Option<Cow<'_, str>> {
         Cow::Owned(async_graphql::Value::Boolean(b)) => Some(Cow::Owned(b.to_string())),
         Cow::Owned(async_graphql::Value::Object(map)) => Some(json!(map).to_string().into()),
         Cow::Owned(async_graphql::Value::List(list)) => Some(json!(list).to_string().into()),
+        Cow::Owned(async_graphql::Value::Enum(n)) => Some(Cow::Owned(n.to_string())),
         Cow::Borrowed(async_graphql::Value::String(s)) => Some(Cow::Borrowed(s.as_str())),
         Cow::Borrowed(async_graphql::Value::Number(n)) => Some(Cow::Owned(n.to_string())),
         Cow::Borrowed(async_graphql::Value::Boolean(b)) => Some(Cow::Owned(b.to_string())),
@@ -122,7 +123,9 @@ impl<Ctx: ResolverContextLike> PathGraphql for EvalContext<'_, Ctx> {
 
         self.to_raw_value(path).map(|value| match value {
             ValueString::Value(val) => val.to_string(),
-            ValueString::String(val) => format!(r#""{val}""#),
+            ValueString::String(val) => {
+                async_graphql::Value::String(val.into_owned()).to_string()
+            }
         })
     }
 }
-- 
2.43.0


From 0411ca78b5fc68a77bcb79c48cd00a335cb981b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:00 +0000
Subject: [PATCH 22/42] fix: send texts in the headers of GraphQL requests
 without quotes

---
 src/core/graphql/request_template.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/core/graphql/request_template.rs b/src/core/graphql/request_template.rs
index 931ca17..c6275e1 100644
--- a/src/core/graphql/request_template.rs
+++ b/src/core/graphql/request_template.rs
@@ -15,7 +15,7 @@ use crate::core::helpers::json;
 use crate::core::http::Method::POST;
 use crate::core::ir::model::{CacheKey, IoId};
 use crate::core::ir::{GraphQLOperationContext, RelatedFields};
-use crate::core::mustache::Mustache;
+use crate::core::mustache::{Mustache, Segment};
 use crate::core::path::{PathGraphql, PathString};
 
 /// Represents a GraphQL selection that can either be resolved or unresolved.
@@ -64,7 +64,7 @@ impl RequestTemplate {
         let mut header_map = HeaderMap::new();
 
         for (k, v) in &self.headers {
-            if let Ok(header_value) = HeaderValue::from_str(&v.render_graphql(ctx)) {
+            if let Ok(header_value) = HeaderValue::from_str(&Self::render_header(v, ctx)) {
                 header_map.insert(k, header_value);
             }
         }
@@ -72,6 +72,21 @@ impl RequestTemplate {
         header_map
     }
 
+    /// Renders a template like any other, i.e. texts without quotes
+    fn render_header<C: PathGraphql>(template: &Mustache, ctx: &C) -> String {
+        template
+            .segments()
+            .iter()
+            .map(|segment| match segment {
+                Segment::Literal(text) => text.to_owned(),
+                Segment::Expression(parts) => {
+                    let value = ctx.path_graphql(parts).unwrap_or_default();
+                    serde_json::from_str::<String>(&value).unwrap_or(value)
+                }
+            })
+            .collect()
+    }
+
     fn set_headers<C: PathGraphql + HasHeaders>(
         &self,
         mut req: reqwest::Request,
@@ -202,7 +217,7 @@ impl<Ctx: PathGraphql + HasHeaders + GraphQLOperationContext> CacheKey<Ctx> for
 
         for (name, mustache) in self.headers.iter() {
             name.hash(&mut hasher);
-            mustache.render_graphql(ctx).hash(&mut hasher);
+            Self::render_header(mustache, ctx).hash(&mut hasher);
         }
 
         for (name, value) in ctx.headers().iter() {
-- 
2.43.0


From 517f0484773a60b87d1620237e2b343a11ffa97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:00 +0000
Subject: [PATCH 23/42] fix: forward all values of a repeated header

---
 src/core/http/request_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index 562dc57..0e0d100 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -155,7 +155,7 @@ fn create_allowed_headers(headers: &HeaderMap, allowed: &BTreeSet<String>) -> He
             .iter()
             .any(|allowed_key| allowed_key.eq_ignore_ascii_case(k.as_str()))
         {
-            new_headers.insert(k, v.clone());
+            new_headers.append(k, v.clone());
         }
     }
     new_headers
-- 
2.43.0


From 001902c58b9e8c0e400bff5816f9a61633f184b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:00 +0000
Subject: [PATCH 24/42] fix: look up every expression of a select template in
 the response

Only an expression at the very start of a template was.
---
 src/core/blueprint/dynamic_value.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/blueprint/dynamic_value.rs b/src/core/blueprint/dynamic_value.rs
index 1900b73..d285029 100644
--- a/src/core/blueprint/dynamic_value.rs
+++ b/src/core/blueprint/dynamic_value.rs
@@ -29,11 +29,10 @@ impl<A> DynamicValue<A> {
                 if mustache.is_const() {
                     DynamicValue::Mustache(mustache)
                 } else {
-                    let segments = mustache.segments_mut();
-                    if let Some(crate::core::mustache::Segment::Expression(vec)) =
-                        segments.get_mut(0)
-                    {
-                        vec.insert(0, name.to_string());
+                    for segment in mustache.segments_mut() {
+                        if let crate::core::mustache::Segment::Expression(vec) = segment {
+                            vec.insert(0, name.to_string());
+                        }
                     }
                     DynamicValue::Mustache(mustache)
                 }
-- 
2.43.0


From 2bdf365fdb057d221ce1d1adb2b5d53aa48fe5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:17 +0000
Subject: [PATCH 25/42] fix: keep the type of a value which is the whole of a
 template

A text which reads as JSON was turned into a number, boolean, null, list or
object, and null into an empty text.
---
 src/core/path.rs            | 18 ++++++++++++++++++
 src/core/serde_value_ext.rs |  7 +++++++
 2 files changed, 25 insertions(+)

diff --git a/src/core/path.rs b/src/core/path.rs
index a83533c..bc6615b 100644
--- a/src/core/path.rs
+++ b/src/core/path.rs
@@ -13,6 +13,11 @@ use crate::core::json::JsonLike;
 /// This is typically used in evaluating mustache templates.
 pub trait PathString {
     fn path_string<'a, T: AsRef<str>>(&'a self, path: &'a [T]) -> Option<Cow<'a, str>>;
+
+    /// The value itself, unless only its text is known
+    fn path_typed<T: AsRef<str>>(&self, _path: &[T]) -> Option<async_graphql::Value> {
+        None
+    }
 }
 
 /// PathValue trait provides a method for accessing values from JSON-like
@@ -113,6 +118,19 @@ impl<Ctx: ResolverContextLike> PathString for EvalContext<'_, Ctx> {
             ValueString::Value(value) => convert_value(value),
         })
     }
+
+    fn path_typed<T: AsRef<str>>(&self, path: &[T]) -> Option<async_graphql::Value> {
+        match path.first()?.as_ref() {
+            "value" | "args" => match self.to_raw_value(path) {
+                Some(ValueString::Value(value)) => {
+                    let json = value.into_owned().into_json().ok()?;
+                    async_graphql::Value::from_json(json).ok()
+                }
+                _ => Some(async_graphql::Value::Null),
+            },
+            _ => None,
+        }
+    }
 }
 
 impl<Ctx: ResolverContextLike> PathGraphql for EvalContext<'_, Ctx> {
diff --git a/src/core/serde_value_ext.rs b/src/core/serde_value_ext.rs
index 37a095a..dc1f5cc 100644
--- a/src/core/serde_value_ext.rs
+++ b/src/core/serde_value_ext.rs
@@ -4,6 +4,7 @@ use async_graphql::{Name, Value as GraphQLValue};
 use indexmap::IndexMap;
 
 use crate::core::blueprint::DynamicValue;
+use crate::core::mustache::Segment;
 use crate::core::path::PathString;
 
 pub trait ValueExt {
@@ -15,6 +16,12 @@ impl ValueExt for DynamicValue<async_graphql::Value> {
         match self {
             DynamicValue::Value(value) => value.to_owned(),
             DynamicValue::Mustache(m) => {
+                if let [Segment::Expression(parts)] = m.segments().as_slice() {
+                    if let Some(value) = ctx.path_typed(parts) {
+                        return value;
+                    }
+                }
+
                 let rendered: Cow<'a, str> = Cow::Owned(m.render(ctx));
 
                 serde_json::from_str::<GraphQLValue>(rendered.as_ref())
-- 
2.43.0


From 4a88d68047b40c8946493cfec54c4706e5f988e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:10 +0000
Subject: [PATCH 26/42] fix: keep values within their texts in the body of a
 request

---
 src/core/grpc/request_template.rs |  2 +-
 src/core/http/request_template.rs | 70 ++++++++++---------------------
 src/core/mustache/eval.rs         | 25 +++++++++++
 3 files changed, 47 insertions(+), 50 deletions(-)

diff --git a/src/core/grpc/request_template.rs b/src/core/grpc/request_template.rs
index 8aed0da..123e1e6 100644
--- a/src/core/grpc/request_template.rs
+++ b/src/core/grpc/request_template.rs
@@ -35,7 +35,7 @@ pub struct RequestBody {
 impl RequestBody {
     pub fn render<C: PathString>(&self, ctx: &C) -> String {
         if let Some(mustache) = &self.mustache {
-            mustache.render(ctx)
+            mustache.render_json(ctx)
         } else {
             self.value.to_string()
         }
diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index a45b0ca..e8c7960 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -13,7 +13,7 @@ use crate::core::has_headers::HasHeaders;
 use crate::core::helpers::headers::MustacheHeaders;
 use crate::core::ir::model::{CacheKey, IoId};
 use crate::core::ir::DynamicRequest;
-use crate::core::mustache::{Eval, Mustache, Segment};
+use crate::core::mustache::{Mustache, Segment};
 use crate::core::path::{PathString, PathValue};
 
 /// RequestTemplate is an extension of a Mustache template.
@@ -145,15 +145,13 @@ impl RequestTemplate {
         let batching_value = if let Some(body_path) = &self.body_path {
             match &self.encoding {
                 Encoding::ApplicationJson => {
-                    let (body, batching_value) =
-                        ExpressionValueEval::default().eval(body_path, ctx);
-                    req.body_mut().replace(body.into());
-                    batching_value
+                    req.body_mut().replace(body_path.render_json(ctx).into());
+                    first_expression_value(body_path, ctx)
                 }
                 Encoding::ApplicationXWwwFormUrlencoded => {
                     // TODO: this is a performance bottleneck
                     // We first encode everything to string and then back to form-urlencoded
-                    let body = body_path.render(ctx);
+                    let body = body_path.render_json(ctx);
                     let form_data = match serde_json::from_str::<serde_json::Value>(&body) {
                         Ok(deserialized_data) => serde_urlencoded::to_string(deserialized_data)?,
                         Err(_) => body,
@@ -283,7 +281,7 @@ impl<Ctx: PathString + HasHeaders + PathValue> CacheKey<Ctx> for RequestTemplate
         }
 
         if let Some(body) = self.body_path.as_ref() {
-            body.render(ctx).hash(state)
+            body.render_json(ctx).hash(state)
         }
 
         let url = self.create_url(ctx).unwrap();
@@ -293,48 +291,22 @@ impl<Ctx: PathString + HasHeaders + PathValue> CacheKey<Ctx> for RequestTemplate
     }
 }
 
-struct ExpressionValueEval<A>(std::marker::PhantomData<A>);
-impl<A> Default for ExpressionValueEval<A> {
-    fn default() -> Self {
-        Self(std::marker::PhantomData)
-    }
-}
-
-impl<'a, A: PathString> Eval<'a> for ExpressionValueEval<A> {
-    type In = A;
-    type Out = (String, Option<String>);
-
-    fn eval(&self, mustache: &Mustache, in_value: &'a Self::In) -> Self::Out {
-        let mut result = String::new();
-        // This evaluator returns a tuple of (evaluated_string, body_key) where:
-        // 1. evaluated_string: The fully rendered template string
-        // 2. body_key: The value of the first expression found in the template
-        //
-        // This implementation is a critical optimization for request batching:
-        // - During batching, we need to extract individual request values from the
-        //   batch response and map them back to their original requests
-        // - Instead of parsing the body JSON multiple times, we extract the key during
-        //   initial template evaluation
-        // - Since we enforce that batch requests can only contain one expression in
-        //   their body, this key uniquely identifies each request
-        // - This approach eliminates the need for repeated JSON parsing/serialization
-        //   during the batching process, significantly improving performance
-        let mut first_expression_value = None;
-        for segment in mustache.segments().iter() {
-            match segment {
-                Segment::Literal(text) => result.push_str(text),
-                Segment::Expression(parts) => {
-                    if let Some(value) = in_value.path_string(parts) {
-                        result.push_str(value.as_ref());
-                        if first_expression_value.is_none() {
-                            first_expression_value = Some(value.into_owned());
-                        }
-                    }
-                }
-            }
-        }
-        (result, first_expression_value)
-    }
+/// The value of the first expression of a template.
+///
+/// It's a critical optimization for request batching:
+/// - During batching, we need to extract individual request values from the
+///   batch response and map them back to their original requests
+/// - Instead of parsing the body JSON multiple times, we extract the key during
+///   initial template evaluation
+/// - Since we enforce that batch requests can only contain one expression in
+///   their body, this key uniquely identifies each request
+/// - This approach eliminates the need for repeated JSON parsing/serialization
+///   during the batching process, significantly improving performance
+fn first_expression_value<C: PathString>(mustache: &Mustache, ctx: &C) -> Option<String> {
+    mustache.segments().iter().find_map(|segment| match segment {
+        Segment::Literal(_) => None,
+        Segment::Expression(parts) => ctx.path_string(parts).map(Cow::into_owned),
+    })
 }
 
 #[cfg(test)]
diff --git a/src/core/mustache/eval.rs b/src/core/mustache/eval.rs
index 5fd1a01..ba5f4cc 100644
--- a/src/core/mustache/eval.rs
+++ b/src/core/mustache/eval.rs
@@ -1,4 +1,5 @@
 use super::{Mustache, Segment};
+use crate::core::helpers::json::escape;
 use crate::core::path::{PathGraphql, PathString};
 
 pub trait Eval<'a> {
@@ -127,6 +128,30 @@ impl Mustache {
         PathStringEval::new().eval(self, value)
     }
 
+    /// Renders a JSON document. Within an object or a list expressions can only
+    /// be part of texts, so values are escaped such that they stay there.
+    pub fn render_json(&self, value: &impl PathString) -> String {
+        let within_text = self.is_json_document();
+        self.segments()
+            .iter()
+            .map(|segment| match segment {
+                Segment::Literal(text) => text.clone(),
+                Segment::Expression(parts) => match value.path_string(parts) {
+                    Some(text) if within_text => escape(&text),
+                    Some(text) => text.into_owned(),
+                    None => String::new(),
+                },
+            })
+            .collect()
+    }
+
+    fn is_json_document(&self) -> bool {
+        matches!(
+            self.segments().first(),
+            Some(Segment::Literal(text)) if text.trim_start().starts_with(['{', '['])
+        )
+    }
+
     pub fn render_graphql(&self, value: &impl PathGraphql) -> String {
         PathGraphqlEval::new().eval(self, value)
     }
-- 
2.43.0


From e621f64ec67cab331c8d116037a96aa9e302b184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:10 +0000
Subject: [PATCH 27/42] fix: report a URL which cannot be parsed instead of
 panicking

---
 src/core/grpc/request_template.rs | 2 +-
 src/core/http/request_template.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/grpc/request_template.rs b/src/core/grpc/request_template.rs
index 123e1e6..2c76a9a 100644
--- a/src/core/grpc/request_template.rs
+++ b/src/core/grpc/request_template.rs
@@ -120,7 +120,7 @@ impl RenderedRequestTemplate {
 impl<Ctx: PathString + HasHeaders> CacheKey<Ctx> for RequestTemplate {
     fn cache_key(&self, ctx: &Ctx) -> Option<IoId> {
         let mut hasher = TailcallHasher::default();
-        let rendered_req = self.render(ctx).unwrap();
+        let rendered_req = self.render(ctx).ok()?;
         rendered_req.hash(&mut hasher);
 
         for (name, value) in rendered_req.headers.iter() {
diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index e8c7960..58c824b 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -284,7 +284,7 @@ impl<Ctx: PathString + HasHeaders + PathValue> CacheKey<Ctx> for RequestTemplate
             body.render_json(ctx).hash(state)
         }
 
-        let url = self.create_url(ctx).unwrap();
+        let url = self.create_url(ctx).ok()?;
         url.hash(state);
 
         Some(IoId::new(hasher.finish()))
-- 
2.43.0


From 89a228ed0a2c116de2ad8cfa275a92431d3b1d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:38 +0000
Subject: [PATCH 28/42] fix: apply the default values of the variables of an
 operation

---
 src/core/jit/builder.rs                  | 12 +++++++++++-
 src/core/jit/exec_const.rs               | 10 ++++++----
 src/core/jit/model.rs                    |  9 +++++++++
 src/core/jit/transform/input_resolver.rs |  1 +
 4 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index db3cfcf..03aebe1 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -372,6 +372,15 @@ impl<'a> Builder<'a> {
             }
         });
 
+        let default_variables = operation
+            .variable_definitions
+            .iter()
+            .filter_map(|definition| {
+                let default = definition.node.default_value.as_ref()?;
+                Some((definition.node.name.to_string(), default.node.clone()))
+            })
+            .collect();
+
         let plan = OperationPlan::new(
             name,
             fields,
@@ -379,7 +388,8 @@ impl<'a> Builder<'a> {
             self.index.clone(),
             is_introspection_query,
             Some(self.index.get_interfaces()),
-        );
+        )
+        .with_default_variables(default_variables);
         Ok(plan)
     }
 }
diff --git a/src/core/jit/exec_const.rs b/src/core/jit/exec_const.rs
index 1606f05..452585c 100644
--- a/src/core/jit/exec_const.rs
+++ b/src/core/jit/exec_const.rs
@@ -38,7 +38,7 @@ impl ConstValueExecutor {
         self,
         app_ctx: &Arc<AppContext>,
         req_ctx: &RequestContext,
-        request: Request<ConstValue>,
+        mut request: Request<ConstValue>,
     ) -> AnyResponse<Vec<u8>> {
         // Run all the IRs in the before chain
         if let Some(ir) = &self.plan.before {
@@ -56,6 +56,11 @@ impl ConstValueExecutor {
 
         let is_introspection_query =
             req_ctx.server.get_enable_introspection() && self.plan.is_introspection_query;
+        for (name, value) in &self.plan.default_variables {
+            if request.variables.get(name).is_none() {
+                request.variables.insert(name.clone(), value.clone());
+            }
+        }
         let variables = &request.variables;
 
         // Attempt to skip unnecessary fields
@@ -71,9 +76,6 @@ impl ConstValueExecutor {
         };
 
         // Attempt to replace variables in the plan with the actual values
-        // TODO: operation from [ExecutableDocument] could contain definitions for
-        // default values of arguments. That info should be passed to
-        // [InputResolver] to resolve defaults properly
         let result = InputResolver::new(plan).resolve_input(variables);
 
         let plan = match result {
diff --git a/src/core/jit/model.rs b/src/core/jit/model.rs
index edaee37..2b808fe 100644
--- a/src/core/jit/model.rs
+++ b/src/core/jit/model.rs
@@ -318,6 +318,8 @@ pub struct OperationPlan<Input> {
     pub selection: Vec<Field<Input>>,
     pub before: Option<IR>,
     pub interfaces: Option<HashSet<String>>,
+    /// Values of the variables which the operation declares a default for
+    pub default_variables: Vec<(String, ConstValue)>,
 }
 
 impl<Input> OperationPlan<Input> {
@@ -343,6 +345,7 @@ impl<Input> OperationPlan<Input> {
             min_cache_ttl: self.min_cache_ttl,
             before: self.before,
             interfaces: None,
+            default_variables: self.default_variables,
         })
     }
 }
@@ -372,9 +375,15 @@ impl<Input> OperationPlan<Input> {
             min_cache_ttl: None,
             before: Default::default(),
             interfaces,
+            default_variables: Vec::new(),
         }
     }
 
+    /// Sets the default values of the variables
+    pub fn with_default_variables(self, default_variables: Vec<(String, ConstValue)>) -> Self {
+        Self { default_variables, ..self }
+    }
+
     /// Returns the name of the root type
     pub fn root_name(&self) -> &str {
         &self.root_name
diff --git a/src/core/jit/transform/input_resolver.rs b/src/core/jit/transform/input_resolver.rs
index 3787719..877cf59 100644
--- a/src/core/jit/transform/input_resolver.rs
+++ b/src/core/jit/transform/input_resolver.rs
@@ -85,6 +85,7 @@ where
             is_protected: self.plan.is_protected,
             min_cache_ttl: self.plan.min_cache_ttl,
             interfaces: None,
+            default_variables: self.plan.default_variables,
             selection,
             before: self.plan.before,
         })
-- 
2.43.0


From 53827a4ba8504742da043e76af97e4fc7c4516c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:38 +0000
Subject: [PATCH 29/42] fix: resolve nested fields of a field with an alias

---
 src/core/jit/exec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/jit/exec.rs b/src/core/jit/exec.rs
index c3155aa..0dcd772 100644
--- a/src/core/jit/exec.rs
+++ b/src/core/jit/exec.rs
@@ -117,7 +117,7 @@ where
             let value = match ctx.value() {
                 Some(value) => value.map_ref(&mut |value| {
                     Ok(value
-                        .get_key(&field.output_name)
+                        .get_key(&field.name)
                         .cloned()
                         // in case there is no value we still put some dumb empty value anyway
                         // to force execution of the nested fields even when parent object is not
-- 
2.43.0


From 5172a3397514eda56fc8131c906f1f84e87a9fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:38 +0000
Subject: [PATCH 30/42] fix: check nullability and scalars at each level of a
 list, report the right path

---
 src/core/jit/synth/synth.rs | 81 +++++++++++++++++++++++--------------
 1 file changed, 50 insertions(+), 31 deletions(-)

diff --git a/src/core/jit/synth/synth.rs b/src/core/jit/synth/synth.rs
index 221fa95..54e6f4a 100644
--- a/src/core/jit/synth/synth.rs
+++ b/src/core/jit/synth/synth.rs
@@ -4,6 +4,7 @@ use crate::core::jit::model::{Field, OperationPlan, Variables};
 use crate::core::jit::store::{DataPath, Store};
 use crate::core::jit::{Error, PathSegment, Positioned, ValidationError};
 use crate::core::json::{JsonLike, JsonObjectLike};
+use crate::core::Type;
 
 type ValueStore<Value> = Store<Result<Value, Positioned<Error>>>;
 
@@ -69,8 +70,25 @@ where
         Output: JsonLike<'a>,
     {
         path.push(PathSegment::Field(Cow::Borrowed(&node.output_name)));
+        let result = self.iter_field(node, value, data_path, path, root_name);
+        path.pop();
 
-        let result = match self.store.get(&node.id) {
+        result
+    }
+
+    #[inline(always)]
+    fn iter_field<Output>(
+        &'a self,
+        node: &'a Field<Value>,
+        value: Option<&'a Value>,
+        data_path: &DataPath,
+        path: &mut Vec<PathSegment<'a>>,
+        root_name: Option<&'a str>,
+    ) -> Result<Output, Positioned<Error>>
+    where
+        Output: JsonLike<'a>,
+    {
+        match self.store.get(&node.id) {
             Some(value) => {
                 let mut value = value.as_ref().map_err(Clone::clone)?;
 
@@ -85,16 +103,13 @@ where
                 if node.type_of.is_list() != value.as_array().is_some() {
                     return self.node_nullable_guard(node, path, None);
                 }
-                self.iter_inner(node, value, data_path, path)
+                self.iter_inner(node, &node.type_of, value, data_path, path)
             }
             None => match value {
-                Some(result) => self.iter_inner(node, result, data_path, path),
+                Some(result) => self.iter_inner(node, &node.type_of, result, data_path, path),
                 None => self.node_nullable_guard(node, path, root_name),
             },
-        };
-
-        path.pop();
-        result
+        }
     }
 
     /// This guard ensures to return Null value only if node type permits it, in
@@ -127,6 +142,7 @@ where
     fn iter_inner<Output>(
         &'a self,
         node: &'a Field<Value>,
+        type_of: &'a Type,
         value: &'a Value,
         data_path: &DataPath,
         path: &mut Vec<PathSegment<'a>>,
@@ -140,16 +156,13 @@ where
         }
 
         let eval_result = if value.is_null() {
-            // check the nullability of this type unwrapping list modifier
-            let is_nullable = match &node.type_of {
-                crate::core::Type::Named { non_null, .. } => !*non_null,
-                crate::core::Type::List { of_type, .. } => of_type.is_nullable(),
-            };
-            if is_nullable {
+            if type_of.is_nullable() {
                 Ok(Output::null())
             } else {
                 Err(ValidationError::ValueRequired.into())
             }
+        } else if let (Type::List { of_type, .. }, Some(arr)) = (type_of, value.as_array()) {
+            return self.iter_list(node, of_type, arr, data_path, path);
         } else if node.scalar.is_some() {
             let scalar = node.scalar.as_ref().unwrap();
 
@@ -172,13 +185,7 @@ where
                     .unwrap_or(false)
             };
 
-            let is_valid_enum = if let Some(vec) = value.as_array() {
-                vec.iter().all(check_valid_enum)
-            } else {
-                check_valid_enum(value)
-            };
-
-            if is_valid_enum {
+            if check_valid_enum(value) {
                 Ok(Output::clone_from(value))
             } else {
                 Err(
@@ -210,17 +217,7 @@ where
 
                     Ok(Output::object(Output::JsonObject::from_vec(fields)))
                 }
-                (Some(arr), _) => {
-                    let mut ans = Vec::with_capacity(arr.len());
-                    for (i, val) in arr.iter().enumerate() {
-                        path.push(PathSegment::Index(i));
-                        let val =
-                            self.iter_inner(node, val, &data_path.clone().with_index(i), path)?;
-                        path.pop();
-                        ans.push(val);
-                    }
-                    Ok(Output::array(ans))
-                }
+                (Some(arr), _) => return self.iter_list(node, type_of, arr, data_path, path),
                 _ => Ok(Output::clone_from(value)),
             }
         };
@@ -228,6 +225,28 @@ where
         eval_result.map_err(|e| self.to_location_error(e, node, path))
     }
 
+    #[inline(always)]
+    fn iter_list<Output>(
+        &'a self,
+        node: &'a Field<Value>,
+        type_of: &'a Type,
+        arr: &'a Vec<Value>,
+        data_path: &DataPath,
+        path: &mut Vec<PathSegment<'a>>,
+    ) -> Result<Output, Positioned<Error>>
+    where
+        Output: JsonLike<'a>,
+    {
+        let mut ans = Vec::with_capacity(arr.len());
+        for (i, val) in arr.iter().enumerate() {
+            path.push(PathSegment::Index(i));
+            let val = self.iter_inner(node, type_of, val, &data_path.clone().with_index(i), path);
+            path.pop();
+            ans.push(val?);
+        }
+        Ok(Output::array(ans))
+    }
+
     fn to_location_error(
         &'a self,
         error: Error,
-- 
2.43.0


From 6d5389898b43ae5b7ebefde984a8a4bd87721332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:38 +0000
Subject: [PATCH 31/42] fix: merge the fields of a response name, honour
 conditions on fragments, refuse cyclic fragments

---
 src/core/blueprint/index.rs |  15 +
 src/core/jit/builder.rs     | 590 +++++++++++++++++++++++++-----------
 src/core/jit/error.rs       |   2 +
 src/core/jit/model.rs       |  26 +-
 4 files changed, 462 insertions(+), 171 deletions(-)

diff --git a/src/core/blueprint/index.rs b/src/core/blueprint/index.rs
index 5fa09a9..2f28cdc 100644
--- a/src/core/blueprint/index.rs
+++ b/src/core/blueprint/index.rs
@@ -100,6 +100,21 @@ impl Index {
         }
     }
 
+    /// Returns the names of the object types that the value of the type can
+    /// have
+    pub fn get_possible_types<'a>(&'a self, type_name: &'a str) -> Vec<&'a str> {
+        if let Some((Definition::Object(_), _)) = self.map.get(type_name) {
+            return vec![type_name];
+        }
+        self.map
+            .iter()
+            .filter(|(name, (def, _))| {
+                matches!(def, Definition::Object(_)) && self.is_type_implements(name, type_name)
+            })
+            .map(|(name, _)| name.as_str())
+            .collect()
+    }
+
     pub fn get_input_type_definition(&self, type_name: &str) -> Option<&InputObjectTypeDefinition> {
         match self.map.get(type_name) {
             Some((Definition::InputObject(input), _)) => Some(input),
diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index 03aebe1..a824604 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -3,11 +3,12 @@ use std::ops::Deref;
 use std::sync::Arc;
 
 use async_graphql::parser::types::{
-    Directive, DocumentOperations, ExecutableDocument, FragmentDefinition, OperationDefinition,
-    OperationType, Selection, SelectionSet,
+    Directive, DocumentOperations, ExecutableDocument, Field as GraphQLField, FragmentDefinition,
+    OperationDefinition, OperationType, Selection, SelectionSet,
 };
 use async_graphql::Positioned;
 use async_graphql_value::Value;
+use indexmap::IndexMap;
 
 use super::model::{Directive as JitDirective, *};
 use super::BuildError;
@@ -16,13 +17,14 @@ use crate::core::counter::{Count, Counter};
 use crate::core::jit::model::OperationPlan;
 use crate::core::{scalar, Type};
 
-#[derive(PartialEq, strum_macros::Display)]
+#[derive(Clone, PartialEq, strum_macros::Display)]
 enum Condition {
     True,
     False,
     Variable(Variable),
 }
 
+#[derive(Clone)]
 struct Conditions {
     skip: Condition,
     include: Condition,
@@ -62,6 +64,76 @@ impl Conditions {
 
         (include, skip)
     }
+
+    fn into_guards(self) -> Vec<Guard> {
+        let (include, skip) = self.into_variable_tuple();
+        let include = include.map(|variable| Guard { variable, expected: true });
+        let skip = skip.map(|variable| Guard { variable, expected: false });
+
+        include.into_iter().chain(skip).collect()
+    }
+}
+
+/// Describes the place where the fields are selected
+#[derive(Clone)]
+struct Scope<'a> {
+    /// Type the fields belong to
+    type_name: &'a str,
+    /// Closest fragment with the fields
+    parent_fragment: Option<&'a str>,
+    /// Conditions of all the fragments on the way to the fields
+    type_conditions: Vec<&'a str>,
+    /// Conditions of @skip and @include on the way to the fields
+    guards: Vec<Guard>,
+}
+
+impl<'a> Scope<'a> {
+    fn new(type_name: &'a str) -> Self {
+        Self {
+            type_name,
+            parent_fragment: None,
+            type_conditions: vec![],
+            guards: vec![],
+        }
+    }
+
+    fn fragment(&self, type_name: Option<&'a str>, conditions: Conditions) -> Self {
+        let type_name = type_name.unwrap_or(self.type_name);
+        let mut scope = self.clone();
+        scope.type_name = type_name;
+        scope.parent_fragment = Some(type_name);
+        scope.type_conditions.push(type_name);
+        scope.guards.extend(conditions.into_guards());
+        scope
+    }
+
+    /// Checks if the closest condition on the type implies all the others
+    fn is_exact(&self, index: &Index) -> bool {
+        self.type_conditions
+            .iter()
+            .all(|condition| index.is_type_implements(self.type_name, condition))
+    }
+}
+
+/// A field as it's selected in a single place of the document
+#[derive(Clone)]
+struct Occurrence<'a> {
+    scope: Scope<'a>,
+    conditions: Conditions,
+    field: &'a GraphQLField,
+    pos: async_graphql::Pos,
+}
+
+impl<'a> Occurrence<'a> {
+    fn output_name(&self) -> &'a str {
+        self.field.response_key().node.as_str()
+    }
+
+    fn guards(&self) -> Vec<Guard> {
+        let mut guards = self.scope.guards.clone();
+        guards.extend(self.conditions.clone().into_guards());
+        guards
+    }
 }
 
 pub struct Builder<'a> {
@@ -125,193 +197,356 @@ impl<'a> Builder<'a> {
         }
     }
 
-    #[allow(clippy::too_many_arguments)]
-    #[inline(always)]
-    fn iter(
-        &self,
-        parent_fragment: Option<&str>,
-        selection: &SelectionSet,
-        type_condition: &str,
-        fragments: &HashMap<&str, &FragmentDefinition>,
-    ) -> Vec<Field<Value>> {
-        let mut fields = vec![];
-        let mut fragments_fields = vec![];
-        let mut visited = HashSet::new();
-
+    /// Gathers the fields of a selection set together with the fields of the
+    /// fragments in it in the order of the document, based on
+    /// [spec](https://spec.graphql.org/October2021/#sec-Field-Collection)
+    fn collect<'b>(
+        &'b self,
+        scope: &Scope<'b>,
+        selection: &'b SelectionSet,
+        fragments: &HashMap<&'b str, &'b FragmentDefinition>,
+        occurrences: &mut Vec<Occurrence<'b>>,
+    ) {
         for selection in &selection.items {
-            match &selection.node {
-                Selection::Field(Positioned { node: gql_field, .. }) => {
-                    let field_name = gql_field.name.node.as_str();
-                    let output_name = gql_field
-                        .alias
-                        .as_ref()
-                        .map(|a| a.node.as_str())
-                        .unwrap_or(field_name);
-                    if visited.contains(output_name) {
-                        continue;
-                    }
-                    visited.insert(output_name);
-                    let conditions = self.include(&gql_field.directives);
+            let (directives, pos) = match &selection.node {
+                Selection::Field(field) => (&field.node.directives, selection.pos),
+                Selection::FragmentSpread(spread) => (&spread.node.directives, selection.pos),
+                Selection::InlineFragment(fragment) => (&fragment.node.directives, selection.pos),
+            };
+            let conditions = self.include(directives);
+
+            // Skip selections based on GraphQL's skip/include conditions
+            if conditions.is_const_skip() || conditions.include == Condition::False {
+                continue;
+            }
 
-                    // Skip fields based on GraphQL's skip/include conditions
-                    if conditions.is_const_skip() {
+            match &selection.node {
+                Selection::Field(Positioned { node: field, .. }) => {
+                    let name = field.name.node.as_str();
+                    if name != "__typename" && self.index.get_field(scope.type_name, name).is_none()
+                    {
                         continue;
                     }
-
-                    let mut directives = Vec::with_capacity(gql_field.directives.len());
-                    for directive in &gql_field.directives {
-                        let directive = &directive.node;
-                        if directive.name.node == "skip" || directive.name.node == "include" {
-                            continue;
-                        }
-                        let arguments = directive
-                            .arguments
-                            .iter()
-                            .map(|(k, v)| (k.node.to_string(), v.node.clone()))
-                            .collect::<Vec<_>>();
-
-                        directives
-                            .push(JitDirective { name: directive.name.to_string(), arguments });
-                    }
-
-                    let (include, skip) = conditions.into_variable_tuple();
-                    let request_args = gql_field
-                        .arguments
-                        .iter()
-                        .map(|(k, v)| (k.node.as_str().to_string(), v.node.to_owned()))
-                        .collect::<HashMap<_, _>>();
-
-                    let parent_fragment = parent_fragment.map(|s| s.to_owned());
-                    // Check if the field is present in the schema index
-                    if let Some(field_def) = self.index.get_field(type_condition, field_name) {
-                        let mut args = Vec::with_capacity(request_args.len());
-                        if let QueryField::Field((_, schema_args)) = field_def {
-                            for (arg_name, arg_value) in schema_args {
-                                let type_of = arg_value.of_type.clone();
-                                let id = ArgId::new(self.arg_id.next());
-                                let name = arg_name.clone();
-                                let default_value = arg_value
-                                    .default_value
-                                    .as_ref()
-                                    .and_then(|v| v.to_owned().try_into().ok());
-                                args.push(Arg {
-                                    id,
-                                    name,
-                                    type_of,
-                                    value: request_args.get(arg_name).cloned(),
-                                    default_value,
-                                });
-                            }
-                        }
-
-                        let type_of = match field_def {
-                            QueryField::Field((field_def, _)) => field_def.of_type.clone(),
-                            QueryField::InputField(field_def) => field_def.of_type.clone(),
-                        };
-
-                        let id = FieldId::new(self.field_id.next());
-
-                        // Recursively gather child fields for the selection set
-                        let child_fields = self.iter(
-                            None,
-                            &gql_field.selection_set.node,
-                            type_of.name(),
-                            fragments,
-                        );
-
-                        let ir = match field_def {
-                            QueryField::Field((field_def, _)) => field_def.resolver.clone(),
-                            _ => None,
-                        };
-
-                        let scalar = if self.index.type_is_scalar(type_of.name()) {
-                            Some(
-                                scalar::Scalar::find(type_of.name())
-                                    .cloned()
-                                    .unwrap_or(scalar::Scalar::Empty),
-                            )
-                        } else {
-                            None
-                        };
-
-                        // Create the field with its child fields in `selection`
-                        let field = Field {
-                            id,
-                            selection: child_fields,
-                            parent_fragment,
-                            name: field_name.to_string(),
-                            output_name: output_name.to_string(),
-                            ir,
-                            is_enum: self.index.type_is_enum(type_of.name()),
-                            type_of,
-                            type_condition: Some(type_condition.to_string()),
-                            skip,
-                            include,
-                            args,
-                            pos: selection.pos.into(),
-                            directives,
-                            scalar,
-                        };
-
-                        fields.push(field);
-                    } else if field_name == "__typename" {
-                        let typename_field = Field {
-                            id: FieldId::new(self.field_id.next()),
-                            name: field_name.to_string(),
-                            output_name: output_name.to_string(),
-                            ir: None,
-                            type_of: Type::Named { name: "String".to_owned(), non_null: true },
-                            type_condition: Some(type_condition.to_string()),
-                            skip,
-                            include,
-                            args: Vec::new(),
-                            pos: selection.pos.into(),
-                            selection: vec![], // __typename has no child selection
-                            parent_fragment,
-                            directives,
-                            is_enum: false,
-                            scalar: Some(scalar::Scalar::Empty),
-                        };
-
-                        fields.push(typename_field);
-                    }
+                    occurrences.push(Occurrence { scope: scope.clone(), conditions, field, pos });
                 }
-                Selection::FragmentSpread(Positioned { node: fragment_spread, .. }) => {
-                    if let Some(fragment) =
-                        fragments.get(fragment_spread.fragment_name.node.as_str())
-                    {
-                        fragments_fields.extend(self.iter(
-                            Some(fragment.type_condition.node.on.node.as_str()),
+                Selection::FragmentSpread(Positioned { node: spread, .. }) => {
+                    if let Some(fragment) = fragments.get(spread.fragment_name.node.as_str()) {
+                        let type_name = fragment.type_condition.node.on.node.as_str();
+                        self.collect(
+                            &scope.fragment(Some(type_name), conditions),
                             &fragment.selection_set.node,
-                            fragment.type_condition.node.on.node.as_str(),
                             fragments,
-                        ));
+                            occurrences,
+                        );
                     }
                 }
                 Selection::InlineFragment(Positioned { node: fragment, .. }) => {
-                    let type_of = fragment
+                    let type_name = fragment
                         .type_condition
                         .as_ref()
-                        .map(|cond| cond.node.on.node.as_str())
-                        .unwrap_or(type_condition);
-                    fragments_fields.extend(self.iter(
-                        Some(type_of),
+                        .map(|condition| condition.node.on.node.as_str());
+                    self.collect(
+                        &scope.fragment(type_name, conditions),
                         &fragment.selection_set.node,
-                        type_of,
                         fragments,
-                    ));
+                        occurrences,
+                    );
                 }
             }
         }
-        for field in fragments_fields {
-            if visited.contains(field.output_name.as_str()) {
+    }
+
+    /// Turns the collected fields of a selection set into the fields of the
+    /// plan. The fields with the same response name are merged into one based
+    /// on [spec](https://spec.graphql.org/October2021/#sec-Field-Selection-Merging)
+    fn merge<'b>(
+        &'b self,
+        type_name: &'b str,
+        occurrences: Vec<Occurrence<'b>>,
+        fragments: &HashMap<&'b str, &'b FragmentDefinition>,
+    ) -> Vec<Field<Value>> {
+        let possible_types = self.index.get_possible_types(type_name);
+        let mut groups: IndexMap<&str, Vec<(usize, Occurrence)>> = IndexMap::new();
+
+        for (position, occurrence) in occurrences.into_iter().enumerate() {
+            groups
+                .entry(occurrence.output_name())
+                .or_default()
+                .push((position, occurrence));
+        }
+
+        let mut merged = Vec::with_capacity(groups.len());
+
+        for occurrences in groups.into_values() {
+            let mut by_types: Vec<(HashSet<&str>, Vec<(usize, Occurrence)>)> = vec![];
+
+            for (position, occurrence) in occurrences {
+                let types = possible_types
+                    .iter()
+                    .filter(|name| {
+                        let mut conditions = occurrence.scope.type_conditions.iter();
+                        conditions.all(|condition| self.index.is_type_implements(name, condition))
+                    })
+                    .copied()
+                    .collect::<HashSet<_>>();
+
+                match by_types.iter_mut().find(|(other, _)| other == &types) {
+                    Some((_, occurrences)) => occurrences.push((position, occurrence)),
+                    // the selection doesn't apply to any type that is possible here
+                    None if types.is_empty() && !possible_types.is_empty() => (),
+                    None => by_types.push((types, vec![(position, occurrence)])),
+                }
+            }
+
+            let disjoint = by_types.iter().enumerate().all(|(i, (types, _))| {
+                by_types[i + 1..]
+                    .iter()
+                    .all(|(other, _)| types.is_disjoint(other))
+            });
+            let exact = by_types
+                .iter()
+                .all(|(_, occurrences)| occurrences[0].1.scope.is_exact(&self.index));
+
+            if disjoint && exact {
+                for (_, occurrences) in by_types {
+                    let type_condition = occurrences[0].1.scope.type_name;
+                    merged.push((type_condition, occurrences));
+                }
+            } else {
+                // there is no single condition that describes what applies to
+                // a value, hence consider each of its possible types
+                for name in &possible_types {
+                    let mut occurrences = by_types
+                        .iter()
+                        .filter(|(types, _)| types.contains(name))
+                        .flat_map(|(_, occurrences)| occurrences.iter().cloned())
+                        .collect::<Vec<_>>();
+
+                    if !occurrences.is_empty() {
+                        occurrences.sort_by_key(|(position, _)| *position);
+                        merged.push((name, occurrences));
+                    }
+                }
+            }
+        }
+
+        // fields are part of the response in the order of their first occurrences
+        merged.sort_by_key(|(_, occurrences)| occurrences[0].0);
+
+        merged
+            .into_iter()
+            .map(|(type_condition, occurrences)| {
+                let occurrences = occurrences
+                    .into_iter()
+                    .map(|(_, occurrence)| occurrence)
+                    .collect::<Vec<_>>();
+                self.field(type_condition, &occurrences, fragments)
+            })
+            .collect()
+    }
+
+    /// Creates the field with its child fields for all of its occurrences
+    fn field<'b>(
+        &'b self,
+        type_condition: &str,
+        occurrences: &[Occurrence<'b>],
+        fragments: &HashMap<&'b str, &'b FragmentDefinition>,
+    ) -> Field<Value> {
+        let first = &occurrences[0];
+        let gql_field = first.field;
+        let field_name = gql_field.name.node.as_str();
+        let output_name = first.output_name();
+        let is_single = occurrences.len() == 1;
+
+        let mut directives = Vec::with_capacity(gql_field.directives.len());
+        for directive in &gql_field.directives {
+            let directive = &directive.node;
+            if directive.name.node == "skip" || directive.name.node == "include" {
                 continue;
             }
-            fields.push(field);
+            let arguments = directive
+                .arguments
+                .iter()
+                .map(|(k, v)| (k.node.to_string(), v.node.clone()))
+                .collect::<Vec<_>>();
+
+            directives.push(JitDirective { name: directive.name.to_string(), arguments });
+        }
+
+        let (include, skip) = if is_single {
+            first.conditions.clone().into_variable_tuple()
+        } else {
+            (None, None)
+        };
+        let guards = if is_single && first.scope.guards.is_empty() {
+            vec![]
+        } else {
+            let guards = occurrences.iter().map(|occurrence| occurrence.guards());
+            let guards = guards.collect::<Vec<_>>();
+            // there is an occurrence without any condition
+            if guards.iter().any(|guards| guards.is_empty()) {
+                vec![]
+            } else {
+                guards
+            }
+        };
+        let request_args = gql_field
+            .arguments
+            .iter()
+            .map(|(k, v)| (k.node.as_str().to_string(), v.node.to_owned()))
+            .collect::<HashMap<_, _>>();
+
+        let parent_fragment = first.scope.parent_fragment.map(|s| s.to_owned());
+        let pos = first.pos.into();
+
+        // Check if the field is present in the schema index
+        let Some(field_def) = self.index.get_field(first.scope.type_name, field_name) else {
+            return Field {
+                id: FieldId::new(self.field_id.next()),
+                name: field_name.to_string(),
+                output_name: output_name.to_string(),
+                ir: None,
+                type_of: Type::Named { name: "String".to_owned(), non_null: true },
+                type_condition: Some(type_condition.to_string()),
+                skip,
+                include,
+                guards,
+                args: Vec::new(),
+                pos,
+                selection: vec![], // __typename has no child selection
+                parent_fragment,
+                directives,
+                is_enum: false,
+                scalar: Some(scalar::Scalar::Empty),
+            };
+        };
+
+        let mut args = Vec::with_capacity(request_args.len());
+        if let QueryField::Field((_, schema_args)) = field_def {
+            for (arg_name, arg_value) in schema_args {
+                let type_of = arg_value.of_type.clone();
+                let id = ArgId::new(self.arg_id.next());
+                let name = arg_name.clone();
+                let default_value = arg_value
+                    .default_value
+                    .as_ref()
+                    .and_then(|v| v.to_owned().try_into().ok());
+                args.push(Arg {
+                    id,
+                    name,
+                    type_of,
+                    value: request_args.get(arg_name).cloned(),
+                    default_value,
+                });
+            }
+        }
+
+        let (type_of, ir) = match field_def {
+            QueryField::Field((field_def, _)) => {
+                (field_def.of_type.clone(), field_def.resolver.clone())
+            }
+            QueryField::InputField(field_def) => (field_def.of_type.clone(), None),
+        };
+        let child_type = match field_def {
+            QueryField::Field((field_def, _)) => field_def.of_type.name(),
+            QueryField::InputField(field_def) => field_def.of_type.name(),
+        };
+
+        let id = FieldId::new(self.field_id.next());
+
+        // Recursively gather child fields for the selection sets of all the
+        // occurrences of the same field
+        let mut children = vec![];
+        for occurrence in occurrences {
+            if occurrence.field.name.node == gql_field.name.node {
+                let mut scope = Scope::new(child_type);
+                if !is_single {
+                    scope.guards = occurrence.guards();
+                }
+                self.collect(
+                    &scope,
+                    &occurrence.field.selection_set.node,
+                    fragments,
+                    &mut children,
+                );
+            }
+        }
+        let selection = self.merge(child_type, children, fragments);
+
+        let scalar = if self.index.type_is_scalar(type_of.name()) {
+            Some(
+                scalar::Scalar::find(type_of.name())
+                    .cloned()
+                    .unwrap_or(scalar::Scalar::Empty),
+            )
+        } else {
+            None
+        };
+
+        Field {
+            id,
+            selection,
+            parent_fragment,
+            name: field_name.to_string(),
+            output_name: output_name.to_string(),
+            ir,
+            is_enum: self.index.type_is_enum(type_of.name()),
+            type_of,
+            type_condition: Some(type_condition.to_string()),
+            skip,
+            include,
+            guards,
+            args,
+            pos,
+            directives,
+            scalar,
+        }
+    }
+
+    /// Checks that no fragment spreads itself, either directly or through the
+    /// other fragments, since that would never end
+    /// [spec](https://spec.graphql.org/October2021/#sec-Fragment-spreads-must-not-form-cycles)
+    fn check_cycles<'b>(
+        selection: &'b SelectionSet,
+        fragments: &HashMap<&'b str, &'b FragmentDefinition>,
+        path: &mut Vec<&'b str>,
+        checked: &mut HashSet<&'b str>,
+    ) -> Result<(), BuildError> {
+        for selection in &selection.items {
+            match &selection.node {
+                Selection::Field(field) => Self::check_cycles(
+                    &field.node.selection_set.node,
+                    fragments,
+                    path,
+                    checked,
+                )?,
+                Selection::InlineFragment(fragment) => Self::check_cycles(
+                    &fragment.node.selection_set.node,
+                    fragments,
+                    path,
+                    checked,
+                )?,
+                Selection::FragmentSpread(spread) => {
+                    let name = spread.node.fragment_name.node.as_str();
+                    if path.contains(&name) {
+                        return Err(BuildError::FragmentCycle(name.to_string()));
+                    }
+                    if checked.contains(name) {
+                        continue;
+                    }
+                    if let Some(fragment) = fragments.get(name) {
+                        path.push(name);
+                        Self::check_cycles(&fragment.selection_set.node, fragments, path, checked)?;
+                        path.pop();
+                        checked.insert(name);
+                    }
+                }
+            }
         }
-        fields.sort_by(|a, b| a.id.cmp(&b.id));
-        fields
+
+        Ok(())
     }
+
     #[inline(always)]
     fn get_type(&self, ty: OperationType) -> Option<&str> {
         match ty {
@@ -361,7 +596,22 @@ impl<'a> Builder<'a> {
         let name = self
             .get_type(operation.ty)
             .ok_or(BuildError::RootOperationTypeNotDefined { operation: operation.ty })?;
-        let fields = self.iter(None, &operation.selection_set.node, name, &fragments);
+        let selection_set = &operation.selection_set.node;
+        Self::check_cycles(
+            selection_set,
+            &fragments,
+            &mut Vec::new(),
+            &mut HashSet::new(),
+        )?;
+
+        let mut occurrences = vec![];
+        self.collect(
+            &Scope::new(name),
+            selection_set,
+            &fragments,
+            &mut occurrences,
+        );
+        let fields = self.merge(name, occurrences, &fragments);
 
         let is_introspection_query = operation.selection_set.node.items.iter().any(|f| {
             if let Selection::Field(Positioned { node: gql_field, .. }) = &f.node {
diff --git a/src/core/jit/error.rs b/src/core/jit/error.rs
index 086b604..463d1ff 100644
--- a/src/core/jit/error.rs
+++ b/src/core/jit/error.rs
@@ -14,6 +14,8 @@ pub enum BuildError {
     OperationNotFound(String),
     #[error("Operation name required in request")]
     OperationNameRequired,
+    #[error(r#"Cannot spread fragment "{0}" within itself"#)]
+    FragmentCycle(String),
 }
 
 #[derive(Error, Debug, Clone, PartialEq, Eq)]
diff --git a/src/core/jit/model.rs b/src/core/jit/model.rs
index 2b808fe..798c2aa 100644
--- a/src/core/jit/model.rs
+++ b/src/core/jit/model.rs
@@ -79,7 +79,14 @@ impl<Input> Field<Input> {
         let skip = eval(self.skip.as_ref(), variables, false);
         let include = eval(self.include.as_ref(), variables, true);
 
-        skip == include
+        let is_guarded = !self.guards.is_empty()
+            && !self.guards.iter().any(|guards| {
+                guards.iter().all(|Guard { variable, expected }| {
+                    eval(Some(variable), variables, *expected) == *expected
+                })
+            });
+
+        skip || !include || is_guarded
     }
 
     /// Returns the __typename of the value related to this field
@@ -185,6 +192,11 @@ pub struct Field<Input> {
     pub type_condition: Option<String>,
     pub skip: Option<Variable>,
     pub include: Option<Variable>,
+    /// Conditions from the fragments and the other occurrences of the field.
+    /// Every item describes one occurrence, the field is part of the response
+    /// if all the conditions are met for any of them. Empty when there is no
+    /// such restriction
+    pub guards: Vec<Vec<Guard>>,
     pub args: Vec<Arg<Input>>,
     pub selection: Vec<Field<Input>>,
     pub parent_fragment: Option<String>,
@@ -229,6 +241,14 @@ impl Variable {
     }
 }
 
+/// Condition of a @skip or @include on the value of a variable
+#[derive(Clone, Debug, PartialEq)]
+pub struct Guard {
+    pub variable: Variable,
+    /// Value of the variable that is required to include the field
+    pub expected: bool,
+}
+
 impl<Input> Field<Input> {
     pub fn try_map<Output, Error>(
         self,
@@ -249,6 +269,7 @@ impl<Input> Field<Input> {
             parent_fragment: None,
             skip: self.skip,
             include: self.include,
+            guards: self.guards,
             pos: self.pos,
             args: self
                 .args
@@ -289,6 +310,9 @@ impl<Input: Debug> Debug for Field<Input> {
         if self.include.is_some() {
             debug_struct.field("include", &self.include);
         }
+        if !self.guards.is_empty() {
+            debug_struct.field("guards", &self.guards);
+        }
         debug_struct.field("directives", &self.directives);
 
         debug_struct.finish()
-- 
2.43.0


From dafa726f27df40fffe6c19b130082c1182cfe6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:44 +0000
Subject: [PATCH 32/42] fix: keep the query of a request to a REST endpoint and
 drop the prefix once, keep the configured routes

---
 src/core/http/request_handler.rs | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index 0e0d100..a1077e1 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -7,7 +7,7 @@ use async_graphql::ServerError;
 use hyper::header::{self, HeaderValue, CONTENT_TYPE};
 use hyper::http::request::Parts;
 use hyper::http::Method;
-use hyper::{Body, HeaderMap, Request, Response, StatusCode};
+use hyper::{Body, HeaderMap, Request, Response, StatusCode, Uri};
 use opentelemetry::trace::SpanKind;
 use opentelemetry_semantic_conventions::trace::{HTTP_REQUEST_METHOD, HTTP_ROUTE};
 use prometheus::{Encoder, ProtobufEncoder, TextEncoder, TEXT_FORMAT};
@@ -246,12 +246,28 @@ async fn handle_request_with_cors<T: DeserializeOwned + GraphQLRequestLike>(
     }
 }
 
+/// Drops the prefix of REST API from the URI, keeping its path and query.
+fn rest_uri(uri: &Uri) -> Option<String> {
+    let path = uri.path().strip_prefix(API_URL_PREFIX)?;
+    if !path.is_empty() && !path.starts_with('/') {
+        return None;
+    }
+
+    Some(match uri.query() {
+        Some(query) => format!("/{}?{}", path.trim_start_matches('/'), query),
+        None => format!("/{}", path.trim_start_matches('/')),
+    })
+}
+
 async fn handle_rest_apis(
     mut request: Request<Body>,
     app_ctx: Arc<AppContext>,
     req_counter: &mut RequestCounter,
 ) -> Result<Response<Body>> {
-    *request.uri_mut() = request.uri().path().replace(API_URL_PREFIX, "").parse()?;
+    *request.uri_mut() = match rest_uri(request.uri()) {
+        Some(uri) => uri.parse()?,
+        None => return not_found(),
+    };
     let req_ctx = Arc::new(create_request_context(&request, app_ctx.as_ref()));
     if let Some(p_request) = app_ctx.endpoints.matches(&request) {
         let http_route = format!("{API_URL_PREFIX}{}", p_request.path.as_str());
@@ -290,13 +306,17 @@ async fn handle_request_inner<T: DeserializeOwned + GraphQLRequestLike>(
     app_ctx: Arc<AppContext>,
     req_counter: &mut RequestCounter,
 ) -> Result<Response<Body>> {
-    if req.uri().path().starts_with(API_URL_PREFIX) {
-        return handle_rest_apis(req, app_ctx, req_counter).await;
-    }
-
     let health_check_endpoint = app_ctx.blueprint.server.routes.status();
     let graphql_endpoint = app_ctx.blueprint.server.routes.graphql();
 
+    // the configured routes may have the prefix of REST API as well
+    let is_route = [health_check_endpoint, graphql_endpoint]
+        .iter()
+        .any(|route| *route == req.uri().path());
+    if !is_route && req.uri().path().starts_with(API_URL_PREFIX) {
+        return handle_rest_apis(req, app_ctx, req_counter).await;
+    }
+
     match *req.method() {
         // NOTE:
         // The first check for the route should be for `/graphql`
-- 
2.43.0


From db7bfe4014f1c506cde2e84ef855cf1368279661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:19 +0000
Subject: [PATCH 33/42] generator: private parts visible to harnesses under cfg
 tailcall_symex

---
 src/core/generator/mod.rs | 11 +++++++++++
 src/core/mod.rs           |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/core/generator/mod.rs b/src/core/generator/mod.rs
index b988843..37109f3 100644
--- a/src/core/generator/mod.rs
+++ b/src/core/generator/mod.rs
@@ -10,6 +10,17 @@ pub use generator::{Generator, Input};
 
 use crate::core::counter::{Count, Counter};
 
+/// Private parts made visible to symbolic execution harnesses.
+#[cfg(tailcall_symex)]
+pub mod symex {
+    pub use super::from_proto::from_proto;
+    pub use super::graphql_type::GraphQLType;
+    pub use super::proto::comments_builder::CommentsBuilder;
+    pub use super::proto::connect_rpc::ConnectRPC;
+    pub use super::proto::path_builder::PathBuilder;
+    pub use super::proto::path_field::PathField;
+}
+
 // it's used as prefix to all the names which are auto generated.
 pub const PREFIX: &str = "GEN__";
 
diff --git a/src/core/mod.rs b/src/core/mod.rs
index 30cf669..28e200c 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -65,7 +65,7 @@ pub use wrapping_type::Type;
 #[cfg(tailcall_symex)]
 pub mod symex {
     pub use super::{
-        auth::symex as auth, http::symex as http, ir::symex as ir, jit::symex as jit,
+        auth::symex as auth, generator::symex as generator, http::symex as http, ir::symex as ir, jit::symex as jit,
         rest::symex as rest,
     };
     pub mod transform {
-- 
2.43.0


From 839ac49396f29c6e03ecf880e2eef5ce721ea01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:35 +0000
Subject: [PATCH 34/42] fix: do not describe the elements of a proto file with
 the comments of another

A file without source info got the comments found at the same places of the
file before it.
---
 src/core/generator/from_proto.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/generator/from_proto.rs b/src/core/generator/from_proto.rs
index 0a8b6f5..d25dc3d 100644
--- a/src/core/generator/from_proto.rs
+++ b/src/core/generator/from_proto.rs
@@ -51,8 +51,8 @@ impl Context {
     }
 
     /// Sets source code information for preservation of comments.
-    fn with_source_code_info(mut self, source_code_info: SourceCodeInfo) -> Self {
-        self.comments_builder = CommentsBuilder::new(Some(source_code_info));
+    fn with_source_code_info(mut self, source_code_info: Option<SourceCodeInfo>) -> Self {
+        self.comments_builder = CommentsBuilder::new(source_code_info);
         self
     }
 
@@ -463,9 +463,8 @@ pub fn from_proto(descriptor_sets: &[FileDescriptorSet], query: &str, url: &str)
         for file_descriptor in descriptor_set.file.iter() {
             ctx.namespace = vec![file_descriptor.package().to_string()];
 
-            if let Some(source_code_info) = &file_descriptor.source_code_info {
-                ctx = ctx.with_source_code_info(source_code_info.clone());
-            }
+            // a file without source info has no comments, and not those of another
+            ctx = ctx.with_source_code_info(file_descriptor.source_code_info.clone());
 
             let root_path = PathBuilder::new(&[]);
 
-- 
2.43.0


From 9e265204fcc7aaa9020bf5ffc02501395cd99b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:46 +0000
Subject: [PATCH 35/42] fix: report an @addField without a path instead of
 panicking

---
 src/core/blueprint/definitions.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/blueprint/definitions.rs b/src/core/blueprint/definitions.rs
index a38b498..76459e2 100644
--- a/src/core/blueprint/definitions.rs
+++ b/src/core/blueprint/definitions.rs
@@ -455,10 +455,11 @@ fn to_fields(
     let to_added_field = |add_field: &config::AddField,
                           type_of: &config::Type|
      -> Valid<blueprint::FieldDefinition, BlueprintError> {
+        let source_name = add_field.path.first().cloned().unwrap_or_default();
         let source_field = type_of
             .fields
             .iter()
-            .find(|&(field_name, _)| *field_name == add_field.path[0]);
+            .find(|&(field_name, _)| *field_name == source_name);
         match source_field {
             Some((_, source_field)) => to_field_definition(
                 source_field,
@@ -518,7 +519,7 @@ fn to_fields(
             })
             .trace(config::AddField::trace_name().as_str()),
             None => Valid::fail(BlueprintError::FieldNotFoundInPath(
-                add_field.path[0].clone(),
+                source_name,
                 add_field.path.join(","),
             )),
         }
-- 
2.43.0


From 4a9911e4eabcc80ddc291928893d4a73a5d343d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:46 +0000
Subject: [PATCH 36/42] fix: refuse a field of a declared scalar that nothing
 resolves

---
 src/core/blueprint/schema.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/blueprint/schema.rs b/src/core/blueprint/schema.rs
index 3acf956..9581d67 100644
--- a/src/core/blueprint/schema.rs
+++ b/src/core/blueprint/schema.rs
@@ -53,7 +53,8 @@ pub fn validate_field_has_resolver(
         .when(|| {
             if !field.has_resolver() {
                 let type_name = field.type_of.name();
-                if let Some(ty) = types.get(type_name) {
+                // nested fields can be resolved on their own, but not those of a scalar
+                if let Some(ty) = types.get(type_name).filter(|ty| !ty.scalar()) {
                     let res = validate_type_has_resolvers(type_name, ty, types, visited);
                     return !res.is_succeed();
                 }
-- 
2.43.0


From 595881160e50341eb002b8cbd76062f89069158f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:46 +0000
Subject: [PATCH 37/42] fix: accept values of declared scalars in templates

---
 src/core/blueprint/mustache.rs                | 3 +--
 src/core/blueprint/template_validation/mod.rs | 1 +
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/blueprint/mustache.rs b/src/core/blueprint/mustache.rs
index 1718de2..aa343db 100644
--- a/src/core/blueprint/mustache.rs
+++ b/src/core/blueprint/mustache.rs
@@ -4,7 +4,6 @@ use super::{BlueprintError, FieldDefinition};
 use crate::core::config::{self, Config};
 use crate::core::directive::DirectiveCodec;
 use crate::core::ir::model::{IO, IR};
-use crate::core::scalar;
 
 struct MustachePartsValidator<'a> {
     type_of: &'a config::Type,
@@ -28,7 +27,7 @@ impl<'a> MustachePartsValidator<'a> {
 
             if !is_query && val_type.is_nullable() {
                 return Err(BlueprintError::ValueIsNullableType(item.clone()));
-            } else if len == 1 && !scalar::Scalar::is_predefined(val_type.name()) {
+            } else if len == 1 && !self.config.is_scalar(val_type.name()) {
                 return Err(BlueprintError::ValueIsNotOfScalarType(item.clone()));
             } else if len == 1 {
                 break;
diff --git a/src/core/blueprint/template_validation/mod.rs b/src/core/blueprint/template_validation/mod.rs
index 621ba90..025cb5b 100644
--- a/src/core/blueprint/template_validation/mod.rs
+++ b/src/core/blueprint/template_validation/mod.rs
@@ -15,6 +15,7 @@ fn path_validator<'a>(
     leaf_validator: impl Fn(&str) -> bool,
 ) -> Valid<(), BlueprintError> {
     match config.find_type(type_of) {
+        Some(type_def) if type_def.scalar() => Valid::succeed(()),
         Some(type_def) => match path_iter.next() {
             Some(field) => match type_def.fields.get(field) {
                 Some(field_type) => {
-- 
2.43.0


From ed57c708b14d79ff75704dbfcb80192ec87aa5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:18 +0000
Subject: [PATCH 38/42] fix: select the requested fields for every resolver of
 a merged field

---
 src/core/ir/model.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/ir/model.rs b/src/core/ir/model.rs
index f4fbfdb..72ada68 100644
--- a/src/core/ir/model.rs
+++ b/src/core/ir/model.rs
@@ -149,6 +149,11 @@ impl IR {
                 }
             }
             IR::Map(map) => map.input.modify_io(io_modifier),
+            IR::Merge(irs) => {
+                for ir in irs {
+                    ir.modify_io(io_modifier);
+                }
+            }
             _ => {}
         }
     }
-- 
2.43.0


From 6dea1cd87d9c023bd3bb49016f9f13657333a29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:18 +0000
Subject: [PATCH 39/42] fix: ask a GraphQL upstream with the values of
 variables, and only for the fields it provides

---
 src/core/jit/model.rs                    |   2 +-
 src/core/jit/request.rs                  |   1 -
 src/core/jit/transform/graphql.rs        | 121 ++++++++++++-----------
 src/core/jit/transform/input_resolver.rs |  28 +-----
 src/core/jit/transform/mod.rs            |   1 -
 5 files changed, 68 insertions(+), 85 deletions(-)

diff --git a/src/core/jit/model.rs b/src/core/jit/model.rs
index 798c2aa..4afba2e 100644
--- a/src/core/jit/model.rs
+++ b/src/core/jit/model.rs
@@ -266,7 +266,7 @@ impl<Input> Field<Input> {
                 .into_iter()
                 .map(|f| f.try_map(map))
                 .collect::<Result<Vec<Field<Output>>, Error>>()?,
-            parent_fragment: None,
+            parent_fragment: self.parent_fragment,
             skip: self.skip,
             include: self.include,
             guards: self.guards,
diff --git a/src/core/jit/request.rs b/src/core/jit/request.rs
index f37c4a7..aa0a82f 100644
--- a/src/core/jit/request.rs
+++ b/src/core/jit/request.rs
@@ -50,7 +50,6 @@ impl Request<ConstValue> {
             .pipe(transform::AuthPlanner::new())
             .pipe(transform::CheckDedupe::new())
             .pipe(transform::CheckCache::new())
-            .pipe(transform::GraphQL::new())
             .transform(plan)
             .to_result()
             // both transformers are infallible right now
diff --git a/src/core/jit/transform/graphql.rs b/src/core/jit/transform/graphql.rs
index 64aedae..e513421 100644
--- a/src/core/jit/transform/graphql.rs
+++ b/src/core/jit/transform/graphql.rs
@@ -1,28 +1,18 @@
 use std::borrow::Cow;
 use std::collections::{HashMap, HashSet};
-use std::convert::Infallible;
-use std::fmt::{Debug, Display};
-use std::marker::PhantomData;
-
-use tailcall_valid::Valid;
+use std::fmt::Display;
 
 use crate::core::document::print_directives;
+use crate::core::graphql::Selection;
 use crate::core::helpers::json;
 use crate::core::ir::model::{IO, IR};
-use crate::core::jit::{Field, OperationPlan};
+use crate::core::jit::Field;
 use crate::core::json::JsonLikeOwned;
-use crate::core::{Mustache, Transform};
-
-#[derive(Default)]
-pub struct GraphQL<A>(PhantomData<A>);
-
-impl<A> GraphQL<A> {
-    pub fn new() -> Self {
-        Self(PhantomData)
-    }
-}
 
-fn compute_selection_set<A: Display + Debug + JsonLikeOwned>(
+/// Sets the selection that has to be sent to the upstream on every `@graphQL`
+/// resolver of the plan. Works on resolved inputs because the values of the
+/// variables become a part of the query.
+pub(super) fn compute_selection_set<A: Display + JsonLikeOwned>(
     base_field: &mut [Field<A>],
     interfaces: &HashSet<String>,
 ) {
@@ -35,7 +25,7 @@ fn compute_selection_set<A: Display + Debug + JsonLikeOwned>(
                         interfaces,
                         interfaces.contains(field.type_of.name()),
                     ) {
-                        req_template.selection = Some(Mustache::parse(&v).into());
+                        req_template.selection = Some(Selection::Resolved(v));
                     }
                 }
             });
@@ -44,18 +34,20 @@ fn compute_selection_set<A: Display + Debug + JsonLikeOwned>(
     }
 }
 
-impl<A: Display + Debug + JsonLikeOwned + Clone> Transform for GraphQL<A> {
-    type Value = OperationPlan<A>;
-    type Error = Infallible;
-
-    fn transform(&self, mut plan: Self::Value) -> Valid<Self::Value, Self::Error> {
-        let interfaces = match plan.interfaces {
-            Some(ref interfaces) => interfaces,
-            None => &HashSet::new(),
-        };
-        compute_selection_set(&mut plan.selection, interfaces);
+/// Path to the value of the field inside of its parent or None if there is
+/// another resolver that provides the value
+fn path_in_parent<A>(field: &Field<A>) -> Option<Vec<String>> {
+    fn path(ir: &IR) -> Option<&Vec<String>> {
+        match ir {
+            IR::ContextPath(path) => Some(path),
+            IR::Protect(_, ir) | IR::Discriminate(_, ir) => path(ir),
+            _ => None,
+        }
+    }
 
-        Valid::succeed(plan)
+    match &field.ir {
+        Some(ir) => path(ir).cloned(),
+        None => Some(vec![field.name.to_string()]),
     }
 }
 
@@ -67,36 +59,30 @@ fn format_selection_set<'a, A: 'a + Display + JsonLikeOwned>(
     let mut fragments_fields = HashMap::new();
     let mut normal_fields = vec![];
     let mut is_typename_requested = false;
-    let set = selection_set
-        .filter(|field| !matches!(&field.ir, Some(IR::IO(_)) | Some(IR::Dynamic(_))))
-        .map(|field| {
-            // handle @modify directive scenario.
-            let field_name = if let Some(IR::ContextPath(data)) = &field.ir {
-                data.first().cloned().unwrap_or(field.name.to_string())
-            } else {
-                field.name.to_string()
-            };
-            let is_this_field_interface = interfaces.contains(field.type_of.name());
-            let formatted_selection_fields =
-                format_selection_field(field, &field_name, interfaces, is_this_field_interface);
-            is_typename_requested = is_typename_requested
-                || (field_name == "__typename" && field.parent_fragment.is_none());
-            match &field.parent_fragment {
-                Some(fragment) if is_parent_interface => {
-                    fragments_fields
-                        .entry(fragment.to_owned())
-                        .or_insert_with(Vec::new)
-                        .push(formatted_selection_fields);
-                }
-                _ => {
-                    normal_fields.push(formatted_selection_fields);
-                }
-            }
-        })
-        .collect::<Vec<_>>();
+    let mut selection_set = selection_set.peekable();
+    selection_set.peek()?;
 
-    if set.is_empty() {
-        return None;
+    for field in selection_set {
+        // the value is provided by another resolver
+        let Some(path) = path_in_parent(field) else {
+            continue;
+        };
+        let is_this_field_interface = interfaces.contains(field.type_of.name());
+        let formatted_selection_fields =
+            format_selection_field(field, &path, interfaces, is_this_field_interface);
+        is_typename_requested = is_typename_requested
+            || (field.name == "__typename" && field.parent_fragment.is_none());
+        match &field.parent_fragment {
+            Some(fragment) if is_parent_interface => {
+                fragments_fields
+                    .entry(fragment.to_owned())
+                    .or_insert_with(Vec::new)
+                    .push(formatted_selection_fields);
+            }
+            _ => {
+                normal_fields.push(formatted_selection_fields);
+            }
+        }
     }
 
     let fragments_set: Vec<String> = fragments_fields
@@ -111,12 +97,17 @@ fn format_selection_set<'a, A: 'a + Display + JsonLikeOwned>(
         normal_fields.push("__typename".to_owned());
     }
     normal_fields.extend(fragments_set);
+
+    // none of the fields comes from the upstream, but the object itself does
+    if normal_fields.is_empty() {
+        normal_fields.push("__typename".to_owned());
+    }
     Some(format!("{{ {} }}", normal_fields.join(" ")))
 }
 
 fn format_selection_field<A: Display + JsonLikeOwned>(
     field: &Field<A>,
-    name: &str,
+    path: &[String],
     interfaces: &HashSet<String>,
     is_parent_interface: bool,
 ) -> String {
@@ -124,6 +115,11 @@ fn format_selection_field<A: Display + JsonLikeOwned>(
     let selection_set =
         format_selection_set(field.selection.iter(), interfaces, is_parent_interface);
 
+    // indices of lists are not a part of the query
+    let mut names = path.iter().filter(|name| name.parse::<usize>().is_err());
+    let name = names.next().unwrap_or(&field.name);
+    let nested = names.collect::<Vec<_>>();
+
     let mut output = format!("{}{}", name, arguments);
 
     if !field.directives.is_empty() {
@@ -135,11 +131,18 @@ fn format_selection_field<A: Display + JsonLikeOwned>(
         }
     }
 
+    for name in &nested {
+        output.push_str(" { ");
+        output.push_str(name);
+    }
+
     if let Some(selection_set) = selection_set {
         output.push(' ');
         output.push_str(&selection_set);
     }
 
+    output.push_str(&" }".repeat(nested.len()));
+
     output
 }
 
diff --git a/src/core/jit/transform/input_resolver.rs b/src/core/jit/transform/input_resolver.rs
index 877cf59..505eb84 100644
--- a/src/core/jit/transform/input_resolver.rs
+++ b/src/core/jit/transform/input_resolver.rs
@@ -3,8 +3,8 @@ use std::fmt::Display;
 use async_graphql_value::{ConstValue, Value};
 
 use super::super::{Arg, Field, OperationPlan, ResolveInputError, Variables};
+use super::graphql::compute_selection_set;
 use crate::core::blueprint::Index;
-use crate::core::ir::model::IO;
 use crate::core::json::{JsonLikeOwned, JsonObjectLike};
 use crate::core::Type;
 
@@ -71,9 +71,10 @@ where
             .map(|field| Self::resolve_field(&index, field?))
             .collect::<Result<Vec<_>, _>>()?;
 
-        // adjust the pre-computed values in selection set like graphql query for
-        // @graphql directive.
-        Self::resolve_graphql_selection_set(&mut selection, variables);
+        // compute the selection sets of the queries for the @graphQL directive now
+        // when all of the values are known.
+        let interfaces = self.plan.interfaces.unwrap_or_default();
+        compute_selection_set(&mut selection, &interfaces);
 
         Ok(OperationPlan {
             root_name: self.plan.root_name.to_string(),
@@ -91,25 +92,6 @@ where
         })
     }
 
-    // resolves the variables in selection set mustache template for graphql query.
-    fn resolve_graphql_selection_set(
-        base_field: &mut [Field<Output>],
-        variables: &Variables<Output>,
-    ) {
-        for field in base_field.iter_mut() {
-            if let Some(ir) = field.ir.as_mut() {
-                ir.modify_io(&mut |io| {
-                    if let IO::GraphQL { req_template, .. } = io {
-                        if let Some(selection) = req_template.selection.take() {
-                            req_template.selection = Some(selection.resolve(variables));
-                        }
-                    }
-                });
-            }
-            Self::resolve_graphql_selection_set(field.selection.as_mut(), variables);
-        }
-    }
-
     fn resolve_field(
         index: &Index,
         field: Field<Output>,
diff --git a/src/core/jit/transform/mod.rs b/src/core/jit/transform/mod.rs
index c3cd01c..ab90a6e 100644
--- a/src/core/jit/transform/mod.rs
+++ b/src/core/jit/transform/mod.rs
@@ -12,6 +12,5 @@ pub use check_cache::*;
 pub use check_const::*;
 pub use check_dedupe::*;
 pub use check_protected::*;
-pub use graphql::*;
 pub use input_resolver::*;
 pub use skip::*;
-- 
2.43.0


From 7b487793352cefb6d9443208eeed269d2e900c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:25 +0000
Subject: [PATCH 40/42] hook: make the JavaScript glue visible to symbolic
 execution harnesses (cfg tailcall_symex)

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a32ab95..405f034 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4,3 +4,9 @@ pub mod core;
 
 #[cfg(feature = "cli")]
 pub mod cli;
+
+/// The parts of the CLI that symbolic execution harnesses reach.
+#[cfg(all(tailcall_symex, not(feature = "cli")))]
+pub mod cli {
+    pub mod javascript;
+}
-- 
2.43.0


From cb132a97b7d2f4a5028d76909c0c58e90e696011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:25 +0000
Subject: [PATCH 41/42] fix: escape the query of a request that a script
 returns

---
 src/core/worker/worker.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/core/worker/worker.rs b/src/core/worker/worker.rs
index 9b9ddd1..856466a 100644
--- a/src/core/worker/worker.rs
+++ b/src/core/worker/worker.rs
@@ -128,12 +128,9 @@ impl Display for Uri {
             _ => "http",
         };
         let path = self.path.as_str();
-        let query = self
-            .query
-            .iter()
-            .map(|(k, v)| format!("{}={}", k, v))
-            .collect::<Vec<String>>()
-            .join("&");
+        let query = url::form_urlencoded::Serializer::new(String::new())
+            .extend_pairs(&self.query)
+            .finish();
 
         write!(f, "{}://{}{}{}", scheme, host, port, path)?;
 
-- 
2.43.0


From e1658ad51127e959e07a3d52992dd8a93279742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:25 +0000
Subject: [PATCH 42/42] fix: hand the response body to onResponseBody once
 after redirects

---
 src/core/ir/eval_http.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/ir/eval_http.rs b/src/core/ir/eval_http.rs
index d863472..6b1fc27 100644
--- a/src/core/ir/eval_http.rs
+++ b/src/core/ir/eval_http.rs
@@ -126,7 +126,8 @@ impl<'a, 'ctx, Context: ResolverContextLike + Sync> EvalHttp<'a, 'ctx, Context>
                             .request_mut()
                             .url_mut()
                             .set_path(w_response.headers()["location"].as_str());
-                        self.execute_with_worker(request, worker_ctx).await
+                        // the response is handed to on_response there
+                        return self.execute_with_worker(request, worker_ctx).await;
                     } else {
                         Ok(w_response.try_into()?)
                     }
-- 
2.43.0

