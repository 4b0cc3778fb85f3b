From b906f068fdc667d1a094e00cd46c37fb96f10df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:16 +0000
Subject: [PATCH 1/8] fix: NonEmptyVec::default() is not empty

The derived Default built an empty list, which breaks the type's invariant and
serializes to an empty array that the type itself refuses to read back.
---
 src/utils.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 2e34d0d..4a26feb 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -2,7 +2,7 @@ use anyhow::{bail, Error};
 use serde::{Deserialize, Serialize};
 use std::ops::Deref;
 
-#[derive(Debug, Clone, Default, Deserialize, PartialEq, Eq)]
+#[derive(Debug, Clone, Deserialize, PartialEq, Eq)]
 #[serde(try_from = "Vec<T>")]
 pub struct NonEmptyVec<T>(Vec<T>);
 
@@ -24,6 +24,12 @@ impl<T> NonEmptyVec<T> {
     }
 }
 
+impl<T: Default> Default for NonEmptyVec<T> {
+    fn default() -> Self {
+        Self::new(T::default())
+    }
+}
+
 impl<T> TryFrom<Vec<T>> for NonEmptyVec<T> {
     type Error = Error;
 
-- 
2.43.0


From 38f7dc418408365f27b6f6d2d32642bc0fd9965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:16 +0000
Subject: [PATCH 2/8] fix: x509 clients refuse an empty certificate chain
 instead of panicking

---
 src/verifier/client.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/verifier/client.rs b/src/verifier/client.rs
index f97b3f6..fb00bb3 100644
--- a/src/verifier/client.rs
+++ b/src/verifier/client.rs
@@ -88,7 +88,9 @@ impl X509SanDnsClient {
         x5c: Vec<Certificate>,
         signer: Arc<dyn RequestSigner<Error = anyhow::Error> + Send + Sync>,
     ) -> Result<Self> {
-        let leaf = &x5c[0];
+        let leaf = x5c
+            .first()
+            .context("x509 certificate chain does not contain a leaf certificate")?;
         let id = if let Some(san) = leaf
             .tbs_certificate
             .filter::<SubjectAltName>()
@@ -138,7 +140,9 @@ impl X509HashClient {
         x5c: Vec<Certificate>,
         signer: Arc<dyn RequestSigner<Error = anyhow::Error> + Send + Sync>,
     ) -> Result<Self> {
-        let leaf = &x5c[0];
+        let leaf = x5c
+            .first()
+            .context("x509 certificate chain does not contain a leaf certificate")?;
         let leaf_der = leaf
             .to_der()
             .context("failed to DER-encode leaf certificate")?;
-- 
2.43.0


From 9be0d915683d5ef4e384a9a35bc968b369bedcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:16 +0000
Subject: [PATCH 3/8] fix: errors of a request signer are propagated

make_jwt used RequestSigner::sign, which cannot fail, so that a signer that
overrides try_sign to report its errors had no way to stop the request object
from being assembled and handed out.
---
 src/verifier/client.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/verifier/client.rs b/src/verifier/client.rs
index fb00bb3..d8a7784 100644
--- a/src/verifier/client.rs
+++ b/src/verifier/client.rs
@@ -1,6 +1,6 @@
 use std::{fmt::Debug, sync::Arc};
 
-use anyhow::{bail, Context as _, Result};
+use anyhow::{anyhow, bail, Context as _, Result};
 use async_trait::async_trait;
 use base64::prelude::*;
 use serde_json::{json, Value as Json};
@@ -251,7 +251,7 @@ impl Client for X509HashClient {
     }
 }
 
-async fn make_jwt<S: RequestSigner + ?Sized>(
+async fn make_jwt<S: RequestSigner + Sync + ?Sized>(
     header: Json,
     body: &AuthorizationRequestObject,
     signer: &S,
@@ -260,7 +260,10 @@ async fn make_jwt<S: RequestSigner + ?Sized>(
         serde_json::to_vec(&header).map(|b| BASE64_URL_SAFE_NO_PAD.encode(b))?;
     let body_b64 = serde_json::to_vec(body).map(|b| BASE64_URL_SAFE_NO_PAD.encode(b))?;
     let payload = [header_b64.as_bytes(), b".", body_b64.as_bytes()].concat();
-    let signature = signer.sign(&payload).await;
+    let signature = signer
+        .try_sign(&payload)
+        .await
+        .map_err(|e| anyhow!("failed to sign the request object: {e}"))?;
     let signature_b64 = BASE64_URL_SAFE_NO_PAD.encode(signature);
     Ok(format!("{header_b64}.{body_b64}.{signature_b64}"))
 }
-- 
2.43.0


From 3c32f4a6865286eea0939848bdcc2a5c2e86d43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:16 +0000
Subject: [PATCH 4/8] fix: MemoryStore waits for its lock instead of failing

Overlapping operations on a shared MemoryStore failed with a lock error although
nothing was wrong with them; in particular the outcome of a verified response
was lost when a poll happened at the same time.
---
 src/verifier/session.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/verifier/session.rs b/src/verifier/session.rs
index a069450..af4e0b2 100644
--- a/src/verifier/session.rs
+++ b/src/verifier/session.rs
@@ -46,13 +46,13 @@ pub struct MemoryStore {
 #[async_trait]
 impl SessionStore for MemoryStore {
     async fn initiate(&self, session: Session) -> Result<()> {
-        self.store.try_lock()?.insert(session.uuid, session);
+        self.store.lock().await.insert(session.uuid, session);
 
         Ok(())
     }
 
     async fn update_status(&self, uuid: Uuid, status: Status) -> Result<()> {
-        if let Some(session) = self.store.try_lock()?.get_mut(&uuid) {
+        if let Some(session) = self.store.lock().await.get_mut(&uuid) {
             session.status = status;
             return Ok(());
         }
@@ -60,7 +60,7 @@ impl SessionStore for MemoryStore {
     }
 
     async fn get_session(&self, uuid: Uuid) -> Result<Session> {
-        if let Some(session) = self.store.try_lock()?.get(&uuid) {
+        if let Some(session) = self.store.lock().await.get(&uuid) {
             return Ok(session.clone());
         }
 
@@ -68,7 +68,7 @@ impl SessionStore for MemoryStore {
     }
 
     async fn remove_session(&self, uuid: Uuid) -> Result<()> {
-        if self.store.try_lock()?.remove(&uuid).is_some() {
+        if self.store.lock().await.remove(&uuid).is_some() {
             return Ok(());
         }
 
-- 
2.43.0


From 31c85d764105d48e02fe9371a62709f8d0ab5b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:30 +0000
Subject: [PATCH 5/8] fix: retrieving a request never moves its session
 backwards

retrieve_authorization_request read the session and then set its status in two
separate store accesses; when a response was verified in between, the session
went from complete back to sent and the outcome was lost.  The session store
now offers advance_status, which MemoryStore performs atomically.
---
 src/verifier/mod.rs     | 10 ++--------
 src/verifier/session.rs | 23 +++++++++++++++++++++++
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/verifier/mod.rs b/src/verifier/mod.rs
index 3e5ac29..6277d47 100644
--- a/src/verifier/mod.rs
+++ b/src/verifier/mod.rs
@@ -79,15 +79,9 @@ impl Verifier {
     pub async fn retrieve_authorization_request(&self, reference: Uuid) -> Result<String> {
         let session = self
             .session_store
-            .get_session(reference)
+            .advance_status(reference, Status::SentRequest)
             .await
-            .context("failed to retrieve session")?;
-        if session.status < Status::SentRequest {
-            self.session_store
-                .update_status(reference, Status::SentRequest)
-                .await
-                .context("failed to update session status")?;
-        }
+            .context("failed to retrieve session or update its status")?;
         Ok(session.authorization_request_jwt)
     }
 
diff --git a/src/verifier/session.rs b/src/verifier/session.rs
index af4e0b2..3a90633 100644
--- a/src/verifier/session.rs
+++ b/src/verifier/session.rs
@@ -26,6 +26,19 @@ pub trait SessionStore: Debug {
     /// Update the status of a session.
     async fn update_status(&self, uuid: Uuid, status: Status) -> Result<()>;
 
+    /// Move a session forward to `status`, unless it already got at least that far, and return
+    /// the session.
+    ///
+    /// The default implementation is not atomic. Override it if sessions can be updated
+    /// concurrently, so that a session can not be moved backwards.
+    async fn advance_status(&self, uuid: Uuid, status: Status) -> Result<Session> {
+        let session = self.get_session(uuid).await?;
+        if session.status < status {
+            self.update_status(uuid, status).await?;
+        }
+        Ok(session)
+    }
+
     /// Get a session from the store.
     async fn get_session(&self, uuid: Uuid) -> Result<Session>;
 
@@ -59,6 +72,16 @@ impl SessionStore for MemoryStore {
         bail!("session not found")
     }
 
+    async fn advance_status(&self, uuid: Uuid, status: Status) -> Result<Session> {
+        if let Some(session) = self.store.lock().await.get_mut(&uuid) {
+            if session.status < status {
+                session.status = status;
+            }
+            return Ok(session.clone());
+        }
+        bail!("session not found")
+    }
+
     async fn get_session(&self, uuid: Uuid) -> Result<Session> {
         if let Some(session) = self.store.lock().await.get(&uuid) {
             return Ok(session.clone());
-- 
2.43.0


From de6a931a9cd329ef7998839f6f18a5f333329133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:11 +0000
Subject: [PATCH 6/8] fix: numbers in a vp_token are not taken for JSON
 presentations

---
 src/core/response/parameters.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/core/response/parameters.rs b/src/core/response/parameters.rs
index f0c6eea..7339ed7 100644
--- a/src/core/response/parameters.rs
+++ b/src/core/response/parameters.rs
@@ -2,7 +2,7 @@ pub use crate::core::authorization_request::parameters::State;
 use crate::core::object::TypedParameter;
 
 use anyhow::Error;
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize};
 use serde_json::Value as Json;
 use ssi::{
     claims::vc::{self, v2::SpecializedJsonCredential},
@@ -126,13 +126,27 @@ impl From<VpToken> for Json {
     }
 }
 
-#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
+#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize)]
 #[serde(untagged)]
 pub enum VpTokenItem {
     String(String),
     JsonObject(serde_json::Map<String, serde_json::Value>),
 }
 
+// Not derived: with `serde_json/arbitrary_precision` (which `ssi` enables), an untagged enum
+// takes a number such as `0.5` for a JSON object.
+impl<'de> Deserialize<'de> for VpTokenItem {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        match Json::deserialize(deserializer)? {
+            Json::String(string) => Ok(Self::String(string)),
+            Json::Object(object) => Ok(Self::JsonObject(object)),
+            _ => Err(serde::de::Error::custom(
+                "expected a presentation to be a string or an object",
+            )),
+        }
+    }
+}
+
 impl From<String> for VpTokenItem {
     fn from(value: String) -> Self {
         Self::String(value)
-- 
2.43.0


From 8368dc5aa3a730e43750daf9b007348ec1a9fb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:02 +0000
Subject: [PATCH 7/8] fix: JWK thumbprints escape the members they hash

---
 src/core/iso_18013_7/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/iso_18013_7/mod.rs b/src/core/iso_18013_7/mod.rs
index 964fa52..26e3254 100644
--- a/src/core/iso_18013_7/mod.rs
+++ b/src/core/iso_18013_7/mod.rs
@@ -447,7 +447,7 @@ pub fn compute_jwk_thumbprint(jwk: &serde_json::Value) -> Result<[u8; 32]> {
                 .context("EC JWK missing 'y'")?;
 
             // RFC 7638 §3.2: For EC keys, use crv, kty, x, y in lexicographic order
-            format!(r#"{{"crv":"{}","kty":"EC","x":"{}","y":"{}"}}"#, crv, x, y)
+            serde_json::json!({"crv": crv, "kty": "EC", "x": x, "y": y}).to_string()
         }
         "RSA" => {
             let e = jwk
@@ -460,7 +460,7 @@ pub fn compute_jwk_thumbprint(jwk: &serde_json::Value) -> Result<[u8; 32]> {
                 .context("RSA JWK missing 'n'")?;
 
             // RFC 7638 §3.2: For RSA keys, use e, kty, n in lexicographic order
-            format!(r#"{{"e":"{}","kty":"RSA","n":"{}"}}"#, e, n)
+            serde_json::json!({"e": e, "kty": "RSA", "n": n}).to_string()
         }
         _ => anyhow::bail!("unsupported key type for JWK thumbprint: {}", kty),
     };
-- 
2.43.0


From d063aa4d7944c8300da7d27051c587ce9019fda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:58 +0000
Subject: [PATCH 8/8] fix: only the algorithm 'none' itself exempts a DID
 request from its signature

The exemption applied to any algorithm name containing 'none' that the
wallet lists, such as 'nonesuch', so that such a request was accepted
whatever its key identifier and signature.
---
 src/core/authorization_request/verification/did.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/authorization_request/verification/did.rs b/src/core/authorization_request/verification/did.rs
index f901785..9616fdd 100644
--- a/src/core/authorization_request/verification/did.rs
+++ b/src/core/authorization_request/verification/did.rs
@@ -45,7 +45,7 @@ pub async fn verify_with_resolver(
     // so that trust is preserved when receiving unencoded requests
     // NOTE: This requires that `Algorithm::None` is permitted in the wallet metadata
     // Otherwise, this function will error in the previous assertion.
-    if alg.contains("none") {
+    if alg == "none" {
         return Ok(());
     }
 
-- 
2.43.0

