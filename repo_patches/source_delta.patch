From 684ee6b15a4948ab731303c77ce441486b2549bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 01/16] fix: reject from_prior tokens signed by a key of
 another DID than their issuer

---
 src/message/from_prior/unpack.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/message/from_prior/unpack.rs b/src/message/from_prior/unpack.rs
index 8d80fdc..ed06f1c 100644
--- a/src/message/from_prior/unpack.rs
+++ b/src/message/from_prior/unpack.rs
@@ -135,6 +135,13 @@ impl FromPrior {
         let from_prior: FromPrior = serde_json::from_str(&payload)
             .kind(ErrorKind::Malformed, "Unable to parse from_prior")?;
 
+        if from_prior.iss != did {
+            Err(err_msg(
+                ErrorKind::Malformed,
+                "from_prior is not signed by a key of its issuer",
+            ))?
+        }
+
         Ok((from_prior, kid.into()))
     }
 }
-- 
2.43.0


From 421fd0ee57ff51466194c1e84e6174102c81c5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 02/16] fix: wrap_in_forward no longer panics when there are no
 routing keys

---
 src/protocols/routing/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/protocols/routing/mod.rs b/src/protocols/routing/mod.rs
index 7137c6b..f2b19ef 100644
--- a/src/protocols/routing/mod.rs
+++ b/src/protocols/routing/mod.rs
@@ -247,8 +247,7 @@ pub async fn wrap_in_forward<'dr>(
 ) -> Result<String> {
     let mut tos = routing_keys.clone();
 
-    let mut nexts = tos.clone();
-    nexts.remove(0);
+    let mut nexts = tos.iter().skip(1).cloned().collect::<Vec<_>>();
     nexts.push(to.to_owned());
 
     tos.reverse();
-- 
2.43.0


From 33512c8b615628632d74e2de0558df7ba9690c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 03/16] fix: too short Ed25519 Base58 and Multibase secrets are
 an error instead of a panic

---
 src/utils/did.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/utils/did.rs b/src/utils/did.rs
index 72045b1..60569e2 100644
--- a/src/utils/did.rs
+++ b/src/utils/did.rs
@@ -366,6 +366,12 @@ impl AsKnownKeyPair for Secret {
                     .to_didcomm("Wrong base58 value in secret material")?;
 
                 let curve25519_point_size = 32;
+                if decoded_value.len() < curve25519_point_size {
+                    Err(err_msg(
+                        ErrorKind::Malformed,
+                        "Ed25519 secret material is too short",
+                    ))?
+                }
                 let (d_value, x_value) = decoded_value.split_at(curve25519_point_size);
                 let base64_url_d_value = base64::encode_config(&d_value, base64::URL_SAFE_NO_PAD);
                 let base64_url_x_value = base64::encode_config(&x_value, base64::URL_SAFE_NO_PAD);
@@ -456,6 +462,12 @@ impl AsKnownKeyPair for Secret {
                 }
 
                 let curve25519_point_size = 32;
+                if decoded_value.len() < curve25519_point_size {
+                    Err(err_msg(
+                        ErrorKind::Malformed,
+                        "Ed25519 secret material is too short",
+                    ))?
+                }
                 let (d_value, x_value) = decoded_value.split_at(curve25519_point_size);
                 let base64_url_d_value = base64::encode_config(&d_value, base64::URL_SAFE_NO_PAD);
                 let base64_url_x_value = base64::encode_config(&x_value, base64::URL_SAFE_NO_PAD);
-- 
2.43.0


From af98d0dabb8703d44a7ae9ee8b9246ad167929df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 04/16] fix: keep the kind of a DID resolver error when
 resolving an authcrypt sender

---
 src/message/unpack/authcrypt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message/unpack/authcrypt.rs b/src/message/unpack/authcrypt.rs
index 9d6bd1b..4074e6e 100644
--- a/src/message/unpack/authcrypt.rs
+++ b/src/message/unpack/authcrypt.rs
@@ -11,7 +11,7 @@ use crate::jwe::envelope::JWE;
 use crate::{
     algorithms::AuthCryptAlg,
     did::DIDResolver,
-    error::{err_msg, ErrorKind, Result, ResultExt},
+    error::{err_msg, ErrorKind, Result, ResultContext, ResultExt},
     jwe,
     secrets::SecretsResolver,
     utils::{
@@ -63,7 +63,7 @@ pub(crate) async fn _try_unpack_authcrypt<'dr, 'sr>(
     let from_ddoc = did_resolver
         .resolve(from_did)
         .await
-        .kind(ErrorKind::InvalidState, "Unable resolve sender did")?
+        .context("Unable resolve sender did")?
         .ok_or_else(|| err_msg(ErrorKind::DIDNotResolved, "Sender did not found"))?;
 
     let from_kid = from_ddoc
-- 
2.43.0


From a08039b921fe531e478be63bed81df2d4bde31b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 05/16] fix: uniffi resolver adapters keep the kind of the
 error a callback reports

---
 uniffi/src/did/did_resolver_adapter.rs         | 4 ++--
 uniffi/src/secrets/secrets_resolver_adapter.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/uniffi/src/did/did_resolver_adapter.rs b/uniffi/src/did/did_resolver_adapter.rs
index ae23846..2ac6667 100644
--- a/uniffi/src/did/did_resolver_adapter.rs
+++ b/uniffi/src/did/did_resolver_adapter.rs
@@ -2,7 +2,7 @@ use std::sync::Arc;
 
 use didcomm_core::{
     did::{DIDDoc, DIDResolver as _DIDResolver},
-    error::{ErrorKind, Result, ResultExt},
+    error::{Result, ResultContext},
 };
 
 use async_trait::async_trait;
@@ -29,7 +29,7 @@ impl _DIDResolver for DIDResolverAdapter {
         let res = receiver
             .get()
             .await
-            .kind(ErrorKind::InvalidState, "can not resolve DID Doc")?;
+            .context("can not resolve DID Doc")?;
         Ok(res)
     }
 }
diff --git a/uniffi/src/secrets/secrets_resolver_adapter.rs b/uniffi/src/secrets/secrets_resolver_adapter.rs
index 03a38c5..05b4fe8 100644
--- a/uniffi/src/secrets/secrets_resolver_adapter.rs
+++ b/uniffi/src/secrets/secrets_resolver_adapter.rs
@@ -1,7 +1,7 @@
 use std::sync::Arc;
 
 use async_trait::async_trait;
-use didcomm_core::error::{ErrorKind, Result, ResultExt};
+use didcomm_core::error::{Result, ResultContext};
 use didcomm_core::secrets::{Secret, SecretsResolver as _SecretsResolver};
 
 use crate::secrets_resolver::{OnFindSecretsResult, OnGetSecretResult};
@@ -29,7 +29,7 @@ impl _SecretsResolver for SecretsResolverAdapter {
         let res = receiver
             .get()
             .await
-            .kind(ErrorKind::InvalidState, "can not get secret")?;
+            .context("can not get secret")?;
         Ok(res)
     }
 
@@ -42,7 +42,7 @@ impl _SecretsResolver for SecretsResolverAdapter {
         let res = receiver
             .get()
             .await
-            .kind(ErrorKind::InvalidState, "can not get secret")?;
+            .context("can not get secret")?;
 
         Ok(secret_ids
             .iter()
-- 
2.43.0


From 762fbf084fd862bfb5d361c28e23c49bcc67602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 06/16] fix: truncated JSON is malformed input, not an invalid
 state

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 27d5f02..b2294de 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -168,7 +168,7 @@ impl<T> ToResult<T> for bs58::encode::Result<T> {
 impl From<serde_json::Error> for Error {
     fn from(err: serde_json::Error) -> Self {
         match err.classify() {
-            Category::Io | Category::Eof => Error::msg(ErrorKind::InvalidState, err.to_string()),
+            Category::Io => Error::msg(ErrorKind::InvalidState, err.to_string()),
             _ => Error::msg(ErrorKind::Malformed, err.to_string()),
         }
     }
-- 
2.43.0


From 885d9b4068f6728c82c87336567b56145eb74317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 07/16] fix: reject overlong multicodec prefix instead of
 panicking

The varint reader shifts by 7 bits per continuation byte without a limit, so
a multibase key starting with more than five continuation bytes overflows the
shift (a panic where overflow checks are on, a wrong prefix where they are off).
---
 src/utils/did.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utils/did.rs b/src/utils/did.rs
index 60569e2..f266ade 100644
--- a/src/utils/did.rs
+++ b/src/utils/did.rs
@@ -516,6 +516,14 @@ impl Codec {
 }
 
 fn _from_multicodec(value: &Vec<u8>) -> Result<(Codec, &[u8])> {
+    // A 32-bit varint takes at most 5 bytes
+    if value.iter().take_while(|b| **b & 0x80 != 0).count() >= 5 {
+        Err(err_msg(
+            ErrorKind::Malformed,
+            "Multicodec prefix is too long",
+        ))?
+    }
+
     let mut val: Cursor<Vec<u8>> = Cursor::new(value.clone());
     let prefix_int = val
         .read_unsigned_varint_32()
-- 
2.43.0


From 9192691ea58e5b989fe3b6b118b66f37ffa3d1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 08/16] fix: cut the multicodec prefix where it was read to

A prefix written with padding (ec 81 00 for ec 01) was measured by its
canonical length, so its last byte became the first byte of the key and a
31-byte value passed as a key nobody holds.
---
 src/utils/did.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/utils/did.rs b/src/utils/did.rs
index f266ade..f4add58 100644
--- a/src/utils/did.rs
+++ b/src/utils/did.rs
@@ -4,7 +4,7 @@ use askar_crypto::alg::{
 use askar_crypto::repr::{KeyPublicBytes, KeySecretBytes};
 use serde_json::{json, Value};
 use std::io::Cursor;
-use varint::{VarintRead, VarintWrite};
+use varint::VarintRead;
 
 use crate::error::ToResult;
 use crate::{
@@ -530,12 +530,7 @@ fn _from_multicodec(value: &Vec<u8>) -> Result<(Codec, &[u8])> {
         .kind(ErrorKind::InvalidState, "Cannot read varint")?;
     let codec = Codec::codec_by_prefix(prefix_int)?;
 
-    let mut prefix: Cursor<Vec<u8>> = Cursor::new(Vec::new());
-    prefix
-        .write_unsigned_varint_32(prefix_int)
-        .kind(ErrorKind::InvalidState, "Cannot write varint")?;
-
-    return Ok((codec, value.split_at(prefix.into_inner().len()).1));
+    return Ok((codec, value.split_at(val.position() as usize).1));
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6cabcc18e84ea6563da1a237de9ec9e888ecc937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:54 +0000
Subject: [PATCH 09/16] fix: a signature whose algorithm does not fit the
 signer's key is malformed

Unpacking a signed message or from_prior token whose header names an algorithm
of another key type than the signer's key was reported as InvalidState, which
stands for a bug in the library, although the sender caused it.
---
 src/utils/crypto.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/utils/crypto.rs b/src/utils/crypto.rs
index 364d105..a3f9f8b 100644
--- a/src/utils/crypto.rs
+++ b/src/utils/crypto.rs
@@ -12,7 +12,7 @@ use askar_crypto::{
     repr::{KeySecretBytes, ToSecretBytes},
 };
 
-use crate::error::{err_msg, ErrorKind, Result, ResultExt};
+use crate::error::{err_msg, Error, ErrorKind, Result, ResultExt};
 
 /// Note this trait is compatible with KW algorithms only
 pub(crate) trait KeyWrap: KeyAeadInPlace {
@@ -129,13 +129,22 @@ pub(crate) enum KnownKeyPair {
     K256(K256KeyPair),
 }
 
+fn unexpected_key_alg(alg: KnownKeyAlg) -> Error {
+    let kind = match alg {
+        KnownKeyAlg::Unsupported => ErrorKind::Unsupported,
+        _ => ErrorKind::Malformed,
+    };
+
+    err_msg(kind, "Unexpected key alg")
+}
+
 pub(crate) trait AsKnownKeyPair {
     fn key_alg(&self) -> KnownKeyAlg;
     fn as_key_pair(&self) -> Result<KnownKeyPair>;
 
     fn as_ed25519(&self) -> Result<Ed25519KeyPair> {
         if self.key_alg() != KnownKeyAlg::Ed25519 {
-            Err(err_msg(ErrorKind::InvalidState, "Unexpected key alg"))?
+            Err(unexpected_key_alg(self.key_alg()))?
         }
 
         match self.as_key_pair()? {
@@ -146,7 +155,7 @@ pub(crate) trait AsKnownKeyPair {
 
     fn as_x25519(&self) -> Result<X25519KeyPair> {
         if self.key_alg() != KnownKeyAlg::X25519 {
-            Err(err_msg(ErrorKind::InvalidState, "Unexpected key alg"))?
+            Err(unexpected_key_alg(self.key_alg()))?
         }
 
         match self.as_key_pair()? {
@@ -157,7 +166,7 @@ pub(crate) trait AsKnownKeyPair {
 
     fn as_p256(&self) -> Result<P256KeyPair> {
         if self.key_alg() != KnownKeyAlg::P256 {
-            Err(err_msg(ErrorKind::InvalidState, "Unexpected key alg"))?
+            Err(unexpected_key_alg(self.key_alg()))?
         }
 
         match self.as_key_pair()? {
@@ -168,7 +177,7 @@ pub(crate) trait AsKnownKeyPair {
 
     fn as_k256(&self) -> Result<K256KeyPair> {
         if self.key_alg() != KnownKeyAlg::K256 {
-            Err(err_msg(ErrorKind::InvalidState, "Unexpected key alg"))?
+            Err(unexpected_key_alg(self.key_alg()))?
         }
 
         match self.as_key_pair()? {
-- 
2.43.0


From 258289ee556ba13a69ad77d3bd46d6bffbdbad06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:16 +0000
Subject: [PATCH 10/16] fix: an anoncrypted envelope that names a sender is
 malformed

It was refused by the JWE decryption as InvalidState, which stands for a bug in
the library, although the sender of the envelope caused it.
---
 src/message/unpack/anoncrypt.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/message/unpack/anoncrypt.rs b/src/message/unpack/anoncrypt.rs
index 4ae804a..d53b2f5 100644
--- a/src/message/unpack/anoncrypt.rs
+++ b/src/message/unpack/anoncrypt.rs
@@ -41,6 +41,10 @@ pub(crate) async fn _try_unpack_anoncrypt<'sr>(
 
     let parsed_jwe = parsed_jwe.verify_didcomm()?;
 
+    if parsed_jwe.apu.is_some() {
+        Err(err_msg(ErrorKind::Malformed, "Sender in anoncrypt"))?
+    }
+
     let to_kids: Vec<_> = parsed_jwe
         .jwe
         .recipients
-- 
2.43.0


From 7f56e9d25385dff6c7fee1deea713e7cd0859ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:49 +0000
Subject: [PATCH 11/16] fix: keep the kind of a SecretNotFound error thrown by
 a JavaScript resolver

---
 wasm/src/error.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wasm/src/error.rs b/wasm/src/error.rs
index 6453dcf..5e963f6 100644
--- a/wasm/src/error.rs
+++ b/wasm/src/error.rs
@@ -56,6 +56,7 @@ impl<T> FromJsResult<T> for Result<T, JsValue> {
                     Some("DIDCommNoCompatibleCrypto") => _ErrorKind::NoCompatibleCrypto,
                     Some("DIDCommUnsupported") => _ErrorKind::Unsupported,
                     Some("DIDCommIllegalArgument") => _ErrorKind::IllegalArgument,
+                    Some("DIDCommSecretNotFound") => _ErrorKind::SecretNotFound,
                     _ => _ErrorKind::InvalidState,
                 };
 
-- 
2.43.0


From 2b3dcea5c022721632ad7944727208419097900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 12/16] fix: declare routingKeys in TypeScript under the name
 that is read

---
 wasm/src/did/did_doc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasm/src/did/did_doc.rs b/wasm/src/did/did_doc.rs
index e140534..0f8c97c 100644
--- a/wasm/src/did/did_doc.rs
+++ b/wasm/src/did/did_doc.rs
@@ -88,6 +88,6 @@ const DIDCOMM_MESSAGING_SERVICE_TS: &'static str = r#"
 type DIDCommMessagingService = {
     uri: string,
     accept?: Array<string>,
-    routing_keys: Array<string>,
+    routingKeys: Array<string>,
 }
 "#;
-- 
2.43.0


From f6aa89a41ca2e41f608e3f6e851490eab10dcdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:04 +0000
Subject: [PATCH 13/16] fix: read verification methods and secrets of other
 types as Other

---
 src/did/did_doc.rs | 1 +
 src/secrets/mod.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/did/did_doc.rs b/src/did/did_doc.rs
index 5e6249e..5753692 100644
--- a/src/did/did_doc.rs
+++ b/src/did/did_doc.rs
@@ -47,6 +47,7 @@ pub enum VerificationMethodType {
     EcdsaSecp256k1VerificationKey2019,
     X25519KeyAgreementKey2020,
     Ed25519VerificationKey2020,
+    #[serde(other)]
     Other,
 }
 
diff --git a/src/secrets/mod.rs b/src/secrets/mod.rs
index 20393ec..e7cdc8b 100644
--- a/src/secrets/mod.rs
+++ b/src/secrets/mod.rs
@@ -90,6 +90,7 @@ pub enum SecretType {
     Ed25519VerificationKey2018,
     Ed25519VerificationKey2020,
     EcdsaSecp256k1VerificationKey2019,
+    #[serde(other)]
     Other,
 }
 
-- 
2.43.0


From 0a5eb6dfec66bf083b40bdbadadd58c49644cd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:46 +0000
Subject: [PATCH 14/16] fix: read services of any type in DID documents

---
 src/did/did_doc.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/did/did_doc.rs b/src/did/did_doc.rs
index 5753692..733a555 100644
--- a/src/did/did_doc.rs
+++ b/src/did/did_doc.rs
@@ -1,6 +1,6 @@
 //! Set of interfaces that describe DID Document (https://www.w3.org/TR/did-core/)
 
-use serde::{Deserialize, Serialize};
+use serde::{de::Error as _, Deserialize, Deserializer, Serialize};
 use serde_json::Value;
 
 /// Represents DID Document (https://www.w3.org/TR/did-core/)
@@ -75,7 +75,7 @@ pub struct Service {
 }
 
 /// Represents additional service properties defined for specific Service type.
-#[derive(Debug, Clone, Deserialize, Serialize)]
+#[derive(Debug, Clone, Serialize)]
 #[serde(tag = "type", content = "serviceEndpoint")]
 pub enum ServiceKind {
     DIDCommMessaging {
@@ -88,6 +88,34 @@ pub enum ServiceKind {
     },
 }
 
+impl<'de> Deserialize<'de> for ServiceKind {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        #[derive(Deserialize)]
+        #[serde(rename_all = "camelCase")]
+        struct Tagged {
+            #[serde(rename = "type")]
+            type_: String,
+            service_endpoint: Value,
+        }
+
+        let Tagged {
+            type_,
+            service_endpoint,
+        } = Tagged::deserialize(deserializer)?;
+
+        // DID Documents may list services of any type
+        if type_ != "DIDCommMessaging" {
+            return Ok(ServiceKind::Other {
+                value: service_endpoint,
+            });
+        }
+
+        serde_json::from_value(service_endpoint)
+            .map(|value| ServiceKind::DIDCommMessaging { value })
+            .map_err(D::Error::custom)
+    }
+}
+
 /// Properties for DIDCommMessagingService
 /// (https://identity.foundation/didcomm-messaging/spec/#did-document-service-endpoint).
 #[derive(Debug, Clone, Deserialize, Serialize)]
-- 
2.43.0


From 8813b92622cb46536e7a483f10f1c23fe3429a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:23 +0000
Subject: [PATCH 15/16] fix: declare forward_headers in TypeScript as the
 object that is read

---
 wasm/src/message/pack_encrypted.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasm/src/message/pack_encrypted.rs b/wasm/src/message/pack_encrypted.rs
index 5bfde02..c58cc1c 100644
--- a/wasm/src/message/pack_encrypted.rs
+++ b/wasm/src/message/pack_encrypted.rs
@@ -153,7 +153,7 @@ type PackEncryptedOptions = {
      * if forward is enabled these optional headers can be passed to the wrapping `Forward` messages.
      * If forward is disabled this property will be ignored.
      */
-    forward_headers?: Array<[string, string]>,
+    forward_headers?: Record<string, any>,
 
     /**
      * Identifier (DID URL) of messaging service (https://identity.foundation/didcomm-messaging/spec/#did-document-service-endpoint).
-- 
2.43.0


From b7df79754e5516591162064d3640fdca3fcc0ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:40 +0000
Subject: [PATCH 16/16] fix: write services of other types with any endpoint,
 not only objects

---
 src/did/did_doc.rs | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/did/did_doc.rs b/src/did/did_doc.rs
index 733a555..f4a44c5 100644
--- a/src/did/did_doc.rs
+++ b/src/did/did_doc.rs
@@ -1,6 +1,6 @@
 //! Set of interfaces that describe DID Document (https://www.w3.org/TR/did-core/)
 
-use serde::{de::Error as _, Deserialize, Deserializer, Serialize};
+use serde::{de::Error as _, Deserialize, Deserializer, Serialize, Serializer};
 use serde_json::Value;
 
 /// Represents DID Document (https://www.w3.org/TR/did-core/)
@@ -75,17 +75,36 @@ pub struct Service {
 }
 
 /// Represents additional service properties defined for specific Service type.
-#[derive(Debug, Clone, Serialize)]
-#[serde(tag = "type", content = "serviceEndpoint")]
+#[derive(Debug, Clone)]
 pub enum ServiceKind {
-    DIDCommMessaging {
-        #[serde(flatten)]
-        value: DIDCommMessagingService,
-    },
-    Other {
-        #[serde(flatten)]
-        value: Value,
-    },
+    DIDCommMessaging { value: DIDCommMessagingService },
+    Other { value: Value },
+}
+
+impl Serialize for ServiceKind {
+    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
+        #[derive(Serialize)]
+        #[serde(rename_all = "camelCase")]
+        struct Tagged<'a, T> {
+            #[serde(rename = "type")]
+            type_: &'a str,
+            service_endpoint: &'a T,
+        }
+
+        // The endpoint of a service of another type may be any JSON, not only an object
+        match self {
+            ServiceKind::DIDCommMessaging { value } => Tagged {
+                type_: "DIDCommMessaging",
+                service_endpoint: value,
+            }
+            .serialize(serializer),
+            ServiceKind::Other { value } => Tagged {
+                type_: "Other",
+                service_endpoint: value,
+            }
+            .serialize(serializer),
+        }
+    }
 }
 
 impl<'de> Deserialize<'de> for ServiceKind {
-- 
2.43.0

