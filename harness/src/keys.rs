//! Key material in every representation, made independently of the code under test.
use crate::refjose::{b58enc, b64u, b64u_dec, sha256};
use askar_crypto::alg::{ed25519::Ed25519KeyPair, x25519::X25519KeyPair};
use askar_crypto::ec;
use askar_crypto::repr::{KeyPublicBytes, KeySecretBytes};
use didcomm::did::{VerificationMaterial, VerificationMethod, VerificationMethodType as VT};
use didcomm::secrets::{Secret, SecretMaterial, SecretType as ST};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum KT {
    X25519,
    P256,
    Ed25519,
    K256,
}
pub const KTS: [KT; 4] = [KT::X25519, KT::P256, KT::Ed25519, KT::K256];
impl KT {
    pub fn crv(self) -> &'static str {
        match self {
            KT::X25519 => "X25519",
            KT::P256 => "P-256",
            KT::Ed25519 => "Ed25519",
            KT::K256 => "secp256k1",
        }
    }
    pub fn kty(self) -> &'static str {
        match self {
            KT::X25519 | KT::Ed25519 => "OKP",
            _ => "EC",
        }
    }
    pub fn okp(self) -> bool {
        self.kty() == "OKP"
    }
    pub fn sig_alg(self) -> Option<&'static str> {
        match self {
            KT::Ed25519 => Some("EdDSA"),
            KT::P256 => Some("ES256"),
            KT::K256 => Some("ES256K"),
            KT::X25519 => None,
        }
    }
}

/// How a key is written in a DID document or secret.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Enc {
    Jwk,
    B58,
    Mb,
}
pub const ENCS: [Enc; 3] = [Enc::Jwk, Enc::B58, Enc::Mb];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Key {
    pub kt: KT,
    pub sk: [u8; 32],
    /// OKP: 32 bytes; EC: x || y
    pub pk: Vec<u8>,
}

static CACHE: Mutex<Option<HashMap<(KT, String), Key>>> = Mutex::new(None);

impl Key {
    pub fn derive(kt: KT, label: &str) -> Key {
        if let Some(k) = CACHE
            .lock()
            .unwrap()
            .get_or_insert_with(HashMap::new)
            .get(&(kt, label.to_string()))
        {
            return k.clone();
        }
        let mut n = 0u32;
        let k = loop {
            let sk = sha256(format!("{kt:?}/{label}/{n}").as_bytes());
            if let Some(k) = Key::from_secret(kt, sk) {
                break k;
            }
            n += 1;
        };
        CACHE.lock().unwrap().as_mut().unwrap().insert((kt, label.to_string()), k.clone());
        k
    }
    pub fn from_secret(kt: KT, sk: [u8; 32]) -> Option<Key> {
        let pk = match kt {
            KT::X25519 => X25519KeyPair::from_secret_bytes(&sk).ok()?.with_public_bytes(|b| b.to_vec()),
            KT::Ed25519 => Ed25519KeyPair::from_secret_bytes(&sk).ok()?.with_public_bytes(|b| b.to_vec()),
            KT::P256 | KT::K256 => {
                let c = if kt == KT::P256 { ec::p256() } else { ec::k256() };
                if !c.valid_scalar(&sk) {
                    return None;
                }
                let a = c.public(&sk);
                [a.x.to_vec(), a.y.to_vec()].concat()
            }
        };
        Some(Key { kt, sk, pk })
    }
    /// Reads a private JWK.
    #[allow(dead_code)]
    pub fn from_jwk(j: &Value) -> Option<Key> {
        let kt = match j["crv"].as_str()? {
            "X25519" => KT::X25519,
            "P-256" => KT::P256,
            "Ed25519" => KT::Ed25519,
            "secp256k1" => KT::K256,
            _ => return None,
        };
        Key::from_secret(kt, b64u_dec(j["d"].as_str()?)?.try_into().ok()?)
    }
    pub fn public_jwk(&self) -> Value {
        if self.kt.okp() {
            json!({"kty":"OKP","crv":self.kt.crv(),"x":b64u(&self.pk)})
        } else {
            json!({"kty":"EC","crv":self.kt.crv(),"x":b64u(&self.pk[..32]),"y":b64u(&self.pk[32..])})
        }
    }
    pub fn private_jwk(&self) -> Value {
        let mut j = self.public_jwk();
        j["d"] = json!(b64u(&self.sk));
        j
    }
    pub fn can(&self, enc: Enc) -> bool {
        can(self.kt, enc)
    }
    /// Verification method under `id` in the given encoding.
    pub fn vm(&self, id: &str, enc: Enc) -> VerificationMethod {
        let (type_, verification_material) = match (self.kt, enc) {
            (_, Enc::Jwk) => (VT::JsonWebKey2020, VerificationMaterial::JWK { public_key_jwk: self.public_jwk() }),
            (KT::X25519, Enc::B58) => (
                VT::X25519KeyAgreementKey2019,
                VerificationMaterial::Base58 { public_key_base58: b58enc(&self.pk) },
            ),
            (KT::Ed25519, Enc::B58) => (
                VT::Ed25519VerificationKey2018,
                VerificationMaterial::Base58 { public_key_base58: b58enc(&self.pk) },
            ),
            (KT::X25519, Enc::Mb) => (
                VT::X25519KeyAgreementKey2020,
                VerificationMaterial::Multibase { public_key_multibase: mb(&[0xec, 0x01], &self.pk) },
            ),
            (KT::Ed25519, Enc::Mb) => (
                VT::Ed25519VerificationKey2020,
                VerificationMaterial::Multibase { public_key_multibase: mb(&[0xed, 0x01], &self.pk) },
            ),
            _ => panic!("no such encoding"),
        };
        VerificationMethod {
            id: id.into(),
            type_,
            controller: id.split('#').next().unwrap().into(),
            verification_material,
        }
    }
    pub fn secret(&self, id: &str, enc: Enc) -> Secret {
        let (type_, secret_material) = match (self.kt, enc) {
            (_, Enc::Jwk) => (ST::JsonWebKey2020, SecretMaterial::JWK { private_key_jwk: self.private_jwk() }),
            (KT::X25519, Enc::B58) => (
                ST::X25519KeyAgreementKey2019,
                SecretMaterial::Base58 { private_key_base58: b58enc(&self.sk) },
            ),
            (KT::Ed25519, Enc::B58) => (
                ST::Ed25519VerificationKey2018,
                SecretMaterial::Base58 { private_key_base58: b58enc(&[&self.sk[..], &self.pk[..]].concat()) },
            ),
            (KT::X25519, Enc::Mb) => (
                ST::X25519KeyAgreementKey2020,
                SecretMaterial::Multibase { private_key_multibase: mb(&[0x82, 0x26], &self.sk) },
            ),
            (KT::Ed25519, Enc::Mb) => (
                ST::Ed25519VerificationKey2020,
                SecretMaterial::Multibase {
                    private_key_multibase: mb(&[0x80, 0x26], &[&self.sk[..], &self.pk[..]].concat()),
                },
            ),
            _ => panic!("no such encoding"),
        };
        Secret { id: id.into(), type_, secret_material }
    }
}

pub fn can(kt: KT, enc: Enc) -> bool {
    enc == Enc::Jwk || kt.okp()
}

/// base58btc multibase of a multicodec prefix (varint bytes) and data
pub fn mb(prefix: &[u8], data: &[u8]) -> String {
    format!("z{}", b58enc(&[prefix, data].concat()))
}
