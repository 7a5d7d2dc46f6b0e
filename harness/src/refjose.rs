//! Independent reference implementation of the DIDComm v2 envelope rules (JWE ECDH-ES / ECDH-1PU
//! + A256KW, JWS general JSON, compact JWT), built on the primitives of the askar-crypto stand-in
//! but sharing no code with the crate under test.
use crate::keys::{Key, KT};
use askar_crypto::alg::{ed25519::Ed25519KeyPair, x25519::X25519KeyPair};
use askar_crypto::buffer::SecretBytes;
use askar_crypto::cipher;
use askar_crypto::ec;
use askar_crypto::kdf::KeyExchange;
use askar_crypto::repr::{KeyPublicBytes, KeySecretBytes};
use askar_crypto::sign::{KeySigVerify, KeySign};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};

pub fn sha256(b: &[u8]) -> [u8; 32] {
    Sha256::digest(b).into()
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
pub fn b64u(b: &[u8]) -> String {
    let mut o = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            o.push(B64[(n >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    o
}
/// Strict: unpadded, canonical trailing bits.
pub fn b64u_dec(s: &str) -> Option<Vec<u8>> {
    let mut o = vec![];
    for c in s.as_bytes().chunks(4) {
        if c.len() == 1 {
            return None;
        }
        let mut n = 0u32;
        for i in 0..4 {
            n <<= 6;
            if let Some(x) = c.get(i) {
                n |= B64.iter().position(|y| y == x)? as u32;
            }
        }
        let b = [(n >> 16) as u8, (n >> 8) as u8, n as u8];
        o.extend_from_slice(&b[..c.len() - 1]);
        if b[c.len() - 1..].iter().any(|x| *x != 0) {
            return None;
        }
    }
    Some(o)
}

const B58: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
pub fn b58enc(b: &[u8]) -> String {
    let zeros = b.iter().take_while(|x| **x == 0).count();
    let mut digits: Vec<u8> = vec![];
    for &x in b {
        let mut c = x as u32;
        for d in digits.iter_mut() {
            c += (*d as u32) << 8;
            *d = (c % 58) as u8;
            c /= 58;
        }
        while c > 0 {
            digits.push((c % 58) as u8);
            c /= 58;
        }
    }
    // leading zero bytes become '1'
    let mut o = String::new();
    for _ in 0..zeros {
        o.push('1');
    }
    // strip digits that encode only leading zeros
    while digits.last() == Some(&0) {
        digits.pop();
    }
    for d in digits.iter().rev() {
        o.push(B58[*d as usize] as char);
    }
    o
}

fn secret32(sk: &[u8]) -> Option<[u8; 32]> {
    sk.try_into().ok()
}

/// Raw shared secret.
pub fn ecdh(kt: KT, sk: &[u8], pk: &[u8]) -> Option<Vec<u8>> {
    match kt {
        KT::X25519 => {
            let a = X25519KeyPair::from_secret_bytes(sk).ok()?;
            let b = X25519KeyPair::from_public_bytes(pk).ok()?;
            let mut out = SecretBytes::default();
            a.write_key_exchange(&b, &mut out).ok()?;
            Some(out.to_vec())
        }
        KT::P256 | KT::K256 => {
            let c = if kt == KT::P256 { ec::p256() } else { ec::k256() };
            let p = ec::Affine { x: pk[..32].try_into().ok()?, y: pk[32..].try_into().ok()? };
            if !c.on_curve(&p) {
                return None;
            }
            c.ecdh(&secret32(sk)?, &p).map(|z| z.to_vec())
        }
        KT::Ed25519 => None,
    }
}

/// Concat KDF (NIST SP 800-56A) as used by ECDH-ES and ECDH-1PU in key-wrapping mode, 256 bit.
pub fn kek(z: &[u8], alg: &str, apu: &[u8], apv: &[u8], cc_tag: Option<&[u8]>) -> [u8; 32] {
    let mut h = vec![0, 0, 0, 1];
    h.extend_from_slice(z);
    for p in [alg.as_bytes(), apu, apv] {
        h.extend_from_slice(&(p.len() as u32).to_be_bytes());
        h.extend_from_slice(p);
    }
    h.extend_from_slice(&256u32.to_be_bytes());
    if let Some(t) = cc_tag {
        h.extend_from_slice(&(t.len() as u32).to_be_bytes());
        h.extend_from_slice(t);
    }
    sha256(&h)
}

pub const ES: &str = "ECDH-ES+A256KW";
pub const PU: &str = "ECDH-1PU+A256KW";
pub const ENC_ALGS: [&str; 3] = ["A256CBC-HS512", "XC20P", "A256GCM"];

pub fn sizes(enc: &str) -> (usize, usize, usize) {
    // key, iv, tag
    match enc {
        "A256CBC-HS512" => (64, 16, 32),
        "XC20P" => (32, 24, 16),
        "A256GCM" => (32, 12, 16),
        _ => (32, 12, 16),
    }
}
pub fn seal(enc: &str, key: &[u8], iv: &[u8], aad: &[u8], pt: &[u8]) -> (Vec<u8>, Vec<u8>) {
    match enc {
        "A256CBC-HS512" => {
            let (c, t) = cipher::cbc_hs512_seal(key, iv, aad, pt);
            (c, t.to_vec())
        }
        "XC20P" => {
            let (c, t) = cipher::xc20p_seal(key, iv, aad, pt);
            (c, t.to_vec())
        }
        _ => {
            let (c, t) = cipher::gcm_seal(key, iv, aad, pt);
            (c, t.to_vec())
        }
    }
}
pub fn open(enc: &str, key: &[u8], iv: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
    let (k, i, t) = sizes(enc);
    if key.len() != k || iv.len() != i || tag.len() != t {
        return None;
    }
    match enc {
        "A256CBC-HS512" => cipher::cbc_hs512_open(key, iv, aad, ct, tag),
        "XC20P" => cipher::xc20p_open(key, iv, aad, ct, tag),
        "A256GCM" => cipher::gcm_open(key, iv, aad, ct, tag),
        _ => None,
    }
}

/// Deterministic bytes for the reference packer.
pub fn prf(label: &str, n: usize) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0u32;
    while o.len() < n {
        o.extend_from_slice(&sha256(format!("prf/{label}/{i}").as_bytes()));
        i += 1;
    }
    o.truncate(n);
    o
}

pub fn apv_of(kids: &[&str]) -> [u8; 32] {
    let mut k = kids.to_vec();
    k.sort();
    sha256(k.join(".").as_bytes())
}

/// What to encrypt, with knobs to deviate from the rules (correct cryptography over wrong headers).
#[derive(Clone)]
pub struct Seal<'a> {
    pub label: String,
    pub alg: &'a str,
    pub enc: &'a str,
    /// sender (kid, private key)
    pub sender: Option<(String, Key)>,
    /// recipients (kid, public key)
    pub to: Vec<(String, Key)>,
    pub pt: Vec<u8>,
    pub typ: Option<Value>,
    pub with_skid: bool,
    pub apu: Option<Vec<u8>>,
    pub apv: Option<Vec<u8>>,
    /// replaces or adds protected header members (Null removes)
    pub extra_protected: Vec<(String, Value)>,
    pub epk_kt: KT,
}

impl<'a> Seal<'a> {
    pub fn new(label: &str, enc: &'a str, sender: Option<(&str, &Key)>, to: &[(&str, &Key)], pt: &[u8]) -> Seal<'a> {
        Seal {
            label: label.into(),
            alg: if sender.is_some() { PU } else { ES },
            enc,
            apu: sender.map(|(s, _)| s.as_bytes().to_vec()),
            sender: sender.map(|(s, k)| (s.to_string(), k.clone())),
            to: to.iter().map(|(s, k)| (s.to_string(), (*k).clone())).collect(),
            pt: pt.to_vec(),
            typ: Some(json!("application/didcomm-encrypted+json")),
            with_skid: true,
            apv: None,
            extra_protected: vec![],
            epk_kt: to.first().map(|(_, k)| k.kt).unwrap_or(KT::X25519),
        }
    }
    pub fn protected(&self) -> Value {
        let epk = Key::derive(self.epk_kt, &format!("epk/{}", self.label));
        let kids: Vec<&str> = self.to.iter().map(|t| t.0.as_str()).collect();
        let apv = self.apv.clone().unwrap_or_else(|| apv_of(&kids).to_vec());
        let mut p = json!({"alg": self.alg, "enc": self.enc, "apv": b64u(&apv), "epk": epk.public_jwk()});
        if let Some(t) = &self.typ {
            p["typ"] = t.clone();
        }
        if let (Some((skid, _)), true) = (&self.sender, self.with_skid) {
            p["skid"] = json!(skid);
        }
        if let Some(apu) = &self.apu {
            p["apu"] = json!(b64u(apu));
        }
        for (k, v) in &self.extra_protected {
            if v.is_null() {
                p.as_object_mut().unwrap().remove(k);
            } else {
                p[k] = v.clone();
            }
        }
        p
    }
    pub fn build(&self) -> Value {
        self.build_with(&self.protected().to_string())
    }
    /// Encrypts with the given protected header text.
    pub fn build_with(&self, protected: &str) -> Value {
        let epk = Key::derive(self.epk_kt, &format!("epk/{}", self.label));
        let (kl, il, _) = sizes(self.enc);
        let cek = prf(&format!("cek/{}", self.label), kl);
        let iv = prf(&format!("iv/{}", self.label), il);
        let kids: Vec<&str> = self.to.iter().map(|t| t.0.as_str()).collect();
        let apv = self.apv.clone().unwrap_or_else(|| apv_of(&kids).to_vec());
        let protected = b64u(protected.as_bytes());
        let (ct, tag) = seal(self.enc, &cek, &iv, protected.as_bytes(), &self.pt);
        let rec: Vec<Value> = self
            .to
            .iter()
            .map(|(kid, k)| {
                let mut z = ecdh(k.kt, &epk.sk, &k.pk).unwrap_or_default();
                if let Some((_, s)) = &self.sender {
                    z.extend(ecdh(k.kt, &s.sk, &k.pk).unwrap_or_default());
                }
                let cc = self.sender.as_ref().map(|_| tag.as_slice());
                let kek = kek(&z, self.alg, self.apu.as_deref().unwrap_or(&[]), &apv, cc);
                let mut w = cek.clone();
                assert!(cipher::kw_wrap(&kek, &mut w));
                json!({"header":{"kid":kid},"encrypted_key":b64u(&w)})
            })
            .collect();
        json!({"protected":protected,"recipients":rec,"iv":b64u(&iv),"ciphertext":b64u(&ct),"tag":b64u(&tag)})
    }
}

/// A JWE opened by the reference implementation.
#[derive(Debug, Clone)]
#[allow(dead_code)]
pub struct Opened {
    pub protected: Value,
    pub alg: String,
    pub enc: String,
    pub skid: Option<String>,
    pub kids: Vec<String>,
    pub cek: Vec<u8>,
    pub epk: Value,
    pub iv: Vec<u8>,
    pub pt: Vec<u8>,
}

fn st<'v>(v: &'v Value, k: &str) -> Result<&'v str, String> {
    v.get(k).and_then(|x| x.as_str()).ok_or_else(|| format!("member {k} missing or not a string"))
}
fn keys_of(v: &Value) -> Vec<String> {
    v.as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default()
}

/// Opens and verifies a JWE as produced by a conforming DIDComm v2 packer, with recipient key
/// `(kid, key)`; `sender_pk(skid)` gives the sender's public key for ECDH-1PU.
pub fn open_jwe(
    text: &str,
    kid: &str,
    key: &Key,
    sender_pk: &dyn Fn(&str) -> Option<Key>,
) -> Result<Opened, String> {
    let v: Value = serde_json::from_str(text).map_err(|e| format!("not JSON: {e}"))?;
    let mut ks = keys_of(&v);
    ks.sort();
    if ks != ["ciphertext", "iv", "protected", "recipients", "tag"] {
        return Err(format!("unexpected JWE members {ks:?}"));
    }
    let prot_b64 = st(&v, "protected")?;
    let prot = b64u_dec(prot_b64).ok_or("protected is not unpadded base64url")?;
    let p: Value = serde_json::from_slice(&prot).map_err(|e| format!("protected not JSON: {e}"))?;
    if st(&p, "typ")? != "application/didcomm-encrypted+json" {
        return Err("wrong typ".into());
    }
    let alg = st(&p, "alg")?.to_string();
    let enc = st(&p, "enc")?.to_string();
    if !ENC_ALGS.contains(&enc.as_str()) {
        return Err(format!("unknown enc {enc}"));
    }
    let recs = v["recipients"].as_array().ok_or("recipients not an array")?;
    if recs.is_empty() {
        return Err("no recipients".into());
    }
    let mut kids = vec![];
    let mut mine = None;
    for r in recs {
        let mut rk = keys_of(r);
        rk.sort();
        if rk != ["encrypted_key", "header"] || keys_of(&r["header"]) != ["kid"] {
            return Err("unexpected recipient members".into());
        }
        let k = st(&r["header"], "kid")?;
        kids.push(k.to_string());
        if k == kid {
            mine = Some(b64u_dec(st(r, "encrypted_key")?).ok_or("encrypted_key not base64url")?);
        }
    }
    let mut wrapped = mine.ok_or_else(|| format!("no recipient {kid}"))?;
    let apv = b64u_dec(st(&p, "apv")?).ok_or("apv not base64url")?;
    let krefs: Vec<&str> = kids.iter().map(|s| s.as_str()).collect();
    if apv != apv_of(&krefs) {
        return Err("apv is not the hash of the sorted recipient kids".into());
    }
    let (skid, apu) = match alg.as_str() {
        ES => {
            if p.get("skid").is_some() || p.get("apu").is_some() {
                return Err("anonymous envelope names a sender".into());
            }
            (None, vec![])
        }
        PU => {
            let apu = b64u_dec(st(&p, "apu")?).ok_or("apu not base64url")?;
            let skid = st(&p, "skid")?.to_string();
            if apu != skid.as_bytes() {
                return Err("apu is not the skid".into());
            }
            if enc != "A256CBC-HS512" {
                return Err("authcrypt needs A256CBC-HS512".into());
            }
            (Some(skid), apu)
        }
        _ => return Err(format!("unknown alg {alg}")),
    };
    let mut allowed = vec!["alg", "apv", "enc", "epk", "typ"];
    if skid.is_some() {
        allowed.extend(["apu", "skid"]);
    }
    allowed.sort();
    let mut pk = keys_of(&p);
    pk.sort();
    if pk != allowed {
        return Err(format!("unexpected protected members {pk:?}"));
    }
    let epk = p["epk"].clone();
    if st(&epk, "kty")? != key.kt.kty() || st(&epk, "crv")? != key.kt.crv() {
        return Err("epk is not on the recipient's curve".into());
    }
    let mut ek = keys_of(&epk);
    ek.sort();
    let want: Vec<&str> = if key.kt.okp() { vec!["crv", "kty", "x"] } else { vec!["crv", "kty", "x", "y"] };
    if ek != want {
        return Err(format!("unexpected epk members {ek:?}"));
    }
    let mut epk_raw = b64u_dec(st(&epk, "x")?).ok_or("epk.x")?;
    if !key.kt.okp() {
        epk_raw.extend(b64u_dec(st(&epk, "y")?).ok_or("epk.y")?);
    }
    if epk_raw.len() != if key.kt.okp() { 32 } else { 64 } {
        return Err("epk coordinate length".into());
    }
    let iv = b64u_dec(st(&v, "iv")?).ok_or("iv not base64url")?;
    let ct = b64u_dec(st(&v, "ciphertext")?).ok_or("ciphertext not base64url")?;
    let tag = b64u_dec(st(&v, "tag")?).ok_or("tag not base64url")?;
    let mut z = ecdh(key.kt, &key.sk, &epk_raw).ok_or("epk not a valid point")?;
    if let Some(s) = &skid {
        let spk = sender_pk(s).ok_or_else(|| format!("unknown sender key {s}"))?;
        if spk.kt != key.kt {
            return Err("sender key on another curve".into());
        }
        z.extend(ecdh(key.kt, &key.sk, &spk.pk).ok_or("sender point")?);
    }
    let k = kek(&z, &alg, &apu, &apv, skid.as_ref().map(|_| tag.as_slice()));
    if !cipher::kw_unwrap(&k, &mut wrapped) {
        return Err("key unwrap failed".into());
    }
    if wrapped.len() != sizes(&enc).0 {
        return Err("cek length".into());
    }
    let pt = open(&enc, &wrapped, &iv, prot_b64.as_bytes(), &ct, &tag).ok_or("content decryption failed")?;
    Ok(Opened { protected: p, alg, enc, skid, kids, cek: wrapped, epk, iv, pt })
}

pub fn sign_raw(k: &Key, msg: &[u8]) -> Vec<u8> {
    match k.kt {
        KT::Ed25519 => Ed25519KeyPair::from_secret_bytes(&k.sk)
            .unwrap()
            .create_signature(msg, None)
            .unwrap()
            .to_vec(),
        KT::P256 => ec::p256().sign(&k.sk, msg).to_vec(),
        KT::K256 => ec::k256().sign(&k.sk, msg).to_vec(),
        KT::X25519 => panic!("cannot sign"),
    }
}
pub fn verify_raw(k: &Key, msg: &[u8], sig: &[u8]) -> bool {
    match k.kt {
        KT::Ed25519 => Ed25519KeyPair::from_public_bytes(&k.pk)
            .map(|p| p.verify_signature(msg, sig, None).unwrap_or(false))
            .unwrap_or(false),
        KT::P256 | KT::K256 => {
            let c = if k.kt == KT::P256 { ec::p256() } else { ec::k256() };
            let p = ec::Affine { x: k.pk[..32].try_into().unwrap(), y: k.pk[32..].try_into().unwrap() };
            sig.len() == 64 && c.verify(&p, msg, sig)
        }
        KT::X25519 => false,
    }
}

/// One signature entry over `payload` (already base64url) with the given protected header text.
pub fn jws_entry(k: &Key, kid: &str, protected: &str, payload_b64: &str) -> Value {
    let p = b64u(protected.as_bytes());
    let sig = sign_raw(k, format!("{p}.{payload_b64}").as_bytes());
    json!({"header":{"kid":kid},"protected":p,"signature":b64u(&sig)})
}
pub fn jws_header(alg: &str) -> String {
    json!({"typ":"application/didcomm-signed+json","alg":alg}).to_string()
}
pub fn ref_sign(k: &Key, kid: &str, payload: &[u8]) -> Value {
    let pl = b64u(payload);
    let e = jws_entry(k, kid, &jws_header(k.kt.sig_alg().unwrap()), &pl);
    json!({"payload":pl,"signatures":[e]})
}
/// Compact JWT.
pub fn ref_jwt(k: &Key, header: &Value, claims: &Value) -> String {
    let h = b64u(header.to_string().as_bytes());
    let p = b64u(claims.to_string().as_bytes());
    let s = sign_raw(k, format!("{h}.{p}").as_bytes());
    format!("{h}.{p}.{}", b64u(&s))
}

/// Verifies a produced JWS strictly; returns (kid, alg, payload).
pub fn open_jws(text: &str, pk: &dyn Fn(&str) -> Option<Key>) -> Result<(String, String, Vec<u8>), String> {
    let v: Value = serde_json::from_str(text).map_err(|e| format!("not JSON: {e}"))?;
    let mut ks = keys_of(&v);
    ks.sort();
    if ks != ["payload", "signatures"] {
        return Err(format!("unexpected JWS members {ks:?}"));
    }
    let sigs = v["signatures"].as_array().ok_or("signatures")?;
    if sigs.len() != 1 {
        return Err("not exactly one signature".into());
    }
    let s = &sigs[0];
    let mut sk = keys_of(s);
    sk.sort();
    if sk != ["header", "protected", "signature"] || keys_of(&s["header"]) != ["kid"] {
        return Err("unexpected signature members".into());
    }
    let kid = st(&s["header"], "kid")?.to_string();
    let pb = st(s, "protected")?;
    let p: Value = serde_json::from_slice(&b64u_dec(pb).ok_or("protected b64")?).map_err(|e| e.to_string())?;
    let mut pk_ = keys_of(&p);
    pk_.sort();
    if pk_ != ["alg", "typ"] {
        return Err(format!("unexpected JWS protected members {pk_:?}"));
    }
    if st(&p, "typ")? != "application/didcomm-signed+json" {
        return Err("wrong JWS typ".into());
    }
    let alg = st(&p, "alg")?.to_string();
    let key = pk(&kid).ok_or_else(|| format!("unknown signer {kid}"))?;
    if key.kt.sig_alg() != Some(alg.as_str()) {
        return Err("alg does not belong to the key".into());
    }
    let payload = st(&v, "payload")?;
    let sig = b64u_dec(st(s, "signature")?).ok_or("signature b64")?;
    if !verify_raw(&key, format!("{pb}.{payload}").as_bytes(), &sig) {
        return Err("signature invalid".into());
    }
    Ok((kid, alg, b64u_dec(payload).ok_or("payload b64")?))
}

/// Verifies a produced from_prior JWT strictly; returns (kid, claims).
pub fn open_jwt(text: &str, pk: &dyn Fn(&str) -> Option<Key>) -> Result<(String, Value), String> {
    let parts: Vec<&str> = text.split('.').collect();
    if parts.len() != 3 {
        return Err("not three parts".into());
    }
    let h: Value = serde_json::from_slice(&b64u_dec(parts[0]).ok_or("header b64")?).map_err(|e| e.to_string())?;
    let mut hk = keys_of(&h);
    hk.sort();
    if hk != ["alg", "kid", "typ"] || st(&h, "typ")? != "JWT" {
        return Err(format!("JWT header {h}"));
    }
    let kid = st(&h, "kid")?.to_string();
    let key = pk(&kid).ok_or("unknown kid")?;
    if key.kt.sig_alg() != Some(st(&h, "alg")?) {
        return Err("alg does not belong to the key".into());
    }
    let sig = b64u_dec(parts[2]).ok_or("sig b64")?;
    if !verify_raw(&key, format!("{}.{}", parts[0], parts[1]).as_bytes(), &sig) {
        return Err("signature invalid".into());
    }
    let c = serde_json::from_slice(&b64u_dec(parts[1]).ok_or("claims b64")?).map_err(|e| e.to_string())?;
    Ok((kid, c))
}
