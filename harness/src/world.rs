//! Parties, DID documents and instrumented resolvers; a deterministic executor.
use crate::keys::{Enc, Key, KT};
use async_trait::async_trait;
use didcomm::did::{DIDCommMessagingService, DIDDoc, DIDResolver, Service, ServiceKind, VerificationMaterial, VerificationMethod};
use didcomm::error::{err_msg, Error, ErrorKind, Result};
use didcomm::secrets::{Secret, SecretMaterial, SecretsResolver};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::pin::Pin;
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Wake, Waker};

struct NoWake;
impl Wake for NoWake {
    fn wake(self: Arc<Self>) {}
}
pub fn noop_waker() -> Waker {
    Waker::from(Arc::new(NoWake))
}

/// Runs a future to completion; the harness resolvers make progress on every poll, so a future
/// that stays pending for long is stuck.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    for _ in 0..100_000 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
    panic!("operation stays pending although every resolver call has been answered");
}

/// Pending exactly `n` times.
pub struct YieldN(pub u32);
impl Future for YieldN {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    Err(ErrorKind2),
    /// not found / none held
    None,
    /// find_secrets answers with ids that get_secret then does not know
    Liar,
    /// get_secret answers with another secret (the n-th held one)
    Swap(usize),
}
/// ErrorKind lacks Hash; this is its index.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct ErrorKind2(pub usize);
pub const KINDS: [ErrorKind; 9] = [
    ErrorKind::DIDNotResolved,
    ErrorKind::DIDUrlNotFound,
    ErrorKind::SecretNotFound,
    ErrorKind::Malformed,
    ErrorKind::IoError,
    ErrorKind::InvalidState,
    ErrorKind::NoCompatibleCrypto,
    ErrorKind::Unsupported,
    ErrorKind::IllegalArgument,
];
impl ErrorKind2 {
    pub fn kind(self) -> ErrorKind {
        KINDS[self.0]
    }
}

#[derive(Default)]
pub struct Log(Mutex<Vec<String>>);
impl Log {
    pub fn borrow(&self) -> MutexGuard<'_, Vec<String>> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn borrow_mut(&self) -> MutexGuard<'_, Vec<String>> {
        self.borrow()
    }
}
#[derive(Default)]
pub struct Pend(std::sync::atomic::AtomicU32);
impl Pend {
    pub fn get(&self) -> u32 {
        self.0.load(std::sync::atomic::Ordering::SeqCst)
    }
    pub fn set(&self, n: u32) {
        self.0.store(n, std::sync::atomic::Ordering::SeqCst)
    }
}

/// A view of the world: DID documents plus the secrets one party holds.
#[derive(Default)]
pub struct Net {
    pub docs: BTreeMap<String, DIDDoc>,
    pub secrets: Vec<Secret>,
    pub log: Log,
    pub faults: BTreeMap<usize, Fault>,
    pub pend: Pend,
}

impl Net {
    pub fn new(docs: &[DIDDoc], secrets: &[Secret]) -> Net {
        Net {
            docs: docs.iter().map(|d| (d.id.clone(), d.clone())).collect(),
            secrets: secrets.to_vec(),
            ..Default::default()
        }
    }
    fn enter(&self, what: String) -> Option<Fault> {
        let mut l = self.log.borrow_mut();
        let i = l.len();
        l.push(what);
        self.faults.get(&i).copied()
    }
    pub fn calls(&self) -> Vec<String> {
        self.log.borrow().clone()
    }
}

pub fn injected(k: ErrorKind) -> Error {
    err_msg(k, "injected resolver failure")
}

/// Resolvers get their documents and secrets as JSON texts: what the library reads from the text is what it works with.
/// The text is written here, not by the library.
pub fn doc_json(d: &DIDDoc) -> Value {
    let vm = |v: &VerificationMethod| {
        let mut o = json!({"id": v.id, "type": format!("{:?}", v.type_), "controller": v.controller});
        match &v.verification_material {
            VerificationMaterial::JWK { public_key_jwk } => o["publicKeyJwk"] = public_key_jwk.clone(),
            VerificationMaterial::Multibase { public_key_multibase } => o["publicKeyMultibase"] = json!(public_key_multibase),
            VerificationMaterial::Base58 { public_key_base58 } => o["publicKeyBase58"] = json!(public_key_base58),
        }
        o
    };
    let svc = |s: &Service| match &s.service_endpoint {
        ServiceKind::DIDCommMessaging { value: v } => {
            let mut e = json!({"uri": v.uri});
            if let Some(a) = &v.accept {
                e["accept"] = json!(a);
            }
            if !v.routing_keys.is_empty() {
                e["routingKeys"] = json!(v.routing_keys);
            }
            json!({"id": s.id, "type": "DIDCommMessaging", "serviceEndpoint": e})
        }
        ServiceKind::Other { value } => json!({"id": s.id, "type": "LinkedDomains", "serviceEndpoint": value}),
    };
    json!({
        "id": d.id, "keyAgreement": d.key_agreement, "authentication": d.authentication,
        "verificationMethod": d.verification_method.iter().map(vm).collect::<Vec<_>>(),
        "service": d.service.iter().map(svc).collect::<Vec<_>>(),
    })
}
/// Reading is a function of the text alone: each document is read once per thread and then copied.
fn doc_through_json(d: &DIDDoc) -> Result<DIDDoc> {
    thread_local!(static READ: RefCell<HashMap<u64, Option<DIDDoc>>> = RefCell::default());
    let key = {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (&d.id, &d.key_agreement, &d.authentication, d.verification_method.len()).hash(&mut h);
        for v in &d.verification_method {
            (&v.id, &v.controller, std::mem::discriminant(&v.type_), std::mem::discriminant(&v.verification_material)).hash(&mut h);
            match &v.verification_material {
                VerificationMaterial::JWK { public_key_jwk } => hash_json(public_key_jwk, &mut h),
                VerificationMaterial::Multibase { public_key_multibase: t } | VerificationMaterial::Base58 { public_key_base58: t } => t.hash(&mut h),
            }
        }
        for s in &d.service {
            (&s.id, std::mem::discriminant(&s.service_endpoint)).hash(&mut h);
            match &s.service_endpoint {
                ServiceKind::DIDCommMessaging { value: v } => (&v.uri, &v.accept, &v.routing_keys).hash(&mut h),
                ServiceKind::Other { value } => hash_json(value, &mut h),
            }
        }
        h.finish()
    };
    let got = READ.with(|r| {
        let mut r = r.borrow_mut();
        if r.len() > 4096 {
            r.clear();
        }
        r.entry(key).or_insert_with(|| serde_json::from_str(&doc_json(d).to_string()).ok()).clone()
    });
    got.ok_or_else(|| err_msg(ErrorKind::InvalidState, "the document does not parse"))
}
fn hash_json(v: &Value, h: &mut impl Hasher) {
    match v {
        Value::Array(a) => {
            (0u8, a.len()).hash(h);
            a.iter().for_each(|x| hash_json(x, h));
        }
        Value::Object(o) => {
            (1u8, o.len()).hash(h);
            o.iter().for_each(|(k, x)| {
                k.hash(h);
                hash_json(x, h)
            });
        }
        Value::String(t) => (2u8, t).hash(h),
        other => (3u8, other.to_string()).hash(h),
    }
}
fn secret_through_json(s: &Secret) -> Result<Secret> {
    let mut o = json!({"id": s.id, "type": format!("{:?}", s.type_)});
    match &s.secret_material {
        SecretMaterial::JWK { private_key_jwk } => o["privateKeyJwk"] = private_key_jwk.clone(),
        SecretMaterial::Multibase { private_key_multibase } => o["privateKeyMultibase"] = json!(private_key_multibase),
        SecretMaterial::Base58 { private_key_base58 } => o["privateKeyBase58"] = json!(private_key_base58),
    }
    serde_json::from_str(&o.to_string()).map_err(|e| err_msg(ErrorKind::InvalidState, format!("the secret does not parse: {e}")))
}

#[cfg_attr(feature = "uniffi", async_trait)]
#[cfg_attr(not(feature = "uniffi"), async_trait(?Send))]
impl DIDResolver for Net {
    async fn resolve(&self, did: &str) -> Result<Option<DIDDoc>> {
        let f = self.enter(format!("resolve {did}"));
        YieldN(self.pend.get()).await;
        match f {
            Some(Fault::Err(k)) => Err(injected(k.kind())),
            Some(Fault::None) => Ok(None),
            _ => self.docs.get(did).map(doc_through_json).transpose(),
        }
    }
}

#[cfg_attr(feature = "uniffi", async_trait)]
#[cfg_attr(not(feature = "uniffi"), async_trait(?Send))]
impl SecretsResolver for Net {
    async fn get_secret(&self, id: &str) -> Result<Option<Secret>> {
        let f = self.enter(format!("get_secret {id}"));
        YieldN(self.pend.get()).await;
        match f {
            Some(Fault::Err(k)) => Err(injected(k.kind())),
            Some(Fault::None) | Some(Fault::Liar) => Ok(None),
            Some(Fault::Swap(n)) => self.secrets.get(n).map(secret_through_json).transpose(),
            None => self.secrets.iter().find(|s| s.id == id).map(secret_through_json).transpose(),
        }
    }
    async fn find_secrets<'a>(&self, ids: &'a [&'a str]) -> Result<Vec<&'a str>> {
        let f = self.enter(format!("find_secrets {}", ids.join(",")));
        YieldN(self.pend.get()).await;
        match f {
            Some(Fault::Err(k)) => Err(injected(k.kind())),
            Some(Fault::None) => Ok(vec![]),
            Some(Fault::Liar) => Ok(ids.to_vec()),
            None | Some(Fault::Swap(_)) => Ok(ids
                .iter()
                .filter(|i| self.secrets.iter().any(|s| s.id == **i))
                .copied()
                .collect()),
        }
    }
}

/// How DIDs and key ids are spelled in this run. The whole exploration of a property is repeated
/// under every spelling: 0 plain; 1 ids that are prefixes of one another and not in sorted order;
/// 2 long ids with every character a DID and a fragment may contain.
pub static NAMING: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
pub fn naming() -> u8 {
    NAMING.load(std::sync::atomic::Ordering::Relaxed)
}
fn zeros(s: &str) -> String {
    match s.as_bytes().last() {
        Some(d) if d.is_ascii_digit() && s.len() > 1 => {
            format!("{}{}", &s[..s.len() - 1], "0".repeat((7 * (d - b'0') as usize + 3) % 10))
        }
        _ => s.to_string(),
    }
}
pub fn nfrag(f: &str) -> String {
    match naming() {
        1 => zeros(f),
        2 => format!("-._~{f}/a.b:c@d?e!f$g&h'i(j)k*l+m,n;o=p%20q-long-enough-to-outgrow-any-small-buffer-that-a-key-id-may-be-copied-into"),
        // all of them alike up to their ends
        3 => format!("{}{f}", "y".repeat(1100)),
        _ => f.to_string(),
    }
}
fn ndid(name: &str) -> String {
    match naming() {
        1 => format!(
            "did:example:{}",
            match name {
                "alice" => "a".into(),
                "bob" => "ab".into(),
                "carol" => "abc".into(),
                "mallory" => "abcd".into(),
                "med" => "abcde".into(),
                n => zeros(n),
            }
        ),
        2 => format!("did:web:example.com%3A8080:Users:{name}:..-_.%C3%A9:a-did-with-a-rather-long-method-specific-id-0123456789"),
        3 => format!("did:example:{}:{name}", "x".repeat(1100)),
        _ => format!("did:example:{name}"),
    }
}
/// The DID or DID URL `did:example:NAME[#FRAG]` in the spelling of this run.
pub fn nm(s: &str) -> String {
    let (d, f) = s.split_once('#').map_or((s, None), |(d, f)| (d, Some(f)));
    let Some(n) = d.strip_prefix("did:example:") else { return s.to_string() };
    match f {
        Some(f) => format!("{}#{}", ndid(n), nfrag(f)),
        None => ndid(n),
    }
}
/// The same, for places that need a static string (interned).
pub fn ns(s: &str) -> &'static str {
    static POOL: std::sync::Mutex<BTreeMap<String, &'static str>> = std::sync::Mutex::new(BTreeMap::new());
    let k = nm(s);
    POOL.lock().unwrap().entry(k.clone()).or_insert_with(|| Box::leak(k.into_boxed_str()))
}

/// One key of a party.
#[derive(Clone, Debug)]
pub struct PKey {
    pub kid: String,
    pub key: Key,
    pub enc: Enc,
    pub ka: bool,
    pub auth: bool,
}

/// A DID subject with its keys.
#[derive(Clone, Debug)]
pub struct Party {
    pub did: String,
    pub keys: Vec<PKey>,
    pub services: Vec<Service>,
}

impl Party {
    pub fn new(did: &str) -> Party {
        Party { did: did.into(), keys: vec![], services: vec![] }
    }
    pub fn key(mut self, frag: &str, kt: KT, enc: Enc, ka: bool, auth: bool) -> Party {
        let kid = self.kid(frag);
        let key = Key::derive(kt, &kid);
        self.keys.push(PKey { kid, key, enc, ka, auth });
        self
    }
    pub fn ka(self, frag: &str, kt: KT) -> Party {
        self.key(frag, kt, Enc::Jwk, true, false)
    }
    pub fn auth(self, frag: &str, kt: KT) -> Party {
        self.key(frag, kt, Enc::Jwk, false, true)
    }
    pub fn service(mut self, s: Service) -> Party {
        self.services.push(s);
        self
    }
    pub fn kid(&self, frag: &str) -> String {
        format!("{}#{}", self.did, nfrag(frag))
    }
    pub fn get(&self, frag: &str) -> &PKey {
        let kid = self.kid(frag);
        self.keys.iter().find(|k| k.kid == kid).expect("key")
    }
    pub fn doc(&self) -> DIDDoc {
        DIDDoc {
            id: self.did.clone(),
            key_agreement: self.keys.iter().filter(|k| k.ka).map(|k| k.kid.clone()).collect(),
            authentication: self.keys.iter().filter(|k| k.auth).map(|k| k.kid.clone()).collect(),
            verification_method: self.keys.iter().map(|k| k.key.vm(&k.kid, k.enc)).collect(),
            service: self.services.clone(),
        }
    }
    pub fn secrets(&self) -> Vec<Secret> {
        self.keys.iter().map(|k| k.key.secret(&k.kid, k.enc)).collect()
    }
    pub fn ka_kids(&self, kt: KT) -> Vec<String> {
        self.keys.iter().filter(|k| k.ka && k.key.kt == kt).map(|k| k.kid.clone()).collect()
    }
}

/// Public key lookup over parties (for the reference opener).
pub fn lookup<'a>(ps: &'a [Party]) -> impl Fn(&str) -> Option<Key> + 'a {
    move |kid| ps.iter().flat_map(|p| p.keys.iter()).find(|k| k.kid == kid).map(|k| k.key.clone())
}

pub fn service(id: &str, uri: &str, accept: Option<Vec<&str>>, routing_keys: &[String]) -> Service {
    Service {
        id: id.into(),
        service_endpoint: ServiceKind::DIDCommMessaging {
            value: DIDCommMessagingService {
                uri: uri.into(),
                accept: accept.map(|a| a.into_iter().map(|s| s.into()).collect()),
                routing_keys: routing_keys.to_vec(),
            },
        },
    }
}

/// The standard cast: rich documents with every key type on both purposes.
pub fn rich(name: &str) -> Party {
    Party::new(&nm(&format!("did:example:{name}")))
        .key("x1", KT::X25519, Enc::Jwk, true, false)
        .key("x2", KT::X25519, Enc::B58, true, false)
        .key("x3", KT::X25519, Enc::Mb, true, false)
        .key("p1", KT::P256, Enc::Jwk, true, false)
        .key("p2", KT::P256, Enc::Jwk, true, false)
        .key("e1", KT::Ed25519, Enc::Jwk, false, true)
        .key("e2", KT::Ed25519, Enc::B58, false, true)
        .key("e3", KT::Ed25519, Enc::Mb, false, true)
        .key("s1", KT::P256, Enc::Jwk, false, true)
        .key("k1", KT::K256, Enc::Jwk, false, true)
}

pub fn docs_of(ps: &[Party]) -> Vec<DIDDoc> {
    ps.iter().map(|p| p.doc()).collect()
}
