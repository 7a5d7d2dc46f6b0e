use crate::engine::{Env, Plan, Rec};
use crate::msgs::{simple, ANON};
use crate::ops::*;
use crate::world::*;
use didcomm::algorithms::{AnonCryptAlg, AuthCryptAlg};
use didcomm::did::{DIDDoc, ServiceKind, VerificationMaterial};
use didcomm::error::ErrorKind;
use didcomm::protocols::routing::{try_parse_forward, wrap_in_forward};
use didcomm::secrets::{Secret, SecretMaterial};
use didcomm::{FromPrior, Message, PackEncryptedMetadata, PackEncryptedOptions, UnpackMetadata, UnpackOptions};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use wasm_bindgen::{Host, JsValue, Kind};

fn js(v: &Value) -> JsValue {
    JsValue::of_json(v)
}
fn back(v: &JsValue) -> Value {
    v.into_serde().unwrap_or(Value::Null)
}

// ---- the documented JavaScript shapes, by hand ----

fn doc_js(d: &DIDDoc) -> Value {
    let vm: Vec<Value> = d
        .verification_method
        .iter()
        .map(|m| {
            let (k, v) = match &m.verification_material {
                VerificationMaterial::JWK { public_key_jwk } => ("publicKeyJwk", public_key_jwk.clone()),
                VerificationMaterial::Multibase { public_key_multibase } => ("publicKeyMultibase", json!(public_key_multibase)),
                VerificationMaterial::Base58 { public_key_base58 } => ("publicKeyBase58", json!(public_key_base58)),
            };
            json!({"id": m.id, "type": format!("{:?}", m.type_), "controller": m.controller, k: v})
        })
        .collect();
    let service: Vec<Value> = d
        .service
        .iter()
        .map(|s| match &s.service_endpoint {
            ServiceKind::DIDCommMessaging { value } => {
                let mut e = json!({"uri": value.uri, "routingKeys": value.routing_keys});
                if let Some(a) = &value.accept {
                    e["accept"] = json!(a);
                }
                json!({"id": s.id, "type": "DIDCommMessaging", "serviceEndpoint": e})
            }
            ServiceKind::Other { value } => json!({"id": s.id, "type": "Other", "serviceEndpoint": value}),
        })
        .collect();
    json!({"id": d.id, "keyAgreement": d.key_agreement, "authentication": d.authentication, "verificationMethod": vm, "service": service})
}
fn secret_js(s: &Secret) -> Value {
    let (k, v) = match &s.secret_material {
        SecretMaterial::JWK { private_key_jwk } => ("privateKeyJwk", private_key_jwk.clone()),
        SecretMaterial::Multibase { private_key_multibase } => ("privateKeyMultibase", json!(private_key_multibase)),
        SecretMaterial::Base58 { private_key_base58 } => ("privateKeyBase58", json!(private_key_base58)),
    };
    json!({"id": s.id, "type": format!("{:?}", s.type_), k: v})
}
fn anon_js(a: &AnonCryptAlg) -> &'static str {
    match a {
        AnonCryptAlg::A256cbcHs512EcdhEsA256kw => "A256cbcHs512EcdhEsA256kw",
        AnonCryptAlg::Xc20pEcdhEsA256kw => "Xc20pEcdhEsA256kw",
        AnonCryptAlg::A256gcmEcdhEsA256kw => "A256gcmEcdhEsA256kw",
    }
}
fn auth_js(a: &AuthCryptAlg) -> &'static str {
    match a {
        AuthCryptAlg::A256cbcHs512Ecdh1puA256kw => "A256cbcHs512Ecdh1puA256kw",
    }
}
/// `terse`: leave out what equals the documented default.
fn pack_opts_js(o: &PackEncryptedOptions, terse: bool) -> Value {
    let mut v = Map::new();
    let mut put = |k: &str, x: Value, default: bool| {
        if !(terse && default) {
            v.insert(k.into(), x);
        }
    };
    put("protect_sender", json!(o.protect_sender), !o.protect_sender);
    put("forward", json!(o.forward), o.forward);
    put("forward_headers", json!(o.forward_headers), o.forward_headers.is_none());
    put("messaging_service", json!(o.messaging_service), o.messaging_service.is_none());
    put("enc_alg_auth", json!(auth_js(&o.enc_alg_auth)), o.enc_alg_auth == AuthCryptAlg::A256cbcHs512Ecdh1puA256kw);
    put("enc_alg_anon", json!(anon_js(&o.enc_alg_anon)), o.enc_alg_anon == AnonCryptAlg::Xc20pEcdhEsA256kw);
    Value::Object(v)
}
fn unpack_opts_js(all: bool, unwrap: bool, terse: bool) -> Value {
    let mut v = Map::new();
    if !(terse && !all) {
        v.insert("expect_decrypt_by_all_keys".into(), json!(all));
    }
    // documented default: false (the native `Default` differs)
    if !(terse && !unwrap) {
        v.insert("unwrap_re_wrapping_forward".into(), json!(unwrap));
    }
    Value::Object(v)
}
fn fp_js(f: &FromPrior) -> Value {
    json!({"iss": f.iss, "sub": f.sub, "aud": f.aud, "exp": f.exp, "nbf": f.nbf, "iat": f.iat, "jti": f.jti})
}
/// Members that are absent and members that are null are the same.
fn lean(v: Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(o.into_iter().filter(|(_, v)| !v.is_null()).collect()),
        v => v,
    }
}
fn enc_meta(m: &PackEncryptedMetadata) -> Value {
    let s = m.messaging_service.as_ref().map(|s| json!({"id": s.id, "service_endpoint": s.service_endpoint}));
    lean(json!({"messaging_service": s, "from_kid": m.from_kid, "sign_by_kid": m.sign_by_kid, "to_kids": m.to_kids}))
}
fn unpack_meta(m: &UnpackMetadata) -> Value {
    lean(json!({
        "encrypted": m.encrypted, "authenticated": m.authenticated, "non_repudiation": m.non_repudiation,
        "anonymous_sender": m.anonymous_sender, "re_wrapped_in_forward": m.re_wrapped_in_forward,
        "encrypted_from_kid": m.encrypted_from_kid, "encrypted_to_kids": m.encrypted_to_kids, "sign_from": m.sign_from,
        "from_prior_issuer_kid": m.from_prior_issuer_kid,
        "enc_alg_auth": m.enc_alg_auth.as_ref().map(auth_js), "enc_alg_anon": m.enc_alg_anon.as_ref().map(anon_js),
        "sign_alg": m.sign_alg.as_ref().map(|a| format!("{a:?}")), "signed_message": m.signed_message,
        "from_prior": m.from_prior.as_ref().map(|f| lean(fp_js(f))),
    }))
}
fn name_of(k: ErrorKind) -> String {
    format!("DIDComm{k:?}")
}

/// What an operation gives, in JavaScript terms.
#[derive(Clone, Debug, PartialEq)]
enum Res {
    Text(String, Value),
    Msg(Value, Value),
    /// name, message
    Err(String, String),
}
impl Res {
    fn label(&self) -> String {
        match self {
            Res::Text(..) => "packed".into(),
            Res::Msg(..) => "unpacked".into(),
            Res::Err(n, _) => n.clone(),
        }
    }
    fn canon(&self, world: &[Party]) -> String {
        match self {
            Res::Text(t, m) => match canon(t, world) {
                Ok(v) => format!("{v} {m}"),
                Err(e) => format!("unreadable: {e}"),
            },
            Res::Msg(m, md) => format!("{m} {md}"),
            Res::Err(n, _) => n.clone(),
        }
    }
}

fn native(op: &Op, net: &Net) -> Res {
    block_on(async {
        let r = match op {
            Op::Plain { msg } => msg.pack_plaintext(net).await.map(|t| Res::Text(t, Value::Null)),
            Op::Signed { msg, by } => {
                msg.pack_signed(by, net, net).await.map(|(t, m)| Res::Text(t, json!({"sign_by_kid": m.sign_by_kid})))
            }
            Op::Enc { msg, to, from, sign, opts } => msg
                .pack_encrypted(to, from.as_deref(), sign.as_deref(), net, net, opts)
                .await
                .map(|(t, m)| Res::Text(t, enc_meta(&m))),
            Op::Unpack { text, all, unwrap } => {
                let o = UnpackOptions { expect_decrypt_by_all_keys: *all, unwrap_re_wrapping_forward: *unwrap };
                Message::unpack(text, net, net, &o).await.map(|(m, md)| Res::Msg(crate::layers::ref_json(&m), unpack_meta(&md)))
            }
            Op::FpPack { fp, kid } => fp.pack(kid.as_deref(), net, net).await.map(|(t, k)| Res::Text(t, json!(k))),
            Op::FpUnpack { jwt } => FromPrior::unpack(jwt, net).await.map(|(f, k)| Res::Msg(lean(fp_js(&f)), json!(k))),
            Op::Wrap { text, headers, to, keys, alg } => {
                wrap_in_forward(text, headers.as_ref(), to, keys, alg, net).await.map(|t| Res::Text(t, Value::Null))
            }
        };
        r.unwrap_or_else(|e| Res::Err(name_of(e.kind()), e.to_string()))
    })
}

// ---- resolvers in JavaScript ----

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum When {
    /// returned (or thrown) as such, no promise
    Plain,
    /// in a promise that is settled already
    Settled,
    /// in a promise that settles when the explorer says so
    Later,
}
const WHENS: [When; 3] = [When::Plain, When::Settled, When::Later];
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum How {
    Honest,
    Null,
    Undefined,
    Liar,
    /// `Error` whose name is the one of a DIDComm error
    Named(usize),
    /// `Error` of another name
    Foreign(usize),
    /// something else thrown
    Odd(usize),
    /// an answer that is not of the declared type
    Garbage(usize),
    Reversed,
    Extra,
    Doubled,
    /// more members than declared
    Richer,
}
const INJECTED: &str = "injected resolver failure";
fn foreign(i: usize) -> (JsValue, &'static str) {
    let names = ["Error", "TypeError", "", "DIDComm", "DIDCommMalformedX", "didcommmalformed", "Malformed"];
    (JsValue::error(names[i], INJECTED), INJECTED)
}
fn odd(i: usize) -> JsValue {
    match i {
        0 => INJECTED.into(),
        1 => "DIDCommMalformed".into(),
        2 => "".into(),
        3 => JsValue::UNDEFINED,
        4 => JsValue::NULL,
        5 => 7.5.into(),
        6 => js(&json!({"name": "DIDCommMalformed", "message": "no Error"})),
        _ => js(&json!(["x"])),
    }
}
fn garbage(call: &str, i: usize) -> JsValue {
    let l = if call.starts_with("find") {
        vec![json!(null), json!({}), json!("did:example:x#y"), json!(3), json!(true), json!({"length": 1, "0": "x"})]
    } else {
        vec![json!([]), json!({}), json!("did:example:x"), json!(3), json!(false), json!({"id": "did:example:x"})]
    };
    js(&l[i])
}
fn all_hows() -> Vec<How> {
    let mut v = vec![How::Null, How::Undefined, How::Liar, How::Reversed, How::Extra, How::Doubled, How::Richer];
    v.extend((0..KINDS.len()).map(How::Named));
    v.extend((0..7).map(How::Foreign));
    v.extend((0..8).map(How::Odd));
    v.extend((0..6).map(How::Garbage));
    v
}
fn invalid_state() -> Fault {
    Fault::Err(ErrorKind2(KINDS.iter().position(|k| *k == ErrorKind::InvalidState).unwrap()))
}
impl How {
    fn applies(self, call: &str) -> bool {
        let find = call.starts_with("find");
        match self {
            How::Liar => !call.starts_with("resolve"),
            How::Reversed | How::Extra | How::Doubled => find,
            How::Null | How::Undefined | How::Richer => !find,
            _ => true,
        }
    }
    fn fault(self) -> Option<Fault> {
        match self {
            How::Null | How::Undefined => Some(Fault::None),
            How::Liar => Some(Fault::Liar),
            How::Named(k) => Some(Fault::Err(ErrorKind2(k))),
            How::Foreign(_) | How::Odd(_) | How::Garbage(_) => Some(invalid_state()),
            _ => None,
        }
    }
    /// What must be legible in the error's message.
    fn says(self) -> Option<String> {
        match self {
            How::Named(_) => Some(INJECTED.into()),
            How::Foreign(i) => Some(foreign(i).1.into()),
            How::Odd(i @ 0..=2) => odd(i).as_string(),
            _ => None,
        }
    }
}

type Answer = Result<JsValue, JsValue>;
#[derive(Default)]
struct St {
    calls: Vec<String>,
    odd: Vec<String>,
    plan: BTreeMap<usize, (When, How)>,
    default_when: Option<When>,
    pending: Vec<(JsValue, Answer)>,
}
struct Ctl {
    st: RefCell<St>,
    net: Net,
}
struct Obj(Rc<Ctl>, bool);
impl Host for Obj {
    fn invoke(&self, method: &str, args: &[JsValue]) -> Answer {
        let c = &self.0;
        let (what, honest, asked) = match (method, self.1) {
            ("resolve", false) => {
                let did = args[0].as_string().unwrap_or_default();
                (format!("resolve {did}"), c.net.docs.get(&did).map(|d| js(&doc_js(d))).unwrap_or(JsValue::NULL), vec![])
            }
            ("get_secret", true) => {
                let id = args[0].as_string().unwrap_or_default();
                let s = c.net.secrets.iter().find(|s| s.id == id);
                (format!("get_secret {id}"), s.map(|s| js(&secret_js(s))).unwrap_or(JsValue::NULL), vec![])
            }
            ("find_secrets", true) => {
                let ids: Vec<String> = match &args[0].0 {
                    Kind::Array(a) => a.borrow().iter().map(|x| x.as_string().unwrap_or_default()).collect(),
                    _ => vec![],
                };
                let f: Vec<&String> = ids.iter().filter(|i| c.net.secrets.iter().any(|s| s.id == **i)).collect();
                (format!("find_secrets {}", ids.join(",")), js(&json!(f)), ids)
            }
            _ => return Err(JsValue::error("TypeError", "is not a function")),
        };
        let mut st = c.st.borrow_mut();
        let want = if method == "find_secrets" { args.len() == 1 && args[0].is_array() } else { args.len() == 1 && args[0].is_string() };
        if !want {
            st.odd.push(format!("{method} called with {args:?}"));
        }
        let i = st.calls.len();
        st.calls.push(what.clone());
        let d = st.default_when.unwrap_or(When::Settled);
        let (when, how) = st.plan.get(&i).copied().unwrap_or((d, How::Honest));
        let list = || -> Vec<Value> { back(&honest).as_array().cloned().unwrap_or_default() };
        let answer: Answer = match how {
            How::Honest => Ok(honest),
            How::Null => Ok(JsValue::NULL),
            How::Undefined => Ok(JsValue::UNDEFINED),
            How::Liar => Ok(if method == "find_secrets" { js(&json!(asked)) } else { JsValue::NULL }),
            How::Named(k) => Err(JsValue::error(&name_of(KINDS[k]), INJECTED)),
            How::Foreign(i) => Err(foreign(i).0),
            How::Odd(i) => Err(odd(i)),
            How::Garbage(i) => Ok(garbage(&what, i)),
            How::Reversed => Ok(js(&Value::Array(list().into_iter().rev().collect()))),
            How::Doubled => Ok(js(&Value::Array(list().into_iter().chain(list()).collect()))),
            How::Extra => {
                let mut l = vec![json!("did:example:stranger#key")];
                l.extend(list());
                l.push(json!(""));
                Ok(js(&Value::Array(l)))
            }
            How::Richer => {
                let mut v = back(&honest);
                if let Value::Object(o) = &mut v {
                    o.insert("@context".into(), json!(["https://www.w3.org/ns/did/v1"]));
                    o.insert("extra".into(), json!({"a": [null, 1.5]}));
                }
                Ok(js(&v))
            }
        };
        match when {
            When::Plain => answer,
            When::Settled => {
                let p = JsValue::promise();
                p.settle(answer);
                Ok(p)
            }
            When::Later => {
                let p = JsValue::promise();
                st.pending.push((p.clone(), answer));
                Ok(p)
            }
        }
    }
}

struct Session {
    ctl: Rc<Ctl>,
}
impl Drop for Session {
    fn drop(&mut self) {
        wasm_bindgen::clear();
    }
}
/// An operation that is under way, or was refused at once.
struct Run {
    promise: JsValue,
    refused: Option<JsValue>,
}
fn jsmsg(m: &Message) -> Result<didcomm_js::Message, JsValue> {
    didcomm_js::Message::new(js(&crate::layers::ref_json(m)).into())
}
fn jsfp(f: &FromPrior) -> Result<didcomm_js::FromPrior, JsValue> {
    didcomm_js::FromPrior::new(js(&lean(fp_js(f))).into())
}
impl Session {
    fn new(net: Net, when: When, plan: BTreeMap<usize, (When, How)>) -> Session {
        wasm_bindgen::clear();
        Session { ctl: Rc::new(Ctl { st: RefCell::new(St { plan, default_when: Some(when), ..Default::default() }), net }) }
    }
    fn resolvers(&self) -> (didcomm_js::DIDResolver, didcomm_js::SecretsResolver) {
        (JsValue::host(Obj(self.ctl.clone(), false)).into(), JsValue::host(Obj(self.ctl.clone(), true)).into())
    }
    /// Starts an operation; the JavaScript objects it was given are let go of at once.
    fn start(&self, op: &Op, terse: bool) -> Run {
        let (d, s) = self.resolvers();
        let none = || JsValue::UNDEFINED;
        let p: Result<JsValue, JsValue> = (|| {
            Ok(match op.clone() {
                Op::Plain { msg } => jsmsg(&msg)?.pack_plaintext(d).into(),
                Op::Signed { msg, by } => jsmsg(&msg)?.pack_signed(by, d, s).into(),
                Op::Enc { msg, to, from, sign, opts } => {
                    jsmsg(&msg)?.pack_encrypted(to, from, sign, d, s, js(&pack_opts_js(&opts, terse))).into()
                }
                Op::Unpack { text, all, unwrap } => {
                    didcomm_js::Message::unpack(text, d, s, js(&unpack_opts_js(all, unwrap, terse))).into()
                }
                Op::FpPack { fp, kid } => jsfp(&fp)?.pack(kid, d, s).into(),
                Op::FpUnpack { jwt } => didcomm_js::FromPrior::unpack(jwt, d).into(),
                Op::Wrap { text, headers, to, keys, alg } => didcomm_js::Message::wrap_in_forward(
                    text,
                    js(&json!(headers.unwrap_or_default())),
                    to,
                    js(&json!(keys)),
                    anon_js(&alg).into(),
                    d,
                )
                .into(),
            })
        })();
        match p {
            Ok(promise) => Run { promise, refused: None },
            Err(e) => Run { promise: none(), refused: Some(e) },
        }
    }
    fn pending(&self) -> usize {
        self.ctl.st.borrow().pending.len()
    }
    fn deliver(&self, k: usize) {
        let (p, a) = self.ctl.st.borrow_mut().pending.remove(k);
        p.settle(a);
    }
    fn calls(&self) -> Vec<String> {
        self.ctl.st.borrow().calls.clone()
    }
    fn odd(&self) -> Vec<String> {
        self.ctl.st.borrow().odd.clone()
    }
    fn run(&self, op: &Op, terse: bool) -> Result<Res, String> {
        let r = self.start(op, terse);
        loop {
            wasm_bindgen::drain();
            if self.pending() == 0 {
                return outcome(op, &r);
            }
            self.deliver(0);
        }
    }
}
fn error_res(e: &JsValue) -> Result<Res, String> {
    match &e.0 {
        Kind::Error(x) => {
            let x = x.borrow();
            Ok(Res::Err(x.0.as_string().unwrap_or_default(), x.1.as_string().unwrap_or_default()))
        }
        _ => Err(format!("{e:?} was thrown, which is no Error")),
    }
}
fn outcome(op: &Op, r: &Run) -> Result<Res, String> {
    if let Some(e) = &r.refused {
        return error_res(e);
    }
    let v = match r.promise.result() {
        None => return Err("its promise never settles, with every resolver promise settled".into()),
        Some(Err(e)) => return error_res(&e),
        Some(Ok(v)) => v,
    };
    let pair = || -> Result<(JsValue, JsValue), String> {
        match &v.0 {
            Kind::Array(a) if a.borrow().len() == 2 => Ok((a.borrow()[0].clone(), a.borrow()[1].clone())),
            _ => Err(format!("resolved with {v:?}, which is no pair")),
        }
    };
    let text = |v: &JsValue| v.as_string().ok_or(format!("{v:?} is no string"));
    Ok(match op {
        Op::Plain { .. } | Op::Wrap { .. } => Res::Text(text(&v)?, Value::Null),
        Op::Signed { .. } | Op::Enc { .. } => {
            let (t, m) = pair()?;
            Res::Text(text(&t)?, lean(back(&m)))
        }
        Op::FpPack { .. } => {
            let (t, m) = pair()?;
            Res::Text(text(&t)?, json!(text(&m)?))
        }
        Op::Unpack { .. } => {
            let (t, m) = pair()?;
            let t = t.wrapped::<didcomm_js::Message>().ok_or("no Message came back")?;
            let mut md = lean(back(&m));
            if let Some(f) = md.get_mut("from_prior") {
                *f = lean(f.take());
            }
            Res::Msg(back(&t.as_value().map_err(|e| format!("{e:?}"))?), md)
        }
        Op::FpUnpack { .. } => {
            let (t, m) = pair()?;
            let t = t.wrapped::<didcomm_js::FromPrior>().ok_or("no FromPrior came back")?;
            Res::Msg(lean(back(&t.as_value().map_err(|e| format!("{e:?}"))?)), json!(text(&m)?))
        }
    })
}

/// `wrap_in_forward` without headers is only reachable with an empty set of them.
fn as_js(op: &Op) -> Op {
    match op.clone() {
        Op::Wrap { text, headers, to, keys, alg } => {
            Op::Wrap { text, headers: Some(headers.unwrap_or_default()), to, keys, alg }
        }
        o => o,
    }
}

#[allow(clippy::too_many_arguments)]
fn judge(rec: &mut Rec, world: &[Party], who: usize, op: &Op, when: When, plan: &BTreeMap<usize, (When, How)>, what: &str, terse: bool) -> Vec<String> {
    let mut net = net_of(world, who);
    net.faults = plan.iter().filter_map(|(i, (_, h))| h.fault().map(|f| (*i, f))).collect();
    let nat = native(op, &net);
    rec.begin(what);
    let s = Session::new(net_of(world, who), when, plan.clone());
    let got = rec.guarded(|| s.run(op, terse)).and_then(|x| x);
    let calls = s.calls();
    rec.eval(what, true);
    rec.traces += 1;
    rec.transitions += calls.len() as u64 + 1;
    let odd = s.odd();
    rec.check(odd.is_empty(), what, || odd.join("; "));
    match got {
        Err(e) => rec.fail(what, e),
        Ok(r) => {
            rec.outcome(r.label());
            // which error refuses an answer of the wrong type is not specified
            let vague = plan.values().any(|(_, h)| matches!(h, How::Garbage(_)))
                && matches!((&r, &nat), (Res::Err(..), Res::Err(..)));
            let (c, w) = (r.canon(world), nat.canon(world));
            rec.check(c == w || vague, what, || format!("JavaScript gave {c}\n the native interface {w}"));
            let n = net.calls();
            rec.check(n == calls, what, || format!("other lookups: {calls:?}\n native {n:?}"));
            if let Res::Err(name, msg) = &r {
                let known = KINDS.iter().any(|k| name_of(*k) == *name);
                rec.check(known, what, || format!("an error named {name:?}"));
                if plan.values().all(|(_, h)| *h == How::Honest) {
                    if let Res::Err(_, m) = &nat {
                        rec.check(*m == *msg, what, || format!("message {msg:?}\n instead of {m:?}"));
                    }
                } else if let [(_, h)] = plan.values().copied().collect::<Vec<_>>()[..] {
                    // the operation fails with what the resolver threw
                    if let (Some(t), true) = (h.says(), h.fault().is_some()) {
                        rec.check(msg.contains(&t), what, || format!("{t:?} was thrown, the error says {msg:?}"));
                    }
                }
            }
        }
    }
    for k in 0..=calls.len() {
        rec.state(&(calls[..k].join("|"), op.inputs(), k == calls.len()));
    }
    calls
}

/// Operations whose every parameter differs from its default.
fn parameter_ops(world: &[Party]) -> Vec<(String, usize, Op)> {
    let (a, b) = (world[ALICE].did.clone(), world[BOB].did.clone());
    let m = simple(Some(&a), Some(&b), "parameters");
    let mut v = vec![];
    for (ni, anon) in ANON.iter().enumerate() {
        for bits in 0..32u32 {
            let hdr = (bits & 4 != 0).then(|| [("note".to_string(), json!([1])), ("expires".to_string(), json!("x"))].into());
            let op = Op::Enc {
                msg: m.clone(),
                to: b.clone(),
                from: (bits & 16 != 0).then(|| a.clone()),
                sign: (bits & 8 != 0).then(|| a.clone()),
                opts: PackEncryptedOptions {
                    protect_sender: bits & 1 != 0,
                    forward: bits & 2 != 0,
                    forward_headers: hdr,
                    messaging_service: (bits & 6 == 2).then(|| format!("{b}#s")),
                    enc_alg_auth: AuthCryptAlg::A256cbcHs512Ecdh1puA256kw,
                    enc_alg_anon: anon.clone(),
                },
            };
            v.push((format!("enc-{ni}-{bits}"), ALICE, op));
        }
    }
    for (ni, anon) in ANON.iter().enumerate() {
        for h in 0..3 {
            let headers: HashMap<String, Value> = match h {
                0 => Default::default(),
                1 => [("note".to_string(), json!("x"))].into(),
                _ => [("a".to_string(), json!({"b": [null, 1.5]})), ("c".to_string(), Value::Null)].into(),
            };
            for (ki, keys) in [vec![world[M1].did.clone()], vec![world[M1].kid("x2"), world[M2].did.clone()], vec![]].into_iter().enumerate() {
                let op = Op::Wrap { text: "{\"x\":1}".into(), headers: Some(headers.clone()), to: b.clone(), keys, alg: anon.clone() };
                v.push((format!("wrap-{ni}{h}{ki}"), ALICE, op));
            }
        }
    }
    for s in scenarios(world) {
        if let Op::Unpack { text, .. } = s.op {
            for bits in 0..4u32 {
                for who in [BOB, M1, ALICE] {
                    let op = Op::Unpack { text: text.clone(), all: bits & 1 != 0, unwrap: bits & 2 != 0 };
                    v.push((format!("{}-{bits}-{who}", s.name), who, op));
                }
            }
        }
    }
    for t in ["", "{}", "null", "{\"ciphertext\":1}", "a.b.c"] {
        v.push((format!("unpack-text-{t}"), BOB, Op::unpack(t)));
        v.push((format!("token-text-{t}"), BOB, Op::FpUnpack { jwt: t.into() }));
    }
    v
}

fn small_json(depth: u32) -> Vec<Value> {
    let mut v = vec![
        json!(null), json!(true), json!(false), json!(0), json!(-1), json!(9007199254740991u64), json!(-9007199254740991i64),
        json!(1.5), json!(-0.25), json!(""), json!("a\u{0}\"\\/\u{7f}é\u{1F600}\u{2028}"),
    ];
    if depth > 0 {
        let sub = small_json(depth - 1);
        v.push(json!([]));
        v.push(json!({}));
        for x in &sub {
            v.push(json!([x]));
            v.push(json!({"": x}));
            v.push(json!({"k\"é": x, "z": [x, x]}));
        }
    }
    v
}
include!("c29_plan.rs");
