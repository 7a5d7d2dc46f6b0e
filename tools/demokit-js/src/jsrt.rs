//! The JavaScript side: resolvers that answer from a Net, and a run loop.
#![allow(dead_code)]
use crate::world::*;
use didcomm::did::{DIDDoc, ServiceKind, VerificationMaterial};
use didcomm::secrets::{Secret, SecretMaterial};
use serde_json::{json, Value};
use std::rc::Rc;
pub use wasm_bindgen::{Host, JsValue, Kind};
pub type Answer = Result<JsValue, JsValue>;

pub fn js(v: &Value) -> JsValue {
    JsValue::of_json(v)
}
pub fn back(v: &JsValue) -> Value {
    v.into_serde().unwrap_or(Value::Null)
}
pub fn doc_js(d: &DIDDoc) -> Value {
    let vm: Vec<Value> = d
        .verification_method
        .iter()
        .map(|m| {
            let (k, v) = match &m.verification_material {
                VerificationMaterial::JWK { public_key_jwk } => ("publicKeyJwk", public_key_jwk.clone()),
                VerificationMaterial::Multibase { public_key_multibase } => ("publicKeyMultibase", json!(public_key_multibase)),
                VerificationMaterial::Base58 { public_key_base58 } => ("publicKeyBase58", json!(public_key_base58)),
            };
            json!({"id": m.id, "type": format!("{:?}", m.type_), "controller": m.controller, k: v})
        })
        .collect();
    let service: Vec<Value> = d
        .service
        .iter()
        .map(|s| match &s.service_endpoint {
            ServiceKind::DIDCommMessaging { value } => {
                let mut e = json!({"uri": value.uri, "routingKeys": value.routing_keys});
                if let Some(a) = &value.accept {
                    e["accept"] = json!(a);
                }
                json!({"id": s.id, "type": "DIDCommMessaging", "serviceEndpoint": e})
            }
            ServiceKind::Other { value } => json!({"id": s.id, "type": "Other", "serviceEndpoint": value}),
        })
        .collect();
    json!({"id": d.id, "keyAgreement": d.key_agreement, "authentication": d.authentication, "verificationMethod": vm, "service": service})
}
pub fn secret_js(s: &Secret) -> Value {
    let (k, v) = match &s.secret_material {
        SecretMaterial::JWK { private_key_jwk } => ("privateKeyJwk", private_key_jwk.clone()),
        SecretMaterial::Multibase { private_key_multibase } => ("privateKeyMultibase", json!(private_key_multibase)),
        SecretMaterial::Base58 { private_key_base58 } => ("privateKeyBase58", json!(private_key_base58)),
    };
    json!({"id": s.id, "type": format!("{:?}", s.type_), k: v})
}
/// Turns an honest answer into the one given: (method, argument, honest answer).
pub type Twist = Rc<dyn Fn(&str, &str, JsValue) -> Answer>;
struct Obj(Rc<Net>, bool, Twist);
impl Host for Obj {
    fn invoke(&self, method: &str, args: &[JsValue]) -> Answer {
        let c = &self.0;
        let arg = args[0].as_string().unwrap_or_default();
        let honest = match (method, self.1) {
            ("resolve", false) => c.docs.get(&arg).map(|d| js(&doc_js(d))).unwrap_or(JsValue::NULL),
            ("get_secret", true) => c.secrets.iter().find(|s| s.id == arg).map(|s| js(&secret_js(s))).unwrap_or(JsValue::NULL),
            ("find_secrets", true) => {
                let ids: Vec<String> = match &args[0].0 {
                    Kind::Array(a) => a.borrow().iter().map(|x| x.as_string().unwrap_or_default()).collect(),
                    _ => vec![],
                };
                let f: Vec<&String> = ids.iter().filter(|i| c.secrets.iter().any(|s| s.id == **i)).collect();
                js(&json!(f))
            }
            _ => return Err(JsValue::error("TypeError", "is not a function")),
        };
        let p = JsValue::promise();
        p.settle((self.2)(method, &arg, honest));
        Ok(p)
    }
}
pub fn resolvers_with(net: &Rc<Net>, twist: Twist) -> (didcomm_js::DIDResolver, didcomm_js::SecretsResolver) {
    (
        JsValue::host(Obj(net.clone(), false, twist.clone())).into(),
        JsValue::host(Obj(net.clone(), true, twist)).into(),
    )
}
pub fn resolvers(net: &Rc<Net>) -> (didcomm_js::DIDResolver, didcomm_js::SecretsResolver) {
    resolvers_with(net, Rc::new(|_, _, h| Ok(h)))
}
/// Runs all jobs; what the promise resolved with, or name and message of the Error it was rejected with.
pub fn settled(p: impl Into<JsValue>) -> Result<JsValue, (String, String)> {
    let p: JsValue = p.into();
    wasm_bindgen::drain();
    match p.result().expect("the promise settles") {
        Ok(v) => Ok(v),
        Err(e) => Err(err(&e)),
    }
}
pub fn err(e: &JsValue) -> (String, String) {
    match &e.0 {
        Kind::Error(x) => (x.borrow().0.as_string().unwrap_or_default(), x.borrow().1.as_string().unwrap_or_default()),
        _ => (format!("{e:?}"), String::new()),
    }
}
/// The two halves of a result pair.
pub fn pair(v: &JsValue) -> (JsValue, JsValue) {
    match &v.0 {
        Kind::Array(a) if a.borrow().len() == 2 => (a.borrow()[0].clone(), a.borrow()[1].clone()),
        _ => panic!("no pair: {v:?}"),
    }
}
pub fn message(m: &didcomm::Message) -> didcomm_js::Message {
    didcomm_js::Message::new(js(&crate::layers::ref_json(m)).into()).map_err(|e| err(&e)).unwrap()
}
