//! C20: DID documents and secrets keep their meaning through JSON; the bundled resolvers look up exactly.
use crate::engine::{Env, Plan, Rec};
use crate::mutate::{get, nodes, render, show, with, without, El, Style};
use crate::world::block_on;
use didcomm::did::resolvers::ExampleDIDResolver;
use didcomm::did::*;
use didcomm::secrets::resolvers::ExampleSecretsResolver;
use didcomm::secrets::*;
use serde_json::{json, Value};

pub const METHODS: [(&str, VerificationMethodType); 7] = [
    ("JsonWebKey2020", VerificationMethodType::JsonWebKey2020),
    ("X25519KeyAgreementKey2019", VerificationMethodType::X25519KeyAgreementKey2019),
    ("Ed25519VerificationKey2018", VerificationMethodType::Ed25519VerificationKey2018),
    ("EcdsaSecp256k1VerificationKey2019", VerificationMethodType::EcdsaSecp256k1VerificationKey2019),
    ("X25519KeyAgreementKey2020", VerificationMethodType::X25519KeyAgreementKey2020),
    ("Ed25519VerificationKey2020", VerificationMethodType::Ed25519VerificationKey2020),
    ("Other", VerificationMethodType::Other),
];
const SECRETS: [(&str, SecretType); 7] = [
    ("JsonWebKey2020", SecretType::JsonWebKey2020),
    ("X25519KeyAgreementKey2019", SecretType::X25519KeyAgreementKey2019),
    ("Ed25519VerificationKey2018", SecretType::Ed25519VerificationKey2018),
    ("EcdsaSecp256k1VerificationKey2019", SecretType::EcdsaSecp256k1VerificationKey2019),
    ("X25519KeyAgreementKey2020", SecretType::X25519KeyAgreementKey2020),
    ("Ed25519VerificationKey2020", SecretType::Ed25519VerificationKey2020),
    ("Other", SecretType::Other),
];

/// What a document means, field by field (the library's types have no equality).
fn meaning(d: &DIDDoc) -> Value {
    json!({
        "id": d.id, "ka": d.key_agreement, "auth": d.authentication,
        "vm": d.verification_method.iter().map(meaning_vm).collect::<Vec<_>>(),
        "svc": d.service.iter().map(meaning_svc).collect::<Vec<_>>(),
    })
}
fn meaning_vm(v: &VerificationMethod) -> Value {
    let (k, m) = match &v.verification_material {
        VerificationMaterial::JWK { public_key_jwk } => ("publicKeyJwk", public_key_jwk.clone()),
        VerificationMaterial::Multibase { public_key_multibase } => ("publicKeyMultibase", json!(public_key_multibase)),
        VerificationMaterial::Base58 { public_key_base58 } => ("publicKeyBase58", json!(public_key_base58)),
    };
    json!([v.id, format!("{:?}", v.type_), v.controller, k, m])
}
fn meaning_svc(s: &Service) -> Value {
    match &s.service_endpoint {
        ServiceKind::DIDCommMessaging { value: v } => json!([s.id, "didcomm", v.uri, v.accept, v.routing_keys]),
        ServiceKind::Other { value } => json!([s.id, "other", value]),
    }
}
fn meaning_secret(s: &Secret) -> Value {
    let (k, m) = match &s.secret_material {
        SecretMaterial::JWK { private_key_jwk } => ("privateKeyJwk", private_key_jwk.clone()),
        SecretMaterial::Multibase { private_key_multibase } => ("privateKeyMultibase", json!(private_key_multibase)),
        SecretMaterial::Base58 { private_key_base58 } => ("privateKeyBase58", json!(private_key_base58)),
    };
    json!([s.id, format!("{:?}", s.type_), k, m])
}

/// The DID-core JSON of a document, written independently of the library.
fn ref_doc(d: &DIDDoc) -> Value {
    json!({
        "id": d.id, "keyAgreement": d.key_agreement, "authentication": d.authentication,
        "verificationMethod": d.verification_method.iter().map(|v| {
            let m = meaning_vm(v);
            let mut o = json!({"id": v.id, "type": method_name(&v.type_), "controller": v.controller});
            o[m[3].as_str().unwrap()] = m[4].clone();
            o
        }).collect::<Vec<_>>(),
        "service": d.service.iter().map(|s| match &s.service_endpoint {
            ServiceKind::DIDCommMessaging { value: v } => {
                let mut e = json!({"uri": v.uri, "routingKeys": v.routing_keys});
                if let Some(a) = &v.accept {
                    e["accept"] = json!(a);
                }
                json!({"id": s.id, "type": "DIDCommMessaging", "serviceEndpoint": e})
            }
            ServiceKind::Other { value } => json!({"id": s.id, "type": "Other", "serviceEndpoint": value}),
        }).collect::<Vec<_>>(),
    })
}
fn method_name(t: &VerificationMethodType) -> &'static str {
    let d = format!("{t:?}");
    METHODS.iter().find(|(_, x)| format!("{x:?}") == d).unwrap().0
}
fn ref_secret(s: &Secret) -> Value {
    let m = meaning_secret(s);
    let d = format!("{:?}", s.type_);
    let mut o = json!({"id": s.id, "type": SECRETS.iter().find(|(_, x)| format!("{x:?}") == d).unwrap().0});
    o[m[2].as_str().unwrap()] = m[3].clone();
    o
}

fn parse_doc(t: &str) -> Result<Value, String> {
    serde_json::from_str::<DIDDoc>(t).map(|d| meaning(&d)).map_err(|e| e.to_string())
}
fn parse_secret(t: &str) -> Result<Value, String> {
    serde_json::from_str::<Secret>(t).map(|d| meaning_secret(&d)).map_err(|e| e.to_string())
}

fn doc_trip(rec: &mut Rec, what: &str, d: &DIDDoc) {
    rec.eval(&(what, ref_doc(d).to_string()), true);
    let want = meaning(d);
    match serde_json::to_value(d) {
        Err(e) => rec.fail(what, format!("does not serialise: {e}")),
        Ok(v) => {
            rec.check(v == ref_doc(d), what, || format!("serialised {v}, DID-core form is {}", ref_doc(d)));
            let t = serde_json::to_string(d).unwrap();
            rec.check(parse_doc(&t).as_ref() == Ok(&want), what, || format!("{t} parses to {:?}", parse_doc(&t)));
            let p = serde_json::to_string_pretty(d).unwrap();
            rec.check(parse_doc(&p).as_ref() == Ok(&want), what, || "pretty form parses to something else".into());
            rec.check(serde_json::from_value::<DIDDoc>(v.clone()).map(|d| meaning(&d)).ok().as_ref() == Some(&want), what, || "value form parses to something else".into());
            rec.check(serde_json::from_slice::<DIDDoc>(t.as_bytes()).map(|d| meaning(&d)).ok().as_ref() == Some(&want), what, || "slice form parses to something else".into());
            rec.sample(|| v);
        }
    }
    let r = ref_doc(d).to_string();
    rec.check(parse_doc(&r).as_ref() == Ok(&want), what, || format!("{r} parses to {:?}", parse_doc(&r)));
}

fn writings(v: &Value) -> Vec<(String, String)> {
    let mut out = vec![];
    for p in nodes(v) {
        let n = get(v, &p);
        let mut st = vec![Style::Space];
        if n.is_object() {
            st.push(Style::Reverse);
        }
        if n.is_string() {
            st.push(Style::Escape);
        }
        if matches!(p.last(), Some(El::K(_))) {
            st.push(Style::EscapeName);
        }
        for s in st {
            out.push((format!("{}:{s:?}", show(&p)), render(v, &p, s)));
        }
    }
    out
}

/// Is the node one whose wrong type must be noticed (not inside free-form values)?
fn structural(p: &[El]) -> bool {
    let ks: Vec<&str> = p.iter().filter_map(|e| if let El::K(k) = e { Some(k.as_str()) } else { None }).collect();
    match ks.as_slice() {
        [] => true,
        [a] => ["id", "keyAgreement", "authentication", "verificationMethod", "service"].contains(a),
        ["verificationMethod", a] => ["id", "type", "controller", "publicKeyMultibase", "publicKeyBase58"].contains(a),
        ["service", a] => ["id", "type", "serviceEndpoint"].contains(a),
        ["service", "serviceEndpoint", a] => ["uri", "accept", "routingKeys"].contains(a),
        _ => false,
    }
}

fn materials() -> Vec<(&'static str, Value)> {
    let mut v = vec![];
    for j in [
        json!({}),
        json!({"kty": "OKP", "crv": "X25519", "x": "avH0O2Y4tqLAq8y9zpianr8ajii5m4F_mICrzNlatXs"}),
        json!({"kty": "EC", "crv": "P-256", "x": "a", "y": "b", "kid": "k", "nested": {"": [null, 1.5, "é"]}}),
        json!("text"),
        json!([1]),
        json!(7),
    ] {
        v.push(("Jwk", j));
    }
    for s in ["", "z6LSm5B4fB9NA55xB7PSeMYTMS9sf8uboJvyZBaDLLSZ7Ryd", "é\"\\\u{1F600}\u{0}", "{}"] {
        v.push(("Multibase", json!(s)));
        v.push(("Base58", json!(s)));
    }
    v
}
fn vmat(kind: &str, v: &Value) -> VerificationMaterial {
    match kind {
        "Jwk" => VerificationMaterial::JWK { public_key_jwk: v.clone() },
        "Multibase" => VerificationMaterial::Multibase { public_key_multibase: v.as_str().unwrap().into() },
        _ => VerificationMaterial::Base58 { public_key_base58: v.as_str().unwrap().into() },
    }
}
fn smat(kind: &str, v: &Value) -> SecretMaterial {
    match kind {
        "Jwk" => SecretMaterial::JWK { private_key_jwk: v.clone() },
        "Multibase" => SecretMaterial::Multibase { private_key_multibase: v.as_str().unwrap().into() },
        _ => SecretMaterial::Base58 { private_key_base58: v.as_str().unwrap().into() },
    }
}
fn vm(id: &str, i: usize, kind: &str, m: &Value) -> VerificationMethod {
    VerificationMethod { id: id.into(), type_: METHODS[i].1.clone(), controller: "did:example:c".into(), verification_material: vmat(kind, m) }
}
fn services() -> Vec<Service> {
    let mut out = vec![];
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    for uri in ["", "http://x/é?q#f", "did:example:m1"] {
        for accept in [None, Some(s(&[])), Some(s(&["didcomm/v2"])), Some(s(&["didcomm/aip2;env=rfc19", "didcomm/v2", "didcomm/v2"]))] {
            for rk in [s(&[]), s(&["did:example:m#k1"]), s(&["b", "a", "b"])] {
                out.push(Service {
                    id: format!("did:example:s#{}", out.len()),
                    service_endpoint: ServiceKind::DIDCommMessaging { value: DIDCommMessagingService { uri: uri.into(), accept: accept.clone(), routing_keys: rk } },
                });
            }
        }
    }
    for v in [json!({}), json!({"uri": "x"}), json!({"a": {"b": [1, null, "é"]}, "accept": 1, "": {}})] {
        out.push(Service { id: format!("did:example:s#{}", out.len()), service_endpoint: ServiceKind::Other { value: v } });
    }
    out
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C20",
        "exploration",
        "all documents over method types x material kinds and values x service kinds and optional members x list lengths, all \
         secrets likewise: serialised form must equal the independently written DID-core form, and every permitted writing of it \
         (order, spacing, escapes, unknown members) must parse to the same meaning; wrong or missing required members must be \
         refused, never defaulted; all small resolver contents x all query lists over stored and near-miss identifiers. \
         Non-trivial: each evaluation compares a parse, a serialisation or a lookup with its reference",
    );
    p.bounds = json!({"list_length": 3, "stored": 3, "query_length": 3});
    // single methods and secrets
    for i in 0..7 {
        p.case(format!("method/{}", METHODS[i].0), move |rec| {
            for (mi, (kind, m)) in materials().into_iter().enumerate() {
                for (ii, id) in ["did:example:a#k", "", "#k", "é\"\\", "id"].into_iter().enumerate() {
                    let mut d = DIDDoc { id: id.into(), key_agreement: vec![], authentication: vec![], verification_method: vec![vm(id, i, kind, &m)], service: vec![] };
                    d.verification_method[0].controller = if ii == 1 { "".into() } else { format!("c{id}") };
                    doc_trip(rec, &format!("{mi}-{ii}"), &d);
                }
            }
        });
        p.case(format!("secret/{}", SECRETS[i].0), move |rec| {
            for (mi, (kind, m)) in materials().into_iter().enumerate() {
                for (ii, id) in ["did:example:a#k", "", "#k", "é\"\\", "id"].into_iter().enumerate() {
                    let what = format!("{mi}-{ii}");
                    let s = Secret { id: id.into(), type_: SECRETS[i].1.clone(), secret_material: smat(kind, &m) };
                    let want = meaning_secret(&s);
                    rec.eval(&what, true);
                    match serde_json::to_value(&s) {
                        Err(e) => rec.fail(&what, e.to_string()),
                        Ok(v) => {
                            rec.check(v == ref_secret(&s), &what, || format!("serialised {v}, expected {}", ref_secret(&s)));
                            let t = serde_json::to_string(&s).unwrap();
                            rec.check(parse_secret(&t).as_ref() == Ok(&want), &what, || format!("{t} parses to {:?}", parse_secret(&t)));
                            rec.check(serde_json::from_value::<Secret>(v.clone()).map(|s| meaning_secret(&s)).ok().as_ref() == Some(&want), &what, || "value form".into());
                            rec.sample(|| v);
                        }
                    }
                    let r = ref_secret(&s);
                    for (w, t) in writings(&r) {
                        rec.eval(&(&what, &w), true);
                        rec.check(parse_secret(&t).as_ref() == Ok(&want), format!("{what}:{w}"), || format!("{t} parses to {:?}", parse_secret(&t)));
                    }
                    for x in [json!(null), json!("x"), json!({"a": []})] {
                        for name in ["controller", "x", "", "privateKeyHex", "publicKeyJwk"] {
                            let mut w = r.clone();
                            w[name] = x.clone();
                            rec.eval(&(&what, name, x.to_string()), true);
                            rec.check(parse_secret(&w.to_string()).as_ref() == Ok(&want), format!("{what}:+{name}"), || format!("{w} parses to {:?}", parse_secret(&w.to_string())));
                        }
                    }
                    for n in nodes(&r) {
                        if n.len() != 1 {
                            continue;
                        }
                        let El::K(k) = &n[0] else { continue };
                        let t = without(&r, &n).to_string();
                        rec.eval(&(&what, "less", k), true);
                        rec.check(parse_secret(&t).is_err(), format!("{what}:-{k}"), || format!("{t} was accepted as {:?}", parse_secret(&t)));
                        if k == "privateKeyJwk" {
                            continue;
                        }
                        for x in [json!(null), json!(0), json!(true), json!([]), json!({})] {
                            let t = with(&r, &n, x).to_string();
                            rec.eval(&(&what, "type", &t), true);
                            rec.check(parse_secret(&t).is_err(), format!("{what}:{k}"), || format!("{t} was accepted as {:?}", parse_secret(&t)));
                        }
                    }
                    for bad in ["", "jsonWebKey2020", "JsonWebKey2020 ", "JSONWEBKEY2020", "X25519KeyAgreementKey"] {
                        let t = with(&r, &[El::K("type".into())], json!(bad)).to_string();
                        // an unknown type may be refused or taken as Other, never as another known one
                        rec.eval(&(&what, bad), true);
                        rec.check(parse_secret(&t).map_or(true, |m| m[1] == json!("Other")), format!("{what}:type-{bad}"), || format!("{t} parses to {:?}", parse_secret(&t)));
                    }
                }
            }
        });
    }
    // every list length and order
    for n in 0..4usize {
        p.case(format!("lists/{n}"), move |rec| {
            let names = ["did:example:a#1", "did:example:a#2", "did:example:b#1", "did:example:a#1"];
            let svc = services();
            let mats = materials();
            for a in 0..4 {
                for b in 0..4 {
                    for s in 0..4 {
                        for rot in 0..if full { mats.len() } else { 7 } {
                            let d = DIDDoc {
                                id: "did:example:a".into(),
                                key_agreement: (0..n).map(|i| names[(i + rot) % 4].into()).collect(),
                                authentication: (0..a).map(|i| names[(2 * i + rot) % 4].into()).collect(),
                                verification_method: (0..b).map(|i| vm(names[(i + rot) % 4], (i * 3 + rot) % 7, mats[(i + rot) % mats.len()].0, &mats[(i + rot) % mats.len()].1)).collect(),
                                service: (0..s).map(|i| svc[(i * 5 + rot + n) % svc.len()].clone()).collect(),
                            };
                            doc_trip(rec, &format!("{a}{b}{s}-{rot}"), &d);
                        }
                    }
                }
            }
        });
    }
    p.case("services", |rec| {
        for (i, s) in services().into_iter().enumerate() {
            let d = DIDDoc { id: "did:example:s".into(), key_agreement: vec![], authentication: vec![], verification_method: vec![], service: vec![s] };
            doc_trip(rec, &format!("{i}"), &d);
            // members that may be left out
            let ServiceKind::DIDCommMessaging { value } = &d.service[0].service_endpoint else { continue };
            let r = ref_doc(&d);
            let at = |k: &str| vec![El::K("service".into()), El::I(0), El::K("serviceEndpoint".into()), El::K(k.into())];
            if value.routing_keys.is_empty() {
                let t = without(&r, &at("routingKeys")).to_string();
                rec.eval(&t, true);
                rec.check(parse_doc(&t).as_ref() == Ok(&meaning(&d)), format!("{i}:no-keys"), || format!("{t} parses to {:?}", parse_doc(&t)));
            }
            if value.accept.is_none() {
                let t = with_new(&r, &at("accept"), Value::Null).to_string();
                rec.eval(&t, true);
                rec.check(parse_doc(&t).as_ref() == Ok(&meaning(&d)), format!("{i}:null-accept"), || format!("{t} parses to {:?}", parse_doc(&t)));
            }
            // the endpoint alone, as users parse it
            let e = &r["service"][0]["serviceEndpoint"];
            rec.eval(&("alone", e.to_string()), true);
            match serde_json::from_value::<DIDCommMessagingService>(e.clone()) {
                Ok(v) => {
                    rec.check(v.uri == value.uri && v.accept == value.accept && v.routing_keys == value.routing_keys, format!("{i}:alone"), || format!("{v:?}"));
                    rec.check(serde_json::to_value(&v).ok().as_ref() == Some(e), format!("{i}:alone"), || "serialises differently".into());
                }
                Err(x) => rec.fail(format!("{i}:alone"), x.to_string()),
            }
            rec.eval(&("svc", e.to_string()), true);
            match serde_json::from_value::<Service>(r["service"][0].clone()) {
                Ok(s) => {
                    rec.check(meaning_svc(&s) == meaning_svc(&d.service[0]), format!("{i}:service"), || format!("{s:?}"));
                }
                Err(x) => rec.fail(format!("{i}:service"), x.to_string()),
            }
        }
    });
    // writing variations and refusals on a document with everything
    for pick in 0..if full { 12 } else { 4 } {
        p.case(format!("written/{pick}"), move |rec| {
            let svc = services();
            let mats = materials();
            let d = DIDDoc {
                id: "did:example:a".into(),
                key_agreement: vec!["did:example:a#1".into(), "did:example:a#é\"".into()],
                authentication: vec!["did:example:a#3".into()],
                verification_method: (0..3).map(|i| vm(&format!("did:example:a#{i}"), (i + pick) % 7, mats[[1, 7, 8][(i + pick) % 3]].0, &mats[[1, 7, 8][(i + pick) % 3]].1)).collect(),
                service: vec![svc[(pick * 3 + 1) % 36].clone(), svc[(pick * 7 + 11) % 36].clone(), svc[36 + pick % 3].clone()],
            };
            let want = meaning(&d);
            let r = ref_doc(&d);
            for (w, t) in writings(&r) {
                rec.eval(&w, true);
                rec.check(parse_doc(&t).as_ref() == Ok(&want), &w, || format!("parses to {:?}", parse_doc(&t)));
            }
            for n in nodes(&r) {
                let v = get(&r, &n);
                let free = n.iter().any(|e| matches!(e, El::K(k) if k == "publicKeyJwk"))
                    || (n.first() == Some(&El::K("service".into())) && n.get(1) == Some(&El::I(2)) && n.len() > 2);
                if v.is_object() && !free {
                    for x in [json!(null), json!("x"), json!([{}])] {
                        for name in ["unknown", "", "@context", "alsoKnownAs", "assertionMethod", "priority", "publicKeyHex"] {
                            let t = {
                                let mut o = v.clone();
                                o[name] = x.clone();
                                with(&r, &n, o).to_string()
                            };
                            rec.eval(&(show(&n), name, x.to_string()), true);
                            rec.check(parse_doc(&t).as_ref() == Ok(&want), format!("{}+{name}", show(&n)), || format!("parses to {:?}", parse_doc(&t)));
                        }
                    }
                }
                if free || !structural(&n) {
                    continue;
                }
                let last = n.last();
                let optional = matches!(last, Some(El::K(k)) if k == "accept" || k == "routingKeys");
                if let Some(El::K(k)) = last {
                    let top = n.len() == 1 && k != "id";
                    let t = without(&r, &n).to_string();
                    rec.eval(&(show(&n), "less"), true);
                    let got = parse_doc(&t);
                    let ok = match &got {
                        Err(_) => !optional,
                        // a left-out list may at most be taken as empty
                        Ok(m) => {
                            let mut w = r.clone();
                            let empty = if k == "accept" { None } else { Some(json!([])) };
                            w = match empty {
                                None => without(&w, &n),
                                Some(e) => with(&w, &n, e),
                            };
                            (optional || top) && *m == meaning(&serde_json::from_value(w).unwrap())
                        }
                    };
                    rec.check(ok, format!("-{}", show(&n)), || format!("{t} gives {got:?}"));
                }
                for x in [json!(true), json!(0), json!({"a": 1}), json!("text"), json!([1])] {
                    // same JSON kind is not a type error
                    if (v.is_string() && x.is_string()) || (v.is_object() && x.is_object()) {
                        continue;
                    }
                    let t = with(&r, &n, x).to_string();
                    rec.eval(&(show(&n), &t), true);
                    rec.check(parse_doc(&t).is_err(), format!("~{}", show(&n)), || format!("{t} was accepted as {:?}", parse_doc(&t)));
                }
            }
            for bad in ["", "jsonWebKey2020", "JsonWebKey2020 ", "Ed25519VerificationKey", "Bls12381G2Key2020"] {
                let n = [El::K("verificationMethod".into()), El::I(0), El::K("type".into())];
                let t = with(&r, &n, json!(bad)).to_string();
                rec.eval(&("type", bad), true);
                rec.check(parse_doc(&t).map_or(true, |m| m["vm"][0][1] == json!("Other")), format!("type-{bad}"), || format!("{t} parses to {:?}", parse_doc(&t)));
            }
        });
    }
    // documents that also have methods and services of kinds unknown to the library
    for (name, at, v) in [
        ("method-type", "verificationMethod", json!({"id": "did:example:a#b", "type": "Bls12381G2Key2020", "controller": "did:example:a", "publicKeyBase58": "x"})),
        ("method-material", "verificationMethod", json!({"id": "did:example:a#b", "type": "Other", "controller": "did:example:a", "blockchainAccountId": "eip155:1:0xab"})),
        ("service-type", "service", json!({"id": "did:example:a#s", "type": "LinkedDomains", "serviceEndpoint": {"origins": ["https://x"]}})),
        ("service-text", "service", json!({"id": "did:example:a#s", "type": "Other", "serviceEndpoint": "https://x"})),
        ("service-near-lower", "service", json!({"id": "did:example:a#s", "type": "didcommmessaging", "serviceEndpoint": {"uri": "https://x", "accept": ["didcomm/v2"], "routingKeys": []}})),
        ("service-near-longer", "service", json!({"id": "did:example:a#s", "type": "DIDCommMessaging2", "serviceEndpoint": {"uri": "https://x"}})),
        ("service-near-shorter", "service", json!({"id": "did:example:a#s", "type": "DIDComm", "serviceEndpoint": {"uri": "https://x", "routingKeys": ["did:example:a#k"]}})),
        ("service-near-space", "service", json!({"id": "did:example:a#s", "type": " DIDCommMessaging", "serviceEndpoint": {"uri": "https://x"}})),
        ("service-near-empty", "service", json!({"id": "did:example:a#s", "type": "", "serviceEndpoint": {"uri": "https://x"}})),
    ] {
        p.case(format!("foreign/{name}"), move |rec| {
            for n in [0usize, 1, 2] {
                let svc = services();
                let mats = materials();
                let d = DIDDoc {
                    id: "did:example:a".into(),
                    key_agreement: vec!["did:example:a#0".into()],
                    authentication: vec!["did:example:a#1".into()],
                    verification_method: (0..2).map(|i| vm(&format!("did:example:a#{i}"), 0, mats[1].0, &mats[1].1)).collect(),
                    service: vec![svc[1].clone(), svc[5].clone()],
                };
                let want = meaning(&d);
                let mut r = ref_doc(&d);
                r[at].as_array_mut().unwrap().insert(n, v.clone());
                rec.eval(&n, true);
                match parse_doc(&r.to_string()) {
                    Err(e) => rec.fail("refused", format!("a document that also has {v} is refused: {e}")),
                    Ok(mut m) => {
                        let key = if at == "service" { "svc" } else { "vm" };
                        let a = m[key].as_array_mut().unwrap();
                        if a.len() == 3 {
                            let got = a.remove(n);
                            let kind = if at == "service" { json!([v["id"], "other", v["serviceEndpoint"]]) } else { json!("Other") };
                            rec.check(kind == if at == "service" { got.clone() } else { got[1].clone() }, "kind", || format!("{v} is taken as {got}"));
                        }
                        rec.check(m == want, "rest", || format!("the rest of the document changed: {m}"));
                    }
                }
            }
        });
    }
    // resolvers
    const IDS: [&str; 10] = [
        "did:example:a", "did:example:a#k1", "did:example:a#k10", "did:example:ab", "did:example:", "", "DID:EXAMPLE:A", "did:example:a ", "did:example:a?x", "did:example:á",
    ];
    for first in 0..IDS.len() {
        p.case(format!("resolvers/{first}"), move |rec| {
            let mut stores: Vec<Vec<usize>> = vec![vec![first]];
            for b in 0..IDS.len() {
                if b != first {
                    stores.push(vec![first, b]);
                    for c in 0..IDS.len() {
                        if c != first && c != b {
                            stores.push(vec![first, b, c]);
                        }
                    }
                }
            }
            if first == 0 {
                stores.push(vec![]);
            }
            let mut queries: Vec<Vec<usize>> = vec![vec![]];
            for a in 0..IDS.len() {
                queries.push(vec![a]);
                for b in 0..IDS.len() {
                    if b != a {
                        queries.push(vec![a, b]);
                        for c in 0..IDS.len() {
                            if c != a && c != b && (full || (a + b + c) % 3 == 0) {
                                queries.push(vec![a, b, c]);
                            }
                        }
                    }
                }
            }
            for st in stores {
                let doc = |i: usize| DIDDoc {
                    id: IDS[i].into(),
                    key_agreement: vec![format!("marker-{i}")],
                    authentication: vec![format!("auth-{i}")],
                    verification_method: vec![vm(&format!("vm-{i}"), i % 7, "Base58", &json!(format!("b{i}")))],
                    service: services()[i..i + 1].to_vec(),
                };
                let sec = |i: usize| Secret { id: IDS[i].into(), type_: SECRETS[i % 7].1.clone(), secret_material: smat("Base58", &json!(format!("secret-{i}"))) };
                let dr = ExampleDIDResolver::new(st.iter().map(|i| doc(*i)).collect());
                let sr = ExampleSecretsResolver::new(st.iter().map(|i| sec(*i)).collect());
                for q in 0..IDS.len() {
                    let what = format!("{st:?}?{q}");
                    rec.eval(&what, st.contains(&q));
                    match block_on(dr.resolve(IDS[q])) {
                        Err(e) => rec.fail(&what, e.to_string()),
                        Ok(d) => {
                            let want = st.contains(&q).then(|| meaning(&doc(q)));
                            rec.check(d.as_ref().map(meaning) == want, &what, || format!("resolved {:?} to {d:?}", IDS[q]));
                        }
                    }
                    match block_on(sr.get_secret(IDS[q])) {
                        Err(e) => rec.fail(&what, e.to_string()),
                        Ok(s) => {
                            let want = st.contains(&q).then(|| meaning_secret(&sec(q)));
                            rec.check(s.as_ref().map(meaning_secret) == want, &what, || format!("secret {:?} is {s:?}", IDS[q]));
                        }
                    }
                }
                for q in &queries {
                    let ids: Vec<&str> = q.iter().map(|i| IDS[*i]).collect();
                    let want: Vec<&str> = q.iter().filter(|i| st.contains(i)).map(|i| IDS[*i]).collect();
                    rec.eval(&(&st, q), !want.is_empty());
                    match block_on(sr.find_secrets(&ids)) {
                        Err(e) => rec.fail(format!("{st:?}?{q:?}"), e.to_string()),
                        Ok(got) => {
                            rec.check(got == want, format!("{st:?}?{q:?}"), || format!("asked {ids:?} with {st:?}: {got:?}, expected {want:?}"));
                        }
                    }
                }
            }
        });
    }
    crate::vals::c20(&mut p, doc_trip);
    crate::vals::resolvers(&mut p, full);
    p
}

/// `with`, adding the last member if it is not there.
fn with_new(v: &Value, p: &[El], x: Value) -> Value {
    let (Some(El::K(k)), parent) = (p.last(), &p[..p.len() - 1]) else { unreachable!() };
    let mut o = get(v, parent).clone();
    o[k.as_str()] = x;
    with(v, parent, o)
}
