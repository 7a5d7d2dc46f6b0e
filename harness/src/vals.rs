//! Extreme member values: every pair of (builder setter, value) for messages, attachments and rotation tokens.
use crate::engine::Plan;
use crate::msgs::unpack;
use crate::world::{block_on, Net};
use crate::layers::{ref_attachment, ref_json};
use didcomm::{Attachment, AttachmentBuilder, FromPrior, Message, MessageBuilder};
use serde_json::{json, Value};
use std::rc::Rc;

/// What a setter does to the object under construction and to its JSON model.
struct Step<B> {
    name: String,
    act: Box<dyn Fn(B) -> B>,
    model: Rc<dyn Fn(&mut Value)>,
}
fn step<B: 'static>(name: String, act: impl Fn(B) -> B + 'static, model: impl Fn(&mut Value) + 'static) -> Step<B> {
    Step { name, act: Box::new(act), model: Rc::new(model) }
}

pub fn strings() -> Vec<String> {
    let mut v: Vec<String> = [
        "", " ", "\u{0}", "\t\n", " x ", "x y", "null", "0", "id", "a/b", "a\\b", "../a", "A/B", "a,b", "a;b=c", "\"q\"", "{}",
        "<a>&", "é", "e\u{301}", "\u{feff}x", "\u{2028}", "😀", "Straße", "DID:Example:A", "did:example:a", "did:example:a#k",
        "did:example:a?q=1", "aGVsbG8", "aGVsbG8=", "a b+c/d==", "2020-01-01", "text/Plain; charset=UTF-8",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.push("l".repeat(300));
    v.push("é".repeat(5000));
    v
}
fn numbers() -> Vec<u64> {
    vec![
        0,
        1,
        9,
        1 << 31,
        (1 << 31) - 1,
        u32::MAX as u64,
        1 << 32,
        1_600_000_000,
        1_600_000_000_000,
        (1 << 53) - 1,
        1 << 53,
        (1 << 53) + 1,
        i64::MAX as u64,
        1 << 63,
        u64::MAX - 1,
        u64::MAX,
    ]
}
pub fn json_values() -> Vec<Value> {
    let mut v = vec![
        json!(null),
        json!(true),
        json!(false),
        json!(0),
        json!(-1),
        json!(i64::MIN),
        json!(u64::MAX),
        json!(0.5),
        json!([]),
        json!([null]),
        json!([[], {}]),
        json!({}),
        json!({"": null}),
        json!({"a": null, "b": [], "c": {}, "d": ""}),
        json!({"id": 1, "typ": "x", "data": {"json": 1}}),
    ];
    v.extend(strings().into_iter().map(Value::from));
    v
}
fn names() -> Vec<String> {
    let mut v: Vec<String> = strings();
    v.retain(|s| s != "id");
    v.extend(
        [
            "ID", "Id", "id ", "_id", "Type", "type_", "@type", "@id", "froM", "from ", "To", "sender", "next", "lang", "ack",
            "please_ack", "pthId", "created-time", "createdTime", "expiresTime", "fromPrior", "attachment", "attachments~",
            "extra_headers", "extraHeaders", "body~attach", "return_route", "data", "iss", "~thread", "__proto__",
        ]
        .iter()
        .map(|s| s.to_string()),
    );
    v
}
fn push(w: &mut Value, k: &str, x: Vec<Value>) {
    if w.get(k).is_none() {
        w[k] = json!([]);
    }
    w[k].as_array_mut().unwrap().extend(x);
}
fn short(v: &impl std::fmt::Debug) -> String {
    let mut s = format!("{v:?}");
    if s.len() > 40 {
        let n = s.len();
        s = s.chars().take(30).collect();
        s += &format!("…{n}");
    }
    s
}

macro_rules! strs {
    ($out:ident, $($f:ident),*) => {$(
        for s in strings() {
            let t = s.clone();
            $out.push(step(format!("{}={}", stringify!($f), short(&s)), move |b: B| b.$f(s.clone()), move |w| w[stringify!($f)] = json!(t)));
        }
    )*};
}
macro_rules! nums {
    ($out:ident, $($f:ident),*) => {$(
        for n in numbers() {
            $out.push(step(format!("{}={n}", stringify!($f)), move |b: B| b.$f(n), move |w| w[stringify!($f)] = json!(n)));
        }
    )*};
}

fn attachments() -> Vec<Attachment> {
    vec![
        Attachment::json(json!(null)).finalize(),
        Attachment::json(json!(null)).id("x".into()).finalize(),
        Attachment::json(json!({"base64": "", "jws": 1})).id("x".into()).jws("".into()).finalize(),
        Attachment::base64("".into()).id("".into()).byte_count(0).finalize(),
        Attachment::links(vec![], "".into()).filename("a/b".into()).finalize(),
        Attachment::links(vec!["".into(), "".into()], " h ".into()).lastmod_time(u64::MAX).finalize(),
    ]
}

fn message_steps() -> Vec<Step<MessageBuilder>> {
    type B = MessageBuilder;
    let mut out: Vec<Step<B>> = vec![];
    strs!(out, from, thid, pthid, from_prior);
    nums!(out, created_time, expires_time);
    for s in strings() {
        let t = s.clone();
        out.push(step(format!("to={}", short(&s)), move |b: B| b.to(s.clone()), move |w| push(w, "to", vec![json!(t)])));
    }
    for l in [vec![], vec![""], vec!["x", "x"], vec!["did:example:a", "DID:Example:A", "did:example:a"]] {
        let l: Vec<String> = l.into_iter().map(String::from).collect();
        let t: Vec<Value> = l.iter().map(|x| json!(x)).collect();
        out.push(step(format!("to_many={l:?}"), move |b: B| b.to_many(l.clone()), move |w| push(w, "to", t.clone())));
    }
    for v in json_values() {
        let t = v.clone();
        out.push(step(format!("header=h,{}", short(&v)), move |b: B| b.header("h".into(), v.clone()), move |w| w["h"] = t.clone()));
    }
    for k in names() {
        for v in [json!(null), json!("v")] {
            let (k1, k2, t) = (k.clone(), k.clone(), v.clone());
            out.push(step(
                format!("header={},{v}", short(&k)),
                move |b: B| b.header(k1.clone(), v.clone()),
                move |w| w[k2.clone()] = t.clone(),
            ));
        }
    }
    for (i, a) in attachments().into_iter().enumerate() {
        let r = ref_attachment(&a);
        let (a2, r2) = (a.clone(), r.clone());
        out.push(step(format!("attachment={i}"), move |b: B| b.attachment(a.clone()), move |w| push(w, "attachments", vec![r.clone()])));
        out.push(step(
            format!("attachments={i}{i}"),
            move |b: B| b.attachments(vec![a2.clone(), a2.clone()]),
            move |w| push(w, "attachments", vec![r2.clone(), r2.clone()]),
        ));
    }
    out.push(step("attachments=".into(), |b: B| b.attachments(vec![]), |w| push(w, "attachments", vec![])));
    out
}

fn attachment_steps() -> Vec<Step<AttachmentBuilder>> {
    type B = AttachmentBuilder;
    let mut out: Vec<Step<B>> = vec![];
    strs!(out, id, description, filename, media_type, format);
    nums!(out, lastmod_time, byte_count);
    for s in strings() {
        let t = s.clone();
        out.push(step(format!("jws={}", short(&s)), move |b: B| b.jws(s.clone()), move |w| w["data"]["jws"] = json!(t)));
    }
    out
}
enum Tok {
    S(&'static str, String),
    N(&'static str, u64),
}
fn token_steps() -> Vec<Tok> {
    let s = strings().into_iter().flat_map(|s| ["aud", "jti"].map(|k| Tok::S(k, s.clone())));
    s.chain(numbers().into_iter().flat_map(|n| ["exp", "nbf", "iat"].map(|k| Tok::N(k, n)))).collect()
}

pub fn c14(p: &mut Plan) {
    let parts = 16usize;
    for part in 0..parts {
        p.case(format!("values/message/{part:02}"), move |rec| {
            let steps = message_steps();
            let net = Net::new(&[], &[]);
            for (i, a) in steps.iter().enumerate().filter(|(i, _)| i % parts == part) {
                for b in steps.iter().map(Some).chain([None]) {
                    let what = format!("{}+{}", a.name, b.map(|b| b.name.as_str()).unwrap_or("-"));
                    rec.eval(&(i, &what), true);
                    rec.begin(&what);
                    let mut w = json!({"id": "i", "typ": "application/didcomm-plain+json", "type": "t", "body": null});
                    let mut m = (a.act)(Message::build("i".into(), "t".into(), json!(null)));
                    (a.model)(&mut w);
                    if let Some(b) = b {
                        m = (b.act)(m);
                        (b.model)(&mut w);
                    }
                    let m = m.finalize();
                    let built = ref_json(&m);
                    rec.check(built == w, &what, || format!("built {built}, expected {w}"));
                    let text = serde_json::to_string(&m).unwrap();
                    let v: Value = serde_json::from_str(&text).unwrap_or_default();
                    rec.check(v == w, &what, || format!("written as {text}"));
                    if m.from_prior.is_none() {
                        // what is sent is what is received
                        let text = block_on(m.pack_plaintext(&net)).unwrap_or_default();
                        let v: Value = serde_json::from_str(&text).unwrap_or_default();
                        rec.check(v == w, &what, || format!("packed as {text}"));
                        match block_on(unpack(&text, &net)) {
                            Ok((x, _)) => rec.check(x == m && ref_json(&x) == w, &what, || format!("{text} unpacks as {x:?}")),
                            Err(e) => rec.check(false, &what, || format!("{text} does not unpack: {e}")),
                        };
                    }
                    match serde_json::from_str::<Message>(&text) {
                        Ok(x) => rec.check(x == m && ref_json(&x) == w, &what, || format!("{text} reads as {x:?}")),
                        Err(e) => rec.check(false, &what, || format!("{text} does not read: {e}")),
                    };
                }
            }
        });
    }
    p.case("values/construction", |rec| {
        // the arguments of the constructors
        for s in strings() {
            for t in strings() {
                rec.eval(&(&s, &t), true);
                let what = format!("{}/{}", short(&s), short(&t));
                let m = Message::build(s.clone(), t.clone(), json!({"a": s})).finalize();
                let w = json!({"id": s, "typ": "application/didcomm-plain+json", "type": t, "body": {"a": s}});
                rec.check(ref_json(&m) == w && serde_json::to_value(&m).ok().as_ref() == Some(&w), &what, || format!("{m:?}"));
                rec.check(serde_json::from_value::<Message>(w).ok() == Some(m), &what, || "reads as another message".into());
                let f = FromPrior::build(s.clone(), t.clone()).finalize();
                let w = json!({"iss": s, "sub": t});
                rec.check(serde_json::to_value(&f).ok().as_ref() == Some(&w), &what, || format!("{f:?}"));
                rec.check(serde_json::from_value::<FromPrior>(w).ok() == Some(f), &what, || "reads as another token".into());
                let a = Attachment::links(vec![s.clone(), t.clone()], t.clone()).finalize();
                let w = json!({"data": {"links": [s, t], "hash": t}});
                rec.check(ref_attachment(&a) == w && serde_json::to_value(&a).ok().as_ref() == Some(&w), &what, || format!("{a:?}"));
                rec.check(serde_json::from_value::<Attachment>(w).ok() == Some(a), &what, || "reads as another attachment".into());
            }
            let a = Attachment::base64(s.clone()).finalize();
            let w = json!({"data": {"base64": s}});
            rec.check(serde_json::to_value(&a).ok().as_ref() == Some(&w), &s, || format!("{a:?}"));
            rec.check(serde_json::from_value::<Attachment>(w).ok() == Some(a), &s, || "reads as another attachment".into());
        }
        for v in json_values() {
            let what = short(&v);
            rec.eval(&what, true);
            let a = Attachment::json(v.clone()).finalize();
            let w = json!({"data": {"json": v}});
            rec.check(serde_json::to_value(&a).ok().as_ref() == Some(&w), &what, || format!("{a:?}"));
            rec.check(serde_json::from_value::<Attachment>(w).ok() == Some(a), &what, || "reads as another attachment".into());
            let m = Message::build("i".into(), "t".into(), v.clone()).finalize();
            let w = json!({"id": "i", "typ": "application/didcomm-plain+json", "type": "t", "body": v});
            rec.check(serde_json::to_value(&m).ok().as_ref() == Some(&w), &what, || format!("{m:?}"));
            rec.check(serde_json::from_value::<Message>(w).ok() == Some(m), &what, || "reads as another message".into());
        }
    });
    for part in 0..parts {
        p.case(format!("values/attachment/{part:02}"), move |rec| {
            let kinds: [(fn() -> AttachmentBuilder, Value); 5] = [
                (|| Attachment::base64("".into()), json!({"base64": ""})),
                (|| Attachment::json(json!(null)), json!({"json": null})),
                (|| Attachment::json(json!({"hash": "", "links": []})), json!({"json": {"hash": "", "links": []}})),
                (|| Attachment::links(vec![], "".into()), json!({"links": [], "hash": ""})),
                (|| Attachment::links(vec!["l".into()], "h".into()), json!({"links": ["l"], "hash": "h"})),
            ];
            let steps = attachment_steps();
            for a in steps.iter().enumerate().filter(|(i, _)| i % parts == part).map(|x| x.1) {
                for b in steps.iter().map(Some).chain([None]) {
                    for (k, (make, data)) in kinds.iter().enumerate() {
                        let what = format!("{k} {}+{}", a.name, b.map(|b| b.name.as_str()).unwrap_or("-"));
                        rec.eval(&what, true);
                        let mut w = json!({ "data": data });
                        let mut x = (a.act)(make());
                        (a.model)(&mut w);
                        if let Some(b) = b {
                            x = (b.act)(x);
                            (b.model)(&mut w);
                        }
                        let x = x.finalize();
                        let v = serde_json::to_value(&x).unwrap_or_default();
                        rec.check(v == w && ref_attachment(&x) == w, &what, || format!("built {x:?}, written {v}"));
                        rec.check(serde_json::from_value::<Attachment>(v).ok() == Some(x), &what, || "reads as another".into());
                    }
                }
            }
        });
    }
    p.case("values/token", |rec| {
        let steps = token_steps();
        for a in &steps {
            for b in steps.iter().map(Some).chain([None]) {
                let mut w = json!({"iss": "", "sub": " "});
                let mut x = FromPrior::build("".into(), " ".into());
                let mut what = String::new();
                for t in [Some(a), b].into_iter().flatten() {
                    match t {
                        Tok::S(k, s) => {
                            what += &format!("{k}={} ", short(s));
                            w[*k] = json!(s);
                            x = if *k == "aud" { x.aud(s.clone()) } else { x.jti(s.clone()) };
                        }
                        Tok::N(k, n) => {
                            what += &format!("{k}={n} ");
                            w[*k] = json!(n);
                            x = match *k {
                                "exp" => x.exp(*n),
                                "nbf" => x.nbf(*n),
                                _ => x.iat(*n),
                            };
                        }
                    }
                }
                rec.eval(&what, true);
                let x = x.finalize();
                let v = serde_json::to_value(&x).unwrap_or_default();
                rec.check(v == w, &what, || format!("built {x:?}, written {v}"));
                rec.check(serde_json::from_value::<FromPrior>(v).ok() == Some(x), &what, || "reads as another".into());
            }
        }
    });
}

/// Every pair of textual positions of a document, each holding an extreme value.
pub fn c20(p: &mut Plan, trip: fn(&mut crate::engine::Rec, &str, &didcomm::did::DIDDoc)) {
    use didcomm::did::*;
    const POS: usize = 13;
    fn put(d: &mut DIDDoc, i: usize, s: &str) {
        let s = s.to_string();
        match i {
            0 => d.id = s,
            1 => d.key_agreement.push(s),
            2 => d.key_agreement.insert(0, s),
            3 => d.authentication.push(s),
            4 => d.verification_method[0].id = s,
            5 => d.verification_method[1].controller = s,
            6 => d.verification_method[0].verification_material = VerificationMaterial::Multibase { public_key_multibase: s },
            7 => d.verification_method[1].verification_material = VerificationMaterial::Base58 { public_key_base58: s },
            8 => d.service[0].id = s,
            9 => d.service[1].id = s,
            _ => {
                let ServiceKind::DIDCommMessaging { value } = &mut d.service[0].service_endpoint else { return };
                match i {
                    10 => value.uri = s,
                    11 => value.accept.get_or_insert(vec![]).push(s),
                    _ => value.routing_keys.push(s),
                }
            }
        }
    }
    fn base() -> DIDDoc {
        let vm = |id: &str, m: VerificationMaterial| VerificationMethod {
            id: id.into(),
            type_: VerificationMethodType::JsonWebKey2020,
            controller: "did:example:a".into(),
            verification_material: m,
        };
        DIDDoc {
            id: "did:example:a".into(),
            key_agreement: vec!["did:example:a#1".into()],
            authentication: vec!["did:example:a#2".into()],
            verification_method: vec![
                vm("did:example:a#1", VerificationMaterial::JWK { public_key_jwk: json!({"kty": "OKP"}) }),
                vm("did:example:a#2", VerificationMaterial::JWK { public_key_jwk: json!({"kty": "EC"}) }),
            ],
            service: vec![
                Service {
                    id: "did:example:a#s".into(),
                    service_endpoint: ServiceKind::DIDCommMessaging {
                        value: DIDCommMessagingService { uri: "http://a".into(), accept: None, routing_keys: vec!["did:example:m#1".into()] },
                    },
                },
                Service { id: "did:example:a#t".into(), service_endpoint: ServiceKind::Other { value: json!({"uri": "x"}) } },
            ],
        }
    }
    for i in 0..POS {
        p.case(format!("values/doc/{i:02}"), move |rec| {
            for a in strings() {
                let mut d = base();
                put(&mut d, i, &a);
                trip(rec, &format!("{i}={}", short(&a)), &d);
                for j in i..POS {
                    for b in strings() {
                        let mut d2 = d.clone();
                        put(&mut d2, j, &b);
                        // the longest texts only with themselves
                        if a.len() > 1000 && b.len() < 1000 || b.len() > 1000 && a.len() < 1000 {
                            continue;
                        }
                        trip(rec, &format!("{i}={} {j}={}", short(&a), short(&b)), &d2);
                    }
                }
            }
        });
    }
    p.case("values/free", move |rec| {
        for v in json_values() {
            for w in json_values() {
                let mut d = base();
                d.verification_method[0].verification_material = VerificationMaterial::JWK { public_key_jwk: v.clone() };
                d.service[1].service_endpoint = ServiceKind::Other { value: w.clone() };
                trip(rec, &format!("{} {}", short(&v), short(&w)), &d);
            }
        }
    });
    p.case("values/secret", |rec| {
        use didcomm::secrets::*;
        let meaning = |s: &Secret| json!([s.id, format!("{:?}", s.type_), format!("{:?}", s.secret_material)]);
        for a in strings() {
            for b in strings() {
                for k in 0..3 {
                    let (name, m) = match k {
                        0 => ("privateKeyMultibase", SecretMaterial::Multibase { private_key_multibase: b.clone() }),
                        1 => ("privateKeyBase58", SecretMaterial::Base58 { private_key_base58: b.clone() }),
                        _ => ("privateKeyJwk", SecretMaterial::JWK { private_key_jwk: json!({"d": b}) }),
                    };
                    let s = Secret { id: a.clone(), type_: SecretType::X25519KeyAgreementKey2020, secret_material: m };
                    let what = format!("{name} {} {}", short(&a), short(&b));
                    rec.eval(&what, true);
                    let want = json!({"id": a, "type": "X25519KeyAgreementKey2020", name: if k == 2 { json!({"d": b}) } else { json!(b) }});
                    let got = serde_json::to_value(&s).unwrap_or_default();
                    rec.check(got == want, &what, || format!("serialised {got}"));
                    match serde_json::from_str::<Secret>(&want.to_string()) {
                        Ok(x) => rec.check(meaning(&x) == meaning(&s), &what, || format!("reads as {}", meaning(&x))),
                        Err(e) => rec.check(false, &what, || e.to_string()),
                    };
                }
            }
        }
    });
}

/// The bundled resolvers with many entries, and with identifiers that differ in a way a careless comparison overlooks.
pub fn resolvers(p: &mut Plan, full: bool) {
    use crate::world::block_on;
    use didcomm::did::{resolvers::ExampleDIDResolver, DIDDoc, DIDResolver};
    use didcomm::secrets::{resolvers::ExampleSecretsResolver, Secret, SecretMaterial, SecretType, SecretsResolver};
    fn doc(id: &str, mark: usize) -> DIDDoc {
        DIDDoc { id: id.into(), key_agreement: vec![format!("m{mark}")], authentication: vec![], verification_method: vec![], service: vec![] }
    }
    fn secret(id: &str, mark: usize) -> Secret {
        let secret_material = SecretMaterial::Base58 { private_key_base58: format!("m{mark}") };
        Secret { id: id.into(), type_: SecretType::Other, secret_material }
    }
    fn look(rec: &mut crate::engine::Rec, what: &str, ids: &[String], stored: &[usize]) {
        let dr = ExampleDIDResolver::new(stored.iter().map(|i| doc(&ids[*i], *i)).collect());
        let sr = ExampleSecretsResolver::new(stored.iter().map(|i| secret(&ids[*i], *i)).collect());
        for round in 0..2 {
            for q in 0..ids.len() {
                let want = stored.contains(&q).then(|| format!("m{q}"));
                rec.eval(&(what, round, q), want.is_some());
                let got = block_on(dr.resolve(&ids[q])).ok().map(|d| d.map(|d| (d.id, d.key_agreement)));
                let w = want.clone().map(|m| (ids[q].clone(), vec![m]));
                rec.check(got.as_ref() == Some(&w), format!("{what}/{q}"), || format!("{:?} resolved to {got:?}", short(&ids[q])));
                let got = block_on(sr.get_secret(&ids[q])).ok().map(|s| s.map(|s| (s.id, format!("{:?}", s.secret_material))));
                let w = stored.contains(&q).then(|| secret(&ids[q], q)).map(|s| (s.id, format!("{:?}", s.secret_material)));
                rec.check(got.as_ref() == Some(&w), format!("{what}/{q}"), || format!("secret {:?} is {got:?}", short(&ids[q])));
            }
            for rev in [false, true] {
                let mut l: Vec<&str> = ids.iter().map(|s| s.as_str()).collect();
                let mut want: Vec<&str> = (0..ids.len()).filter(|i| stored.contains(i)).map(|i| ids[i].as_str()).collect();
                if rev {
                    l.reverse();
                    want.reverse();
                }
                let got = block_on(sr.find_secrets(&l)).ok();
                rec.eval(&(what, round, "find", rev), true);
                rec.check(got.as_ref() == Some(&want), format!("{what}/find"), || format!("found {:?} of {}", got.map(|g| g.len()), l.len()));
            }
        }
    }
    p.case("resolvers/texts", move |rec| {
        let ids = strings();
        look(rec, "all", &ids, &(0..ids.len()).collect::<Vec<_>>());
        for i in 0..ids.len() {
            look(rec, &format!("without {i}"), &ids, &(0..ids.len()).filter(|j| *j != i).collect::<Vec<_>>());
            look(rec, &format!("only {i}"), &ids, &[i]);
        }
    });
    // long ids that differ in one place only
    p.case("resolvers/long", move |rec| {
        for l in if full { vec![31usize, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 1025, 4096, 4097, 70000] } else { vec![33, 65, 129, 257, 513, 1025, 4097] } {
            let base = format!("did:example:{}", "x".repeat(l));
            let mut ids: Vec<String> = [12, 12 + l / 2, base.len() - 1]
                .into_iter()
                .map(|at| base.char_indices().map(|(i, c)| if i == at { 'y' } else { c }).collect())
                .collect();
            ids.extend([format!("{base}x"), base[..base.len() - 1].to_string(), base]);
            for i in 0..ids.len() {
                look(rec, &format!("{l} without {i}"), &ids, &(0..ids.len()).filter(|j| *j != i).collect::<Vec<_>>());
                look(rec, &format!("{l} only {i}"), &ids, &[i]);
            }
        }
    });
    p.case("resolvers/many", move |rec| {
        for n in if full { vec![2usize, 16, 17, 64, 65, 256, 257, 1100] } else { vec![2, 16, 17, 65, 257] } {
            let ids: Vec<String> = (0..n).map(|i| format!("did:example:{:03}{}", i * 7919 % n, "x".repeat(i % 3 * 40))).collect();
            let orders: Vec<Vec<usize>> = vec![(0..n).collect(), (0..n).rev().collect(), (0..n).filter(|i| i % 2 == 1).collect(), vec![n - 1], vec![]];
            for (o, st) in orders.iter().enumerate() {
                look(rec, &format!("{n}-{o}"), &ids, st);
            }
        }
    });
}

type Trip = fn(&mut crate::engine::Rec, &str, &crate::msgs::Mode, &Message, &Net, &Net, bool);

/// Every value in every member of a message that really travels, in every mode.
pub fn c01(p: &mut Plan, modes: &[crate::msgs::Mode], trip: Trip) {
    use crate::world::{docs_of, rich};
    type Set = fn(&mut Message, &str);
    fn att(m: &mut Message) -> &mut Attachment {
        if m.attachments.is_none() {
            m.attachments = Some(vec![Attachment::json(json!(1)).id("first".into()).finalize(), Attachment::base64("eA".into()).finalize()]);
        }
        m.attachments.as_mut().unwrap().last_mut().unwrap()
    }
    let texts: Vec<(&str, Set)> = vec![
        ("id", |m, s| m.id = s.into()),
        ("type", |m, s| m.type_ = s.into()),
        ("thid", |m, s| m.thid = Some(s.into())),
        ("pthid", |m, s| m.pthid = Some(s.into())),
        ("threads", |m, s| {
            m.id = s.into();
            m.thid = Some(s.into());
            m.pthid = Some(s.into());
        }),
        ("threads-only", |m, s| {
            m.thid = Some(s.into());
            m.pthid = Some(s.into());
        }),
        ("to", |m, s| m.to.get_or_insert_with(Vec::new).extend([s.to_string(), "did:example:bob".into(), s.to_string(), s.to_string()])),
        ("header-name", |m, s| {
            m.extra_headers.insert(if s == "id" { "id2".into() } else { s.into() }, json!("v"));
        }),
        ("header-name-null", |m, s| {
            m.extra_headers.insert(if s == "id" { "id2".into() } else { s.into() }, json!(null));
        }),
        ("body-name", |m, s| m.body = json!({ s: s, "x": {s: [s, null, s]} })),
        ("att-id", |m, s| att(m).id = Some(s.into())),
        ("att-description", |m, s| att(m).description = Some(s.into())),
        ("att-filename", |m, s| att(m).filename = Some(s.into())),
        ("att-media", |m, s| att(m).media_type = Some(s.into())),
        ("att-format", |m, s| att(m).format = Some(s.into())),
        ("att-base64", |m, s| *att(m) = Attachment::base64(s.into()).finalize()),
        ("att-jws", |m, s| *att(m) = Attachment::base64("x".into()).jws(s.into()).finalize()),
        ("att-links", |m, s| *att(m) = Attachment::links(vec![s.into(), "l".into(), s.into()], s.into()).finalize()),
        ("att-twice", |m, s| {
            let a = Attachment::json(json!({ s: s })).id(s.into()).finalize();
            m.attachments = Some(vec![a.clone(), a.clone(), Attachment::json(json!(null)).finalize(), a]);
        }),
    ];
    let base = || crate::msgs::simple(None, None, "vals");
    let nets = || {
        let (a, b) = (rich("alice"), rich("bob"));
        let docs = docs_of(&[a.clone(), b.clone()]);
        (Net::new(&docs, &a.secrets()), Net::new(&docs, &b.secrets()), b.did)
    };
    let addressed = |m: &mut Message, bob: &str| {
        if m.to.as_ref().map_or(false, |t| !t.iter().any(|x| x == bob)) {
            m.to.as_mut().unwrap().push(bob.into());
        }
    };
    for mode in modes {
        for (name, set) in &texts {
            let (mode, name, set) = (mode.clone(), *name, *set);
            p.case(format!("values/{name}/{}", mode.name()), move |rec| {
                let (sn, rn, bob) = nets();
                for (i, s) in strings().iter().enumerate() {
                    let mut m = base();
                    set(&mut m, s);
                    addressed(&mut m, &bob);
                    trip(rec, &format!("{i}"), &mode, &m, &sn, &rn, false);
                }
            });
        }
        let m0 = mode.clone();
        p.case(format!("values/numbers/{}", mode.name()), move |rec| {
            let (sn, rn, _) = nets();
            for (i, n) in numbers().into_iter().enumerate() {
                for f in 0..5 {
                    let mut m = base();
                    match f {
                        0 => m.created_time = Some(n),
                        1 => m.expires_time = Some(n),
                        2 => (m.created_time, m.expires_time) = (Some(n), Some(n)),
                        3 => att(&mut m).lastmod_time = Some(n),
                        _ => att(&mut m).byte_count = Some(n),
                    }
                    trip(rec, &format!("{i}-{f}"), &m0, &m, &sn, &rn, false);
                }
            }
        });
        let m0 = mode.clone();
        p.case(format!("values/json/{}", mode.name()), move |rec| {
            let (sn, rn, _) = nets();
            for (i, v) in json_values().into_iter().enumerate() {
                for f in 0..3 {
                    let mut m = base();
                    match f {
                        0 => m.body = v.clone(),
                        1 => drop(m.extra_headers.insert("h".into(), v.clone())),
                        _ => m.attachments = Some(vec![Attachment::json(v.clone()).finalize()]),
                    }
                    trip(rec, &format!("{i}-{f}"), &m0, &m, &sn, &rn, false);
                }
            }
            for (i, k) in names().into_iter().enumerate() {
                for v in [json!(null), json!(""), json!({})] {
                    let mut m = base();
                    m.extra_headers.insert(k.clone(), v);
                    trip(rec, &format!("name{i}"), &m0, &m, &sn, &rn, false);
                }
            }
        });
    }
}

/// Every value as service id, endpoint, accepted profile and routing key of a service.
pub fn c21(p: &mut Plan) {
    use crate::world::{rich, service};
    use didcomm::PackEncryptedOptions;
    p.case("values", |rec| {
        let (a, b, m1) = (rich("alice"), rich("bob"), rich("m1"));
        let msg = crate::msgs::simple(None, None, "values");
        let extra = ["https://a/", "https://a//", " https://a ", "HTTPS://A", "https://a?x=1#f", "https://a/%20", "did:x", "didcomm/v2/", "didcomm", "ws://é"];
        let texts: Vec<String> = strings().into_iter().chain(extra.iter().map(|s| s.to_string())).collect();
        let pack = |services: Vec<didcomm::did::Service>, ask: Option<String>| {
            let mut c = b.clone();
            c.services = services;
            let net = Net::new(&[a.doc(), c.doc(), m1.doc()], &a.secrets());
            let o = PackEncryptedOptions { messaging_service: ask, ..Default::default() };
            block_on(msg.pack_encrypted(&b.did, None, None, &net, &net, &o)).map(|(t, md)| {
                let layers = serde_json::from_str::<Value>(&t).ok().and_then(|v| v["recipients"][0]["header"]["kid"].as_str().map(String::from));
                (md.messaging_service.map(|s| (s.id, s.service_endpoint)), layers.unwrap_or_default())
            })
        };
        let rk = [m1.did.clone()];
        let is_did = |s: &str| s.starts_with("did:") && s.split(':').count() >= 3;
        for s in &texts {
            let what = short(s);
            // endpoint
            rec.eval(&("uri", s), true);
            let r = pack(vec![service("#s", s, None, &rk)], None);
            match &r {
                Ok((md, first)) => rec.check(!is_did(s) && *md == Some(("#s".into(), s.clone())) && first.starts_with(&format!("{}#", m1.did)), format!("uri/{what}"), || format!("{r:?}")),
                Err(_) => rec.check(is_did(s), format!("uri/{what}"), || format!("{r:?}")),
            };
            // id, chosen by itself and by name
            for ask in [None, Some(s.clone())] {
                rec.eval(&("id", s, ask.is_some()), true);
                let r = pack(vec![service(s, "https://x", None, &rk)], ask.clone());
                rec.check(matches!(&r, Ok((Some((id, u)), _)) if id == s && u == "https://x"), format!("id/{what}"), || format!("asked {ask:?}: {r:?}"));
            }
            // a profile that is not the one asked for, alone and beside it
            for (l, ok) in [(vec![s.as_str()], false), (vec![s.as_str(), "didcomm/v2"], true), (vec!["didcomm/v2", s.as_str()], true), (vec![s.as_str(), s.as_str()], false)] {
                rec.eval(&("accept", &l), true);
                let r = pack(vec![service("#s", "https://x", Some(l.clone()), &rk)], None);
                rec.check(matches!(&r, Ok((md, _)) if md.is_some() == ok), format!("accept/{what}"), || format!("accept {l:?}: {r:?}"));
            }
            // a routing key that leads nowhere is an error wherever it stands
            for keys in [vec![s.clone()], vec![s.clone(), m1.did.clone()], vec![m1.did.clone(), s.clone()]] {
                rec.eval(&("routing", &keys), true);
                let r = pack(vec![service("#s", "https://x", None, &keys)], None);
                rec.check(r.is_err() || *s == a.did, format!("routing/{what}"), || format!("routing keys {keys:?}: {r:?}"));
            }
        }
    });
}
