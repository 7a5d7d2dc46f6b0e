//! C11: hostile input yields an error, never a panic or a hang.
use crate::engine::{Env, Plan, Rec};
use crate::keys::*;
use crate::msgs::*;
use crate::mutate::*;
use crate::ops::*;
use crate::refjose::*;
use crate::world::*;
use didcomm::did::{DIDDoc, Service, VerificationMaterial as VM};
use didcomm::error::ErrorKind;
use didcomm::secrets::{Secret, SecretMaterial as SM};
use didcomm::{Attachment, AttachmentData, FromPrior, Message, PackEncryptedOptions, UnpackOptions};
use serde_json::{json, Value};
use std::sync::Arc;

struct Stage {
    world: Vec<Party>,
    sc: Vec<Scenario>,
}
impl Stage {
    fn new() -> Stage {
        let world = stage();
        let sc = scenarios(&world);
        Stage { world, sc }
    }
    fn net(&self, who: usize) -> Net {
        net_of(&self.world, who)
    }
}

/// Kinds that say the input is malformed, or unsupported, or names a DID / key nobody knows.
const WIRE: [ErrorKind; 6] = [
    ErrorKind::Malformed,
    ErrorKind::Unsupported,
    ErrorKind::NoCompatibleCrypto,
    ErrorKind::SecretNotFound,
    ErrorKind::DIDUrlNotFound,
    ErrorKind::DIDNotResolved,
];

/// One wire text through unpack; the error kind must blame the input.
fn wire(rec: &mut Rec, net: &Net, what: &str, text: &str) {
    for (all, unwrap) in [(false, true), (true, false)] {
        rec.begin(what);
        rec.eval(&(what, all), true);
        let op = Op::Unpack { text: text.into(), all, unwrap };
        match rec.guarded(|| run(&op, net)) {
            Err(p) => rec.fail(what, format!("panic: {p}; text {}", cut(text))),
            Ok(Out::Err(k)) => {
                rec.outcome(format!("{k:?}"));
                rec.check(WIRE.contains(&k), what, || format!("reported as {k:?}: {}", cut(text)));
            }
            Ok(_) => {
                rec.outcome("read");
                rec.check(serde_json::from_str::<Value>(text).is_ok(), what, || format!("text that is no JSON was read: {}", cut(text)));
            }
        }
        if serde_json::from_str::<Value>(text).is_err() {
            rec.outcome("no JSON");
            let r = rec.guarded(|| run(&op, net));
            if let Ok(o) = r {
                rec.check(o.kind() == Some(ErrorKind::Malformed), what, || format!("text that is no JSON: {o:?}"));
            }
        }
    }
}
fn cut(s: &str) -> String {
    s.chars().take(400).collect()
}

/// One token through FromPrior::unpack.
fn token(rec: &mut Rec, net: &Net, what: &str, text: &str) {
    rec.begin(what);
    rec.eval(what, true);
    match rec.guarded(|| run(&Op::FpUnpack { jwt: text.into() }, net)) {
        Err(p) => rec.fail(what, format!("panic: {p}; token {}", cut(text))),
        Ok(Out::Err(k)) => {
            rec.outcome(format!("{k:?}"));
            rec.check(WIRE.contains(&k), what, || format!("reported as {k:?}: {}", cut(text)));
        }
        Ok(_) => rec.outcome("read"),
    }
}

/// A plaintext with every member in use.
fn rich_plain(s: &Stage) -> Value {
    let (a, b) = (&s.world[ALICE].did, &s.world[BOB].did);
    let m = shape((1 << SHAPE_BITS) - 1, a, &[b], json!({"k": [1, {"z": null}]}));
    let mut v = crate::layers::ref_json(&m);
    let fp = ref_jwt(
        &s.world[CAROL].get("e1").key,
        &json!({"typ":"JWT","alg":"EdDSA","kid":s.world[CAROL].kid("e1")}),
        &json!({"iss": s.world[CAROL].did, "sub": a, "aud": b, "exp": 1, "iat": 2, "nbf": 3, "jti": "j"}),
    );
    v["from_prior"] = json!(fp);
    v
}
fn forward_plain(s: &Stage, inner: Value) -> Value {
    json!({"id":"f","typ":"application/didcomm-plain+json","type":"https://didcomm.org/routing/2.0/forward",
        "to":[s.world[BOB].did],"expires_time":9,"body":{"next":s.world[BOB].did},
        "attachments":[{"id":"a","media_type":"application/json","data":{"json":inner}}]})
}
const WRAPS: [&str; 6] = ["plain", "signed", "anon", "auth", "anon-signed", "anon-auth-signed"];
/// `text` inside the protections `w`, correctly applied, for bob.
fn protect(s: &Stage, w: &str, text: &str) -> String {
    let (a, b) = (&s.world[ALICE], &s.world[BOB]);
    let sign = |t: &str| ref_sign(&a.get("e1").key, &a.kid("e1"), t.as_bytes()).to_string();
    let (x1, x2) = (b.kid("x1"), b.kid("x2"));
    let to: Vec<(&str, &Key)> = vec![(&x1, &b.get("x1").key), (&x2, &b.get("x2").key)];
    let anon = |t: &str| Seal::new("c11", "A256GCM", None, &to, t.as_bytes()).build().to_string();
    let ak = a.kid("x1");
    let auth = |t: &str| Seal::new("c11a", "A256CBC-HS512", Some((&ak, &a.get("x1").key)), &to, t.as_bytes()).build().to_string();
    match w {
        "signed" => sign(text),
        "anon" => anon(text),
        "auth" => auth(text),
        "anon-signed" => anon(&sign(text)),
        "anon-auth-signed" => anon(&auth(&sign(text))),
        _ => text.into(),
    }
}

/// Runs every operation in `net`-like worlds: only that each returns.
fn all_ops(rec: &mut Rec, s: &Stage, what: &str, desc: &str, docs: &[DIDDoc], replace: Option<(usize, &[Secret])>) {
    for sc in &s.sc {
        let mut secrets = s.world[sc.who].secrets();
        if let Some((who, sec)) = replace {
            if who != sc.who {
                continue;
            }
            secrets = sec.to_vec();
        }
        let net = Net { docs: s.world.iter().map(|p| p.did.clone()).zip(docs.iter().cloned()).collect(), secrets, ..Default::default() };
        rec.begin(&format!("{what}/{}", sc.name));
        rec.eval(&(what, sc.name), true);
        match rec.guarded(|| run(&sc.op, &net)) {
            Err(p) => rec.fail(format!("{what}/{}", sc.name), format!("panic: {p}; {desc}")),
            Ok(o) => rec.outcome(o.label()),
        }
        let calls = net.calls().len();
        rec.check(calls < 500, what, || format!("{calls} lookups; {desc}"));
    }
}

fn parse<T: serde::de::DeserializeOwned>(rec: &mut Rec, what: &str, v: &Value) -> Option<T> {
    rec.begin(what);
    rec.eval(what, true);
    match rec.guarded(|| serde_json::from_value::<T>(v.clone())) {
        Err(p) => {
            rec.fail(what, format!("panic parsing: {p}: {v}"));
            None
        }
        Ok(r) => {
            rec.outcome(if r.is_ok() { "parsed" } else { "refused" });
            r.ok()
        }
    }
}

/// Strings that are awkward wherever a DID, key id, uri or name is expected.
fn nasty() -> Vec<String> {
    [
        "", "#", "##", ":", "::", "did::", "did::#", "did:x:y", "did:x:y#", "did:x:y#z#w", "#z", "DID:x:y", "did:é:\u{1F600}#\u{0}", " did:x:y",
        "did:example:bob", "did:example:bob#x1", "did:example:bob#", "did:example:bob?x#x1", "did:example:bob/path#x1", "did:example:BOB", "did:example:alice",
        "did:example:alice#x1", "did:example:alice#e1", "did:example:m1", "did:example:m2#p1", "\u{0}", "did:example:bob\u{0}", "a.b.c", "...", "{}", "null", "%00",
    ]
    .iter()
    .map(|s| s.to_string())
    .chain([format!("did:x:{}", "y".repeat(20000)), "#".repeat(3000), ":".repeat(3000)])
    .collect()
}

fn api_strings(rec: &mut Rec, s: &Stage, slot: &str) {
    let n = nasty();
    let (a, b) = (s.world[ALICE].did.clone(), s.world[BOB].did.clone());
    let net = s.net(ALICE);
    let go = |rec: &mut Rec, what: String, op: Op| {
        rec.begin(&what);
        rec.eval(&what, true);
        match rec.guarded(|| run(&op, &net)) {
            Err(p) => rec.fail(&what, format!("panic: {p}")),
            Ok(o) => rec.outcome(o.label()),
        }
    };
    let opts = |forward: bool| PackEncryptedOptions { forward, ..Default::default() };
    for (i, x) in n.iter().enumerate() {
        match slot {
            "to" | "from" | "sign" | "service" => {
                for (j, y) in n.iter().chain([&a, &b]).enumerate() {
                    for fwd in [false, true] {
                        let mut o = opts(fwd);
                        o.protect_sender = j % 2 == 0;
                        let (mut to, mut from, mut sign) = (b.clone(), Some(a.clone()), Some(a.clone()));
                        match slot {
                            "to" => {
                                to = x.clone();
                                from = Some(y.clone());
                            }
                            "from" => {
                                from = Some(x.clone());
                                sign = Some(y.clone());
                            }
                            "sign" => {
                                sign = Some(x.clone());
                                to = y.clone();
                            }
                            _ => {
                                o.messaging_service = Some(x.clone());
                                to = y.clone();
                            }
                        }
                        let mut m = simple(None, None, "n");
                        m.from = from.as_deref().map(|f| f.split('#').next().unwrap().to_string());
                        go(rec, format!("{i}.{j}.{fwd}"), Op::Enc { msg: m, to, from, sign, opts: o });
                    }
                }
            }
            "message" => {
                for (j, y) in n.iter().enumerate() {
                    let mut m = simple(Some(x), Some(y), "n");
                    m.id = x.clone();
                    m.type_ = y.clone();
                    m.thid = Some(x.clone());
                    m.extra_headers.insert(x.clone(), json!(y));
                    go(rec, format!("p{i}.{j}"), Op::Plain { msg: m.clone() });
                    go(rec, format!("s{i}.{j}"), Op::Signed { msg: m.clone(), by: x.clone() });
                    go(rec, format!("e{i}.{j}"), Op::Enc { msg: m.clone(), to: y.clone(), from: Some(x.clone()), sign: None, opts: opts(true) });
                    m.from = None;
                    m.to = None;
                    m.typ = x.clone();
                    m.from_prior = Some(y.clone());
                    go(rec, format!("f{i}.{j}"), Op::Plain { msg: m.clone() });
                    m.to = Some(vec![]);
                    m.from_prior = None;
                    go(rec, format!("t{i}.{j}"), Op::Enc { msg: m, to: y.clone(), from: Some(x.clone()), sign: None, opts: opts(true) });
                }
            }
            "token" => {
                for (j, y) in n.iter().enumerate() {
                    let fp = FromPrior { iss: x.clone(), sub: y.clone(), aud: Some(x.clone()), exp: Some(u64::MAX), nbf: Some(0), iat: None, jti: Some(y.clone()) };
                    for kid in [None, Some(x.clone()), Some(y.clone()), Some(s.world[ALICE].kid("e1"))] {
                        go(rec, format!("{i}.{j}.{kid:?}"), Op::FpPack { fp: fp.clone(), kid });
                    }
                }
                go(rec, format!("u{i}"), Op::FpUnpack { jwt: x.clone() });
            }
            "wrap" => {
                let inner = json!({"x": 1}).to_string();
                for (j, y) in n.iter().chain([&b, &a]).enumerate() {
                    for alg in &ANON {
                        for keys in [vec![], vec![y.clone()], vec![y.clone(), b.clone()], vec![b.clone(), y.clone()], vec![y.clone(), y.clone()], vec![b.clone(), y.clone(), b.clone()]] {
                            let what = format!("{i}.{j}.{}.{}", anon_enc_name(alg), hash(&keys));
                            go(rec, what, Op::Wrap { text: inner.clone(), headers: None, to: x.clone(), keys, alg: alg.clone() });
                        }
                    }
                }
                let heads = Some([(x.clone(), json!([x]))].into_iter().collect());
                for (j, t) in ["", "x", "{", "null", "[]", "1", "\u{0}", "{\"a\":1}{"].iter().enumerate() {
                    go(rec, format!("h{i}.{j}"), Op::Wrap { text: t.to_string(), headers: heads.clone(), to: b.clone(), keys: vec![b.clone()], alg: ANON[0].clone() });
                }
                go(rec, format!("g{i}"), Op::Wrap { text: x.clone(), headers: heads, to: b.clone(), keys: vec![b.clone(); 7], alg: ANON[1].clone() });
            }
            _ => unreachable!(),
        }
    }
}
/// Identifiers of every shape: long and short, with multi-byte characters so placed that every byte
/// offset from either end falls inside one in some of them.
fn identifiers() -> Vec<String> {
    let mut v = nasty();
    for base in ["", "did:x:", "did:example:alice", "did:example:alice#", "did:example:bob#", "did:example:bob#x1", "did:example:carol#e1"] {
        for n in 0..3 {
            for m in [1, 2, 7, 20, 400] {
                v.push(format!("{base}{}{}", "a".repeat(n), "\u{20ac}".repeat(m)));
            }
        }
        for m in [1, 30, 60, 300] {
            v.push(format!("{base}{}", "k".repeat(m)));
            v.push(format!("{base}{}\u{1F600}", "k".repeat(m)));
            v.push(format!("\u{e9}{}{base}", "k".repeat(m)));
        }
    }
    v
}

const ID_SLOTS: [&str; 12] = [
    "packing",
    "sender", "sender-known", "recipient", "recipient-held", "second-recipient", "signer", "signer-known", "token-kid", "token-kid-known", "token-claims", "next",
];
/// Correctly protected texts in which one identifier is `id`.
fn with_identifier(rec: &mut Rec, s: &Stage, slot: &str, kt: KT, what: &str, id: &str) {
    let (a, b, c) = (&s.world[ALICE], &s.world[BOB], &s.world[CAROL]);
    let frag = if kt == KT::P256 { "p1" } else { "x1" };
    let (ak, bk) = (a.kid(frag), b.kid(frag));
    let (akey, bkey) = (&a.get(frag).key, &b.get(frag).key);
    let mut net = s.net(BOB);
    let plain = rich_plain(s).to_string();
    let did = id.split('#').next().unwrap();
    // a document in which the identifier is listed, for every purpose, with the key in question
    let mut known = |net: &mut Net, k: &Key| {
        let mut d = net.docs.get(did).cloned().unwrap_or(DIDDoc {
            id: did.into(),
            key_agreement: vec![],
            authentication: vec![],
            verification_method: vec![],
            service: vec![],
        });
        d.key_agreement.push(id.into());
        d.authentication.push(id.into());
        d.verification_method.push(k.vm(id, Enc::Jwk));
        net.docs.insert(did.into(), d);
    };
    match slot {
        "sender" | "sender-known" => {
            if slot == "sender-known" {
                known(&mut net, akey);
            }
            let t = Seal::new("id", "A256CBC-HS512", Some((id, akey)), &[(&bk, bkey)], plain.as_bytes()).build().to_string();
            wire(rec, &net, what, &t);
        }
        "recipient" | "recipient-held" | "second-recipient" => {
            if slot != "recipient" {
                net.secrets.push(bkey.secret(id, Enc::Jwk));
            }
            for snd in [None, Some((ak.as_str(), akey))] {
                let to: Vec<(&str, &Key)> = if slot == "second-recipient" { vec![(&bk, bkey), (id, bkey)] } else { vec![(id, bkey)] };
                let t = Seal::new("id", "A256CBC-HS512", snd, &to, plain.as_bytes()).build().to_string();
                wire(rec, &net, what, &t);
            }
        }
        "signer" | "signer-known" => {
            let k = &a.get(if kt == KT::P256 { "k1" } else { "e1" }).key;
            if slot == "signer-known" {
                known(&mut net, k);
            }
            wire(rec, &net, what, &ref_sign(k, id, plain.as_bytes()).to_string());
        }
        "token-kid" | "token-kid-known" => {
            let k = &c.get(if kt == KT::P256 { "s1" } else { "e1" }).key;
            if slot == "token-kid-known" {
                known(&mut net, k);
            }
            let h = json!({"typ":"JWT","alg":k.kt.sig_alg().unwrap(),"kid":id});
            token(rec, &net, what, &ref_jwt(k, &h, &json!({"iss": did, "sub": a.did})));
            token(rec, &net, what, &ref_jwt(k, &h, &json!({"iss": c.did, "sub": a.did})));
        }
        "packing" => {
            // the identifier, held and listed, as every argument that takes one
            for base in [ALICE, BOB] {
                let mut net = s.net(base);
                if net.docs.contains_key(did) && !id.contains('#') {
                    continue;
                }
                known(&mut net, akey);
                net.secrets.push(akey.secret(id, Enc::Jwk));
                let k = a.get(if kt == KT::P256 { "k1" } else { "e1" }).key.clone();
                let sid = format!("{id}s");
                let d = net.docs.get_mut(did).unwrap();
                d.authentication.insert(0, sid.clone());
                d.verification_method.push(k.vm(&sid, Enc::Jwk));
                net.secrets.push(k.secret(&sid, Enc::Jwk));
                d.service.push(service(id, "http://x", None, &[id.to_string(), b.kid("x1")]));
                d.service.push(service(&format!("{id}s"), did, None, &[]));
                let mut m = simple(Some(did), Some(did), "n");
                m.thid = Some(id.into());
                m.pthid = Some(id.into());
                m.id = id.into();
                let mut ops = vec![Op::Signed { msg: m.clone(), by: id.into() }, Op::Signed { msg: m.clone(), by: sid.clone() }];
                for (to, from, sign) in [(id, None, None), (id, Some(id), Some(&sid)), (did, Some(did), None), (id, Some(did), None)] {
                    for (forward, service, protect) in [(false, None, false), (true, None, true), (true, Some(id.to_string()), false), (true, Some(sid.clone()), true), (true, Some(format!("{id}x")), false)] {
                        ops.push(Op::Enc {
                            msg: m.clone(),
                            to: to.into(),
                            from: from.map(|s| s.into()),
                            sign: sign.cloned(),
                            opts: PackEncryptedOptions { forward, messaging_service: service, protect_sender: protect, ..Default::default() },
                        });
                    }
                }
                ops.push(Op::Wrap { text: "{}".into(), headers: None, to: id.into(), keys: vec![id.into(), did.into()], alg: ANON[0].clone() });
                for kid in [None, Some(sid.clone()), Some(id.to_string())] {
                    ops.push(Op::FpPack { fp: FromPrior { iss: did.into(), sub: "did:x:y".into(), aud: None, exp: None, nbf: None, iat: None, jti: None }, kid });
                }
                for (j, op) in ops.into_iter().enumerate() {
                    let what = format!("{what}/{base}.{j}");
                    rec.begin(&what);
                    rec.eval(&what, true);
                    match rec.guarded(|| run(&op, &net)) {
                        Err(p) => rec.fail(&what, format!("panic: {p}")),
                        Ok(o) => rec.outcome(o.label()),
                    }
                }
            }
        }
        "token-claims" => {
            let k = &c.get("e1").key;
            let h = json!({"typ":"JWT","alg":"EdDSA","kid":c.kid("e1")});
            for m in ["iss", "sub", "aud", "jti"] {
                let mut cl = json!({"iss": c.did, "sub": a.did});
                cl[m] = json!(id);
                let t = ref_jwt(k, &h, &cl);
                token(rec, &net, &format!("{what}/{m}"), &t);
                let mut v = rich_plain(s);
                v["from_prior"] = json!(t);
                wire(rec, &net, &format!("{what}/{m}"), &v.to_string());
            }
        }
        _ => {
            for held in [false, true] {
                let mut net = s.net(BOB);
                if held {
                    known(&mut net, bkey);
                    net.secrets.push(bkey.secret(id, Enc::Jwk));
                }
                let mut v = forward_plain(s, serde_json::from_str(&protect(s, "auth", &plain)).unwrap());
                v["body"]["next"] = json!(id);
                wire(rec, &net, &format!("{what}/{held}"), &protect(s, "anon", &v.to_string()));
            }
        }
    }
}

fn hash(k: &[String]) -> String {
    format!("{:x}", crate::engine::hash64(&k.to_vec()))
}

/// Documents whose strings are replaced one by one (typed, so nothing is filtered by parsing).
fn typed_docs(p: &Party) -> Vec<(String, DIDDoc)> {
    let d = p.doc();
    let mut out = vec![];
    for (i, x) in nasty().into_iter().enumerate() {
        let mut push = |n: &str, f: &dyn Fn(&mut DIDDoc)| {
            let mut e = d.clone();
            f(&mut e);
            out.push((format!("{n}/{i}"), e));
        };
        push("id", &|e| e.id = x.clone());
        for j in 0..d.key_agreement.len() {
            push(&format!("ka{j}"), &|e| e.key_agreement[j] = x.clone());
        }
        push("ka-all", &|e| e.key_agreement = vec![x.clone(); 3]);
        push("ka-add", &|e| e.key_agreement.push(x.clone()));
        for j in 0..d.authentication.len() {
            push(&format!("au{j}"), &|e| e.authentication[j] = x.clone());
        }
        push("au-add", &|e| e.authentication.push(x.clone()));
        for j in 0..d.verification_method.len() {
            push(&format!("vm{j}"), &|e| e.verification_method[j].id = x.clone());
            push(&format!("vmc{j}"), &|e| e.verification_method[j].controller = x.clone());
            push(&format!("vmj{j}"), &|e| e.verification_method[j].verification_material = VM::JWK { public_key_jwk: json!(x) });
            push(&format!("vmb{j}"), &|e| e.verification_method[j].verification_material = VM::Base58 { public_key_base58: x.clone() });
            push(&format!("vmm{j}"), &|e| e.verification_method[j].verification_material = VM::Multibase { public_key_multibase: x.clone() });
        }
        for j in 0..3 {
            let sv = |uri: &str, keys: &[String]| -> Service { service(&x, uri, Some(vec!["didcomm/v2"]), keys) };
            let own = p.did.clone();
            let s = match j {
                0 => sv(&x, &[]),
                1 => sv("http://x", &[x.clone(), x.clone()]),
                _ => sv(&own, &[x.clone(), own.clone()]),
            };
            push(&format!("sv{j}"), &|e| e.service = vec![s.clone(), s.clone()]);
        }
    }
    out
}

/// Every multicodec prefix of up to `n` bytes over an alphabet, before bodies of every length.
fn varints(rec: &mut Rec, n: usize) {
    let alpha = [0x00u8, 0x01, 0x26, 0x7f, 0x80, 0x81, 0x82, 0xec, 0xed, 0xff];
    let k = Key::derive(KT::X25519, "v");
    let m = simple(None, Some("did:example:b"), "v");
    let id = "did:example:b#k";
    let mut pre: Vec<Vec<u8>> = vec![vec![]];
    let mut last = pre.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|p| alpha.iter().map(move |a| [&p[..], &[*a]].concat())).collect();
        pre.extend(last.iter().cloned());
    }
    for x in [0x80u8, 0xff, 0xec, 0x82] {
        for l in 0..14 {
            pre.push([&vec![x; l][..], &[0x01]].concat());
            pre.push(vec![x; l]);
        }
    }
    let seal = Seal::new("v", "XC20P", None, &[(id, &k)], b"{}").build().to_string();
    for (i, p) in pre.iter().enumerate() {
        for body in [0usize, 1, 30, 31, 32, 33, 64] {
            let t = mb(p, &vec![7; body]);
            let what = format!("{}.{body}", p.iter().map(|b| format!("{b:02x}")).collect::<String>());
            rec.begin(&what);
            rec.eval(&what, true);
            let mut vm = k.vm(id, Enc::Mb);
            vm.verification_material = VM::Multibase { public_key_multibase: t.clone() };
            let mut e = vm.clone();
            e.type_ = Key::derive(KT::Ed25519, "v").vm(id, Enc::Mb).type_;
            let d = DIDDoc { id: "did:example:b".into(), key_agreement: vec![id.into()], authentication: vec![id.into()], verification_method: vec![if i % 2 == 0 { vm } else { e }], service: vec![] };
            let mut sec = if i % 2 == 0 { k.secret(id, Enc::Mb) } else { Key::derive(KT::Ed25519, "v").secret(id, Enc::Mb) };
            sec.secret_material = SM::Multibase { private_key_multibase: t };
            let net = Net::new(&[d], &[sec]);
            let sig = ref_sign(&Key::derive(KT::Ed25519, "v"), id, b"{}").to_string();
            for op in [
                Op::Enc { msg: m.clone(), to: "did:example:b".into(), from: None, sign: None, opts: Mode::plain().opts() },
                Op::Enc { msg: m.clone(), to: id.into(), from: Some(id.into()), sign: None, opts: Mode::plain().opts() },
                Op::Signed { msg: m.clone(), by: id.into() },
                Op::unpack(&seal),
                Op::unpack(&sig),
            ] {
                match rec.guarded(|| run(&op, &net)) {
                    Err(x) => rec.fail(&what, format!("panic: {x}")),
                    Ok(o) => rec.outcome(o.label()),
                }
            }
        }
    }
}

/// Every length of every binary field of an otherwise correct envelope.
fn lengths(rec: &mut Rec, s: &Stage, w: &str) {
    let net = s.net(BOB);
    let t: Value = serde_json::from_str(&protect(s, w, &rich_plain(s).to_string())).unwrap();
    let fields: Vec<Path> = nodes(&t).into_iter().filter(|p| get(&t, p).as_str().map_or(false, |x| b64u_dec(x).is_some()) && !show(p).ends_with(".kid")).collect();
    for f in fields {
        let b = b64u_dec(get(&t, &f).as_str().unwrap()).unwrap();
        for n in (0..=130).chain([1000, 65536]) {
            let c: Vec<u8> = b.iter().cycle().take(n).copied().collect();
            wire(rec, &net, &format!("{}/{n}", show(&f)), &with(&t, &f, json!(b64u(&c))).to_string());
        }
    }
    // and of the ephemeral key in a consistent protected header
    if w == "anon" || w == "auth" {
        let (a, b) = (&s.world[ALICE], &s.world[BOB]);
        for (kt, frag) in [(KT::X25519, "x1"), (KT::P256, "p1")] {
            let (ak, bk) = (a.kid(frag), b.kid(frag));
            let snd = (w == "auth").then(|| (ak.as_str(), &a.get(frag).key));
            let seal = Seal::new("len", "A256CBC-HS512", snd, &[(&bk, &b.get(frag).key)], b"{}");
            for m in ["x", "y", "d"] {
                for n in (0..=70).chain([1000]) {
                    for fill in [0u8, 1, 0xff] {
                        let mut sl = seal.clone();
                        let mut epk = Key::derive(kt, "epk/len").public_jwk();
                        epk[m] = json!(b64u(&vec![fill; n]));
                        sl.extra_protected.push(("epk".into(), epk));
                        wire(rec, &net, &format!("epk-{kt:?}-{m}/{n}/{fill}"), &sl.build().to_string());
                    }
                }
            }
        }
    }
}

fn json_types(rec: &mut Rec, s: &Stage) {
    let pool = pool();
    let opts = json!({"protect_sender": true, "forward": true, "forward_headers": {"a": 1}, "messaging_service": "x",
        "enc_alg_auth": "A256cbcHs512Ecdh1puA256kw", "enc_alg_anon": "Xc20pEcdhEsA256kw"});
    let mut seen = 0;
    for (w, v) in mutants(&opts, &pool) {
        if let Some(o) = parse::<PackEncryptedOptions>(rec, &format!("opts{w}"), &v) {
            let m = simple(None, None, "o");
            let op = Op::Enc { msg: m, to: s.world[BOB].did.clone(), from: Some(s.world[ALICE].did.clone()), sign: None, opts: o };
            match rec.guarded(|| run(&op, &s.net(ALICE))) {
                Err(p) => rec.fail(format!("opts{w}"), format!("panic: {p}")),
                Ok(o) => rec.outcome(o.label()),
            }
            seen += 1;
        }
    }
    assert!(seen > 5);
    for (w, v) in mutants(&json!({"expect_decrypt_by_all_keys": true, "unwrap_re_wrapping_forward": false}), &pool) {
        parse::<UnpackOptions>(rec, &format!("un{w}"), &v);
    }
    let fp = json!({"iss": "did:example:carol", "sub": "did:example:alice", "aud": "b", "exp": 1, "nbf": 2, "iat": 3, "jti": "j"});
    for (w, v) in mutants(&fp, &pool) {
        if let Some(f) = parse::<FromPrior>(rec, &format!("fp{w}"), &v) {
            match rec.guarded(|| run(&Op::FpPack { fp: f, kid: None }, &s.net(CAROL))) {
                Err(p) => rec.fail(format!("fp{w}"), format!("panic: {p}")),
                Ok(o) => rec.outcome(o.label()),
            }
        }
    }
}

/// Messages as the API lets one build them.
fn built(rec: &mut Rec, s: &Stage) {
    let pool = pool();
    let (a, b) = (s.world[ALICE].did.clone(), s.world[BOB].did.clone());
    let net = s.net(ALICE);
    let mut ms: Vec<(String, Message)> = vec![];
    for (i, v) in pool.iter().enumerate() {
        ms.push((format!("body{i}"), Message::build("i".into(), "t".into(), v.clone()).from(a.clone()).to(b.clone()).finalize()));
        for k in ["id", "type", "typ", "body", "to", "from", "attachments", "from_prior", "", "x", "thid", "created_time"] {
            ms.push((format!("head{i}{k}"), Message::build("i".into(), "t".into(), json!({})).header(k.into(), v.clone()).from(a.clone()).to(b.clone()).finalize()));
        }
        let mut at = Attachment::json(v.clone()).id("a".into()).finalize();
        ms.push((format!("att{i}"), Message::build("i".into(), "t".into(), json!({})).attachment(at.clone()).from(a.clone()).to(b.clone()).finalize()));
        if let AttachmentData::Json { value } = &mut at.data {
            value.jws = Some(v.to_string());
        }
        at.byte_count = Some(u64::MAX);
        ms.push((format!("attj{i}"), Message::build("i".into(), "t".into(), json!({})).attachment(at).from(a.clone()).to(b.clone()).finalize()));
    }
    for (i, x) in nasty().into_iter().enumerate() {
        let at = vec![
            Attachment::base64(x.clone()).jws(x.clone()).id(x.clone()).media_type(x.clone()).finalize(),
            Attachment::links(vec![x.clone(); 2], x.clone()).jws(x.clone()).filename(x.clone()).format(x.clone()).description(x.clone()).finalize(),
            Attachment::links(vec![], String::new()).lastmod_time(u64::MAX).finalize(),
        ];
        ms.push((format!("natt{i}"), Message::build(x.clone(), x.clone(), json!({ x.clone(): x })).attachments(at).from(a.clone()).to(b.clone()).finalize()));
    }
    let net_b = s.net(BOB);
    for (w, m) in ms {
        for op in [
            Op::Plain { msg: m.clone() },
            Op::Signed { msg: m.clone(), by: a.clone() },
            Op::Enc { msg: m.clone(), to: b.clone(), from: Some(a.clone()), sign: Some(a.clone()), opts: Mode::plain().opts() },
        ] {
            rec.begin(&w);
            rec.eval(&w, true);
            match rec.guarded(|| run(&op, &net)) {
                Err(p) => rec.fail(&w, format!("panic: {p}")),
                Ok(Out::Packed(t, _)) => {
                    rec.outcome("packed");
                    match rec.guarded(|| run(&Op::unpack(&t), &net_b)) {
                        Err(p) => rec.fail(&w, format!("panic unpacking: {p}")),
                        Ok(o) => rec.outcome(o.label()),
                    }
                }
                Ok(o) => rec.outcome(o.label()),
            }
        }
    }
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C11",
        "exploration",
        "every single mutation (each node x each replacement value, removal, renaming, duplication, exchange, wrapping) of every \
         layer of every kind of envelope, with the layers above it correctly rebuilt; every cut, drop, insertion and substitution \
         of their texts; every length of every binary field; every mutation of every document, secret and token, used in all \
         operations; awkward strings in every argument, pairwise; every short multicodec prefix. Non-trivial: all",
    );
    p.assumptions = vec![
        "JSON nested deeper than serde_json's limit of 128 only arrives as text".into(),
        "resolver callbacks themselves return".into(),
    ];
    let s = Arc::new(Stage::new());
    let alpha: Arc<Vec<char>> = Arc::new(if full { "\"{}[],:\\ \0é0aZ-_=.+/".chars().collect() } else { "\"{,\\\0éA".chars().collect() });
    // 1, 2: outer layer as JSON and as text
    for i in 0..s.sc.len() {
        let Op::Unpack { .. } = &s.sc[i].op else { continue };
        let (s1, name, who) = (s.clone(), s.sc[i].name, s.sc[i].who);
        p.case(format!("outer/{name}"), move |rec| {
            let net = s1.net(who);
            let Op::Unpack { text, .. } = &s1.sc[i].op else { unreachable!() };
            let v: Value = serde_json::from_str(text).unwrap();
            rec.sample(|| v.clone());
            for (w, m) in mutants(&v, &pool()) {
                wire(rec, &net, &w, &m.to_string());
            }
            for n in nodes(&v) {
                for st in [Style::Dup, Style::Escape, Style::EscapeName, Style::Space, Style::Reverse] {
                    wire(rec, &net, &format!("{}{st:?}", show(&n)), &render(&v, &n, st));
                }
            }
        });
        let (s1, al) = (s.clone(), alpha.clone());
        p.case(format!("text/{name}"), move |rec| {
            let net = s1.net(who);
            let Op::Unpack { text, .. } = &s1.sc[i].op else { unreachable!() };
            for (j, t) in texts(text, &al, if full { 1 } else { 3 }).into_iter().enumerate() {
                wire(rec, &net, &format!("{j}"), &t);
            }
        });
    }
    for d in [10usize, 127, 128, 129, 1000, 200_000] {
        let s1 = s.clone();
        p.case(format!("depth/{d}"), move |rec| {
            let net = s1.net(BOB);
            for (o, c) in [("[", "]"), ("{\"a\":", "}"), ("{\"protected\":", "}"), ("{\"payload\":", "}"), ("{\"body\":", "}")] {
                let x = format!("{}1{}", o.repeat(d), c.repeat(d));
                let y = format!("{}\"{}\":1,\"body\":{x}}}", "{\"id\":\"a\",\"type\":\"b\",\"typ\":\"application/didcomm-plain+json\",", "zz");
                for t in [x.clone(), o.repeat(d), y.clone(), format!("{{\"protected\":\"{}\",\"recipients\":[],\"iv\":\"\",\"ciphertext\":\"\",\"tag\":\"\"}}", b64u(x.as_bytes()))] {
                    wire(rec, &net, &format!("{o}{}", t.len()), &t);
                }
                for w in ["anon", "auth", "signed", "anon-auth-signed"] {
                    wire(rec, &net, &format!("{o}{w}"), &protect(&s1, w, &x));
                    wire(rec, &net, &format!("{o}{w}m"), &protect(&s1, w, &y));
                }
                token(rec, &net, &format!("{o}jwt"), &format!("{}.{}.AA", b64u(x.as_bytes()), b64u(x.as_bytes())));
            }
        });
    }
    // 3: protected headers
    for (k, (kt, frag)) in [(KT::X25519, "x1"), (KT::P256, "p1")].into_iter().enumerate() {
        for auth in [false, true] {
            let s1 = s.clone();
            p.case(format!("protected/{kt:?}/{}", if auth { "auth" } else { "anon" }), move |rec| {
                let (a, b) = (&s1.world[ALICE], &s1.world[BOB]);
                let (ak, bk) = (a.kid(frag), b.kid(frag));
                let net = s1.net(BOB);
                for enc in if k == 0 { &ENC_ALGS[..] } else { &ENC_ALGS[..1] } {
                    let snd = auth.then(|| (ak.as_str(), &a.get(frag).key));
                    let seal = Seal::new("ph", enc, snd, &[(&bk, &b.get(frag).key)], rich_plain(&s1).to_string().as_bytes());
                    let ph = seal.protected();
                    for (w, m) in mutants(&ph, &pool()) {
                        wire(rec, &net, &format!("{enc}{w}"), &seal.build_with(&m.to_string()).to_string());
                    }
                    for n in nodes(&ph) {
                        for st in [Style::Dup, Style::Escape, Style::EscapeName, Style::Space, Style::Reverse] {
                            wire(rec, &net, &format!("{enc}{}{st:?}", show(&n)), &seal.build_with(&render(&ph, &n, st)).to_string());
                        }
                    }
                    for (j, t) in texts(&ph.to_string(), &['"', '{', '\\', '\0', 'é', '0'], if full { 1 } else { 2 }).into_iter().enumerate() {
                        wire(rec, &net, &format!("{enc}t{j}"), &seal.build_with(&t).to_string());
                    }
                    // party info as arbitrary bytes, correctly bound
                    for f in ["apu", "apv"] {
                        for n in 0..70 {
                            for fill in [0u8, b'#', 0x80, 0xff] {
                                let mut sl = seal.clone();
                                *(if f == "apu" { &mut sl.apu } else { &mut sl.apv }) = Some(vec![fill; n]);
                                for skid in [true, false] {
                                    sl.with_skid = skid;
                                    wire(rec, &net, &format!("{enc}{f}{n}.{fill}.{skid}"), &sl.build().to_string());
                                }
                            }
                        }
                    }
                }
            });
        }
    }
    for kt in [KT::Ed25519, KT::K256] {
        let s1 = s.clone();
        p.case(format!("signature-header/{kt:?}"), move |rec| {
            let a = &s1.world[ALICE];
            let k = a.get(if kt == KT::Ed25519 { "e1" } else { "k1" }).clone();
            let net = s1.net(BOB);
            let pl = b64u(rich_plain(&s1).to_string().as_bytes());
            let h: Value = serde_json::from_str(&jws_header(kt.sig_alg().unwrap())).unwrap();
            for (w, m) in mutants(&h, &pool()) {
                let e = jws_entry(&k.key, &k.kid, &m.to_string(), &pl);
                for (n, sigs) in [vec![e.clone()], vec![e.clone(), e.clone()], vec![]].into_iter().enumerate() {
                    wire(rec, &net, &format!("{w}{n}"), &json!({"payload": pl, "signatures": sigs}).to_string());
                }
            }
            for (j, t) in texts(&h.to_string(), &['"', '{', '\\', '\0', 'é', '0'], 1).into_iter().enumerate() {
                let e = jws_entry(&k.key, &k.kid, &t, &pl);
                wire(rec, &net, &format!("t{j}"), &json!({"payload": pl, "signatures": [e]}).to_string());
            }
            for (j, x) in nasty().iter().enumerate() {
                let e = jws_entry(&k.key, x, &h.to_string(), &pl);
                wire(rec, &net, &format!("k{j}"), &json!({"payload": pl, "signatures": [e]}).to_string());
            }
        });
    }
    // 4: what is inside
    for w in WRAPS {
        let s1 = s.clone();
        p.case(format!("plaintext/{w}"), move |rec| {
            let net = s1.net(BOB);
            let v = rich_plain(&s1);
            assert!(block_on(unpack(&protect(&s1, w, &v.to_string()), &net)).is_ok());
            let pool: Vec<Value> = if full || w == "plain" { pool() } else { pool().into_iter().step_by(3).collect() };
            for (n, m) in mutants(&v, &pool) {
                wire(rec, &net, &n, &protect(&s1, w, &m.to_string()));
            }
            for n in nodes(&v) {
                for st in [Style::Dup, Style::Escape, Style::EscapeName, Style::Space] {
                    wire(rec, &net, &format!("{}{st:?}", show(&n)), &protect(&s1, w, &render(&v, &n, st)));
                }
            }
        });
        let s1 = s.clone();
        p.case(format!("forward/{w}"), move |rec| {
            let net = s1.net(BOB);
            let inner: Value = serde_json::from_str(&protect(&s1, "auth", &rich_plain(&s1).to_string())).unwrap();
            let v = forward_plain(&s1, inner);
            assert!(block_on(unpack(&protect(&s1, w, &v.to_string()), &net)).is_ok());
            let pool: Vec<Value> = if full || w == "anon" { pool() } else { pool().into_iter().step_by(3).collect() };
            for (n, m) in mutants(&v, &pool) {
                wire(rec, &net, &n, &protect(&s1, w, &m.to_string()));
            }
        });
    }
    for depth in [1usize, 2, 10, 40] {
        let s1 = s.clone();
        p.case(format!("forward-nest/{depth}"), move |rec| {
            let net = s1.net(BOB);
            let mut t = protect(&s1, "auth", &rich_plain(&s1).to_string());
            for _ in 0..depth {
                t = protect(&s1, "anon", &forward_plain(&s1, serde_json::from_str(&t).unwrap()).to_string());
                if t.len() > 20_000_000 {
                    break;
                }
            }
            wire(rec, &net, "nest", &t);
            let mut t = rich_plain(&s1).to_string();
            for i in 0..depth.min(20) {
                t = protect(&s1, ["signed", "anon", "auth"][i % 3], &t);
                wire(rec, &net, &format!("stack{i}"), &t);
            }
        });
    }
    // 5: tokens
    for (kt, frag) in [(KT::Ed25519, "e1"), (KT::P256, "s1")] {
        let s1 = s.clone();
        let al = alpha.clone();
        p.case(format!("token/{kt:?}"), move |rec| {
            let c = &s1.world[CAROL];
            let k = &c.get(frag).key;
            let net = s1.net(BOB);
            let h = json!({"typ":"JWT","alg":kt.sig_alg().unwrap(),"kid":c.kid(frag)});
            let cl = json!({"iss": c.did, "sub": s1.world[ALICE].did, "aud": "b", "exp": 1, "iat": 2, "nbf": 3, "jti": "j"});
            for (w, m) in mutants(&h, &pool()) {
                token(rec, &net, &format!("h{w}"), &ref_jwt(k, &m, &cl));
            }
            for (w, m) in mutants(&cl, &pool()) {
                token(rec, &net, &format!("c{w}"), &ref_jwt(k, &h, &m));
            }
            let t = ref_jwt(k, &h, &cl);
            for (j, x) in texts(&t, &al, 1).into_iter().enumerate() {
                token(rec, &net, &format!("t{j}"), &x);
            }
            let parts: Vec<&str> = t.split('.').collect();
            for (i, _) in parts.iter().enumerate() {
                for (j, x) in ["", "=", ".", "..", "A", "AA", "é", "e30", "bnVsbA", "W10"].iter().enumerate() {
                    let mut q = parts.clone();
                    q[i] = x;
                    token(rec, &net, &format!("p{i}.{j}"), &q.join("."));
                }
            }
            let sig = b64u_dec(parts[2]).unwrap();
            for n in 0..140 {
                let b: Vec<u8> = sig.iter().cycle().take(n).copied().collect();
                token(rec, &net, &format!("s{n}"), &format!("{}.{}.{}", parts[0], parts[1], b64u(&b)));
            }
        });
    }
    // 6
    for w in ["signed", "anon", "auth"] {
        let s1 = s.clone();
        p.case(format!("lengths/{w}"), move |rec| lengths(rec, &s1, w));
    }
    // 7: documents and secrets
    for i in 0..s.world.len() {
        let nodes_ = nodes(&serde_json::to_value(s.world[i].doc()).unwrap()).len();
        let _ = nodes_;
        let s1 = s.clone();
        p.case(format!("doc/{}", s.world[i].did), move |rec| {
            let d = serde_json::to_value(s1.world[i].doc()).unwrap();
            let all = docs_of(&s1.world);
            for (w, m) in mutants(&d, &pool()) {
                if let Some(doc) = parse::<DIDDoc>(rec, &w, &m) {
                    let mut ds = all.clone();
                    ds[i] = doc;
                    all_ops(rec, &s1, &w, &m.to_string(), &ds, None);
                }
            }
        });
        let s1 = s.clone();
        p.case(format!("doc-strings/{}", s.world[i].did), move |rec| {
            let all = docs_of(&s1.world);
            for (w, doc) in typed_docs(&s1.world[i]) {
                let mut ds = all.clone();
                ds[i] = doc;
                all_ops(rec, &s1, &w, &w, &ds, None);
            }
        });
        let s1 = s.clone();
        p.case(format!("secret/{}", s.world[i].did), move |rec| {
            let secrets = s1.world[i].secrets();
            let docs = docs_of(&s1.world);
            for j in 0..secrets.len() {
                let v = serde_json::to_value(&secrets[j]).unwrap();
                for (w, m) in mutants(&v, &pool()) {
                    if let Some(sec) = parse::<Secret>(rec, &format!("{j}{w}"), &m) {
                        let mut ss = secrets.clone();
                        // as it parsed, and under the id that is asked for
                        ss[j] = sec.clone();
                        all_ops(rec, &s1, &format!("{j}{w}"), &m.to_string(), &docs, Some((i, &ss)));
                        ss[j].id = secrets[j].id.clone();
                        all_ops(rec, &s1, &format!("{j}{w}-id"), &m.to_string(), &docs, Some((i, &ss)));
                    }
                }
            }
        });
    }
    // 8
    for slot in ["to", "from", "sign", "service", "message", "token", "wrap"] {
        let s1 = s.clone();
        p.case(format!("strings/{slot}"), move |rec| api_strings(rec, &s1, slot));
    }
    for slot in ID_SLOTS {
        for kt in [KT::X25519, KT::P256] {
            let s1 = s.clone();
            p.case(format!("identifier/{slot}/{kt:?}"), move |rec| {
                for (j, id) in identifiers().iter().enumerate() {
                    with_identifier(rec, &s1, slot, kt, &format!("{j}"), id);
                }
            });
        }
    }
    // 9..12
    let s1 = s.clone();
    p.case("json-types", move |rec| json_types(rec, &s1));
    let s1 = s.clone();
    p.case("built", move |rec| built(rec, &s1));
    p.case("multicodec", move |rec| varints(rec, if full { 4 } else { 3 }));
    // 13: pairs of mutations of the envelope and of the plaintext
    if full {
        for w in ["signed", "anon", "auth"] {
            let s1 = s.clone();
            let small: Vec<Value> = vec![json!(null), json!(1), json!(""), json!([]), json!({})];
            let t: Value = serde_json::from_str(&protect(&s, w, "{\"id\":\"i\",\"type\":\"t\",\"typ\":\"application/didcomm-plain+json\",\"body\":{}}")).unwrap();
            for (n, (w1, m1)) in mutants(&t, &small).into_iter().enumerate() {
                let (s1, small) = (s1.clone(), small.clone());
                p.case(format!("pairs/{w}/{n}"), move |rec| {
                    let net = s1.net(BOB);
                    for (w2, m2) in mutants(&m1, &small) {
                        wire(rec, &net, &format!("{w1}{w2}"), &m2.to_string());
                    }
                });
            }
        }
    }
    p.bounds = json!({"mutations at once": if full { "1, and 2 on envelopes" } else { "1" }, "multicodec prefix bytes": if full { 4 } else { 3 },
        "text alphabet": alpha.iter().collect::<String>()});
    crate::near::c11_nobody(&mut p);
    p
}
