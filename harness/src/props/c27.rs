//! C27: private keys, content keys and ephemeral private keys never leave the library.
use crate::engine::{Env, Plan, Rec};
use crate::keys::{can, Enc, Key, ENCS, KT, KTS};
use crate::msgs::simple;
use crate::ops::*;
use crate::refjose::*;
use crate::world::*;
use askar_crypto::random::standin;
use didcomm::secrets::{Secret, SecretMaterial};
use didcomm::{Message, UnpackOptions};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::Arc;

const W: usize = 10;

/// Every way a secret may show: windows of W of its bytes, raw, hex, base64 (either alphabet, any
/// alignment), as a list of numbers; windows of its text in base58.
struct Spy {
    raw: HashSet<Vec<u8>>,
    texts: HashSet<Vec<u8>>,
    lens: Vec<usize>,
    b64w: usize,
}
impl Spy {
    fn new<'a>(raws: impl IntoIterator<Item = &'a [u8]>, texts: impl IntoIterator<Item = String>) -> Spy {
        let mut s = Spy { raw: HashSet::new(), texts: HashSet::new(), lens: vec![], b64w: 12 };
        for r in raws {
            for w in r.windows(W) {
                s.raw.insert(w.to_vec());
                s.text(&w.iter().map(|b| format!("{b:02x}")).collect::<String>());
                s.text(&w.iter().map(|b| format!("{b:02X}")).collect::<String>());
                s.text(&w[..6].iter().map(|b| b.to_string()).collect::<Vec<_>>().join(", "));
                s.text(&w[..6].iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","));
            }
            for w in r.windows(9) {
                let t = b64u(w);
                s.text(&t);
                s.text(&t.replace('-', "+").replace('_', "/"));
            }
            let t = b58enc(r);
            t.as_bytes().windows(14).for_each(|w| s.put(w));
        }
        for t in texts {
            t.as_bytes().windows(14).for_each(|w| s.put(w));
        }
        s.lens = s.texts.iter().map(|t| t.len()).collect::<HashSet<_>>().into_iter().collect();
        s
    }
    fn text(&mut self, t: &str) {
        self.put(t.as_bytes());
    }
    fn put(&mut self, t: &[u8]) {
        self.texts.insert(t.to_vec());
    }
    fn bytes(&self, b: &[u8]) -> Option<String> {
        if let Some(w) = b.windows(W).find(|w| self.raw.contains(*w)) {
            return Some(format!("the bytes {w:?}"));
        }
        for n in &self.lens {
            if let Some(w) = b.windows(*n).find(|w| self.texts.contains(*w)) {
                return Some(format!("{:?}", String::from_utf8_lossy(w)));
            }
        }
        None
    }
    /// The text itself and everything that can be decoded from it.
    fn look(&self, t: &str) -> Option<String> {
        if let Some(f) = self.bytes(t.as_bytes()) {
            return Some(f);
        }
        if let Ok(v) = serde_json::from_str::<Value>(t) {
            return self.value(&v);
        }
        for part in t.split('.') {
            if part.len() >= self.b64w {
                if let Some(raw) = b64u_dec(part) {
                    if let Some(f) = self.bytes(&raw) {
                        return Some(format!("{f} in base64"));
                    }
                    if let Ok(t) = std::str::from_utf8(&raw) {
                        if let Some(f) = self.look(t) {
                            return Some(format!("{f} in base64"));
                        }
                    }
                }
            }
        }
        None
    }
    fn value(&self, v: &Value) -> Option<String> {
        match v {
            Value::String(s) => self.look(s),
            Value::Array(a) => a.iter().find_map(|x| self.value(x)),
            Value::Object(o) => o.iter().find_map(|(k, x)| self.look(k).or_else(|| self.value(x))),
            _ => None,
        }
    }
}

fn secret_text(s: &Secret) -> String {
    match &s.secret_material {
        SecretMaterial::JWK { private_key_jwk } => private_key_jwk["d"].as_str().unwrap_or_default().into(),
        SecretMaterial::Multibase { private_key_multibase: t } => t.clone(),
        SecretMaterial::Base58 { private_key_base58: t } => t.clone(),
    }
}

fn errors(e: &didcomm::error::Error) -> String {
    let mut t = format!("{e}\n{e:?}\n{e:#}\n{e:#?}");
    let mut s: Option<&dyn std::error::Error> = std::error::Error::source(e);
    while let Some(x) = s {
        t += &format!("\n{x}\n{x:?}");
        s = x.source();
    }
    t
}

/// All that an operation says to its caller and to the resolvers, with the random keys it drew.
fn all_said(op: &Op, net: &Net) -> (Vec<String>, Vec<Vec<u8>>) {
    standin::record();
    let mut said = vec![];
    macro_rules! res {
        ($r:expr, $f:expr) => {
            match $r {
                Ok(x) => said.extend($f(x)),
                Err(e) => said.push(errors(&e)),
            }
        };
    }
    match op {
        Op::Plain { msg } => res!(block_on(msg.pack_plaintext(net)), |t| [t]),
        Op::Signed { msg, by } => res!(block_on(msg.pack_signed(by, net, net)), |(t, m)| [t, format!("{m:?}")]),
        Op::Enc { msg, to, from, sign, opts } => {
            res!(block_on(msg.pack_encrypted(to, from.as_deref(), sign.as_deref(), net, net, opts)), |(t, m)| [t, format!("{m:?}")])
        }
        Op::Unpack { text, all, unwrap } => {
            let o = UnpackOptions { expect_decrypt_by_all_keys: *all, unwrap_re_wrapping_forward: *unwrap };
            res!(block_on(Message::unpack(text, net, net, &o)), |(m, d): (Message, didcomm::UnpackMetadata)| [
                format!("{m:?}"),
                serde_json::to_string(&m).unwrap(),
                format!("{d:?}"),
                serde_json::to_string(&d).unwrap()
            ])
        }
        Op::FpPack { fp, kid } => res!(block_on(fp.pack(kid.as_deref(), net, net)), |(t, k)| [t, k]),
        Op::FpUnpack { jwt } => {
            res!(block_on(didcomm::FromPrior::unpack(jwt, net)), |(f, k): (didcomm::FromPrior, String)| [format!("{f:?}"), k])
        }
        Op::Wrap { text, headers, to, keys, alg } => res!(
            block_on(didcomm::protocols::routing::wrap_in_forward(text, headers.as_ref(), to, keys, alg, net)),
            |t| [t]
        ),
    }
    // nonces are shorter
    let drawn = standin::take().into_iter().filter(|d| d.len() >= 32).collect();
    said.extend(net.calls());
    (said, drawn)
}

/// What the reference implementation recovers as content keys from the nested envelopes of a text.
fn content_keys(text: &str, world: &[Party], out: &mut Vec<Vec<u8>>) {
    let look = lookup(world);
    let Ok(v) = serde_json::from_str::<Value>(text) else { return };
    if let Some(kid) = v["recipients"][0]["header"]["kid"].as_str() {
        let Some(k) = look(kid) else { return };
        if let Ok(o) = open_jwe(text, kid, &k, &|k| look(k)) {
            out.push(o.cek);
            if let Ok(t) = String::from_utf8(o.pt) {
                content_keys(&t, world, out);
            }
        }
    }
}

fn inspect(rec: &mut Rec, what: &str, op: &Op, net: &Net, world: &[Party], spoiled: &[String]) {
    rec.begin(what);
    let (said, drawn) = match rec.guarded(|| all_said(op, net)) {
        Err(p) => (vec![p], vec![]),
        Ok(x) => x,
    };
    let mut raws: Vec<Vec<u8>> = world.iter().flat_map(|p| p.keys.iter().map(|k| k.key.sk.to_vec())).collect();
    rec.outcome(if drawn.is_empty() { "no keys drawn" } else { "keys drawn" });
    raws.extend(drawn);
    if let Op::Unpack { text, .. } | Op::Wrap { text, .. } = op {
        content_keys(text, world, &mut raws);
    }
    let mut texts: Vec<String> = net.secrets.iter().map(secret_text).collect();
    texts.extend(spoiled.iter().cloned());
    let spy = Spy::new(raws.iter().map(|r| r.as_slice()), texts);
    for (i, s) in said.iter().enumerate() {
        rec.eval(&(what, i), !raws.is_empty());
        if let Some(f) = spy.look(s) {
            rec.fail(what, format!("key material ({f}) in {s}"));
        }
    }
}

/// Ways a secret may be unusable while its key material is still in it.
fn spoil(s: &Secret, full: bool) -> Vec<(String, Secret)> {
    let mut v = vec![];
    let mut put = |n: String, m: SecretMaterial| {
        let mut s = s.clone();
        s.secret_material = m;
        v.push((n, s));
    };
    let text = secret_text(s);
    let step = if full { 1 } else { 3 };
    let mut texts: Vec<(String, String)> = vec![
        ("short".into(), text[..text.len() - 1].into()),
        ("long".into(), format!("{text}A")),
        ("half".into(), text[..text.len() / 2].into()),
        ("space".into(), format!(" {text}")),
        ("twice".into(), format!("{text}{text}")),
        ("noprefix".into(), text[1..].into()),
        ("prefix".into(), format!("m{text}")),
    ];
    for i in (0..text.len()).step_by(step) {
        for c in ["!", "0", "l", "\u{e9}", "\u{0}", "\n", "=", "z", "\""] {
            texts.push((format!("{i}{}", c.escape_default()), format!("{}{c}{}", &text[..i], &text[i + 1..])));
        }
    }
    match &s.secret_material {
        SecretMaterial::JWK { private_key_jwk: j } => {
            for (n, t) in texts {
                let mut k = j.clone();
                k["d"] = json!(t);
                put(n, SecretMaterial::JWK { private_key_jwk: k });
            }
            let names: Vec<String> = j.as_object().unwrap().keys().cloned().collect();
            for n in &names {
                let mut k = j.clone();
                k.as_object_mut().unwrap().remove(n);
                put(format!("-{n}"), SecretMaterial::JWK { private_key_jwk: k });
                for (t, x) in [
                    ("null", json!(null)),
                    ("number", json!(7)),
                    ("array", json!([j[n]])),
                    ("object", json!({ "v": j[n] })),
                    ("other", json!("other")),
                    ("empty", json!("")),
                    ("d", j["d"].clone()),
                ] {
                    let mut k = j.clone();
                    k[n] = x;
                    put(format!("{n}={t}"), SecretMaterial::JWK { private_key_jwk: k });
                }
            }
            for crv in ["P-256", "X25519", "Ed25519", "secp256k1", "P-384"] {
                for kty in ["EC", "OKP", "RSA"] {
                    let mut k = j.clone();
                    k["crv"] = json!(crv);
                    k["kty"] = json!(kty);
                    put(format!("{kty}/{crv}"), SecretMaterial::JWK { private_key_jwk: k });
                }
            }
            put("string".into(), SecretMaterial::JWK { private_key_jwk: json!(j.to_string()) });
            put("list".into(), SecretMaterial::JWK { private_key_jwk: json!([j]) });
        }
        SecretMaterial::Multibase { .. } => {
            for (n, t) in texts {
                put(n, SecretMaterial::Multibase { private_key_multibase: t });
            }
        }
        SecretMaterial::Base58 { .. } => {
            for (n, t) in texts {
                put(n, SecretMaterial::Base58 { private_key_base58: t });
            }
        }
    }
    // the material under another kind of wrapping or another type
    for m in [
        SecretMaterial::Multibase { private_key_multibase: text.clone() },
        SecretMaterial::Base58 { private_key_base58: text.clone() },
        SecretMaterial::JWK { private_key_jwk: json!(text) },
    ] {
        put(format!("as {}", serde_json::to_value(&m).unwrap().as_object().unwrap().keys().next().unwrap()), m);
    }
    for t in ["JsonWebKey2020", "X25519KeyAgreementKey2019", "Ed25519VerificationKey2018", "EcdsaSecp256k1VerificationKey2019", "X25519KeyAgreementKey2020", "Ed25519VerificationKey2020", "Other"] {
        if let Ok(ty) = serde_json::from_value(json!(t)) {
            let mut x = s.clone();
            x.type_ = ty;
            v.push((format!("type {t}"), x));
        }
    }
    v
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C27",
        "exploration",
        "every operation of the stage (all forms of packing, unpacking, tokens, forwarding, and failing ones), with every single \
         resolver answer faulty; and every way of spoiling a secret (each member missing or of another type, text cut, extended, each \
         third (thorough: each) character replaced, other type or wrapping) of each key type and encoding, used to sign, to issue a \
         token, to encrypt as sender, and to decrypt: no text returned (message, metadata, error in every rendering with its sources), \
         nothing decodable from it, and no question to a resolver contains ten bytes of a private key, content key or ephemeral key \
         in raw, hex, base64, base58 or list form",
    );
    p.assumptions = vec!["messages of the external cryptography (askar-crypto) itself do not quote keys; here a stand-in for it is used".into()];
    p.namings = 1;
    p.bounds = json!({"window": W});
    p.case("selftest", |rec| {
        // the detector detects
        let k = Key::derive(KT::X25519, "spy");
        let spy = Spy::new([k.sk.as_slice()], [mb_text(&k)]);
        let b = |x: &[u8]| b64u(x);
        let forms = vec![
            ("jwk", k.private_jwk().to_string()),
            ("nested", json!({"a": [{"b": b(k.private_jwk().to_string().as_bytes())}]}).to_string()),
            ("jws", json!({"payload": b(json!({"x": b(k.private_jwk().to_string().as_bytes())}).to_string().as_bytes())}).to_string()),
            ("debug", format!("{:?}", k.sk)),
            ("hex", k.sk.iter().map(|b| format!("{b:02x}")).collect()),
            ("offset", b(&[&[1][..], &k.sk].concat())),
            ("offset2", b(&[&[1, 2][..], &k.sk[3..20]].concat())),
            ("b58", format!("x{}y", b58enc(&k.sk))),
            ("mb", format!("error in {}", mb_text(&k))),
            ("part", format!("error in {}", &mb_text(&k)[5..22])),
            ("secret", format!("{:?}", k.secret("did:a:b#c", Enc::Mb))),
            ("secret-json", serde_json::to_string(&k.secret("did:a:b#c", Enc::Jwk)).unwrap()),
            ("raw", json!({"iv": b(&k.sk[8..24])}).to_string()),
        ];
        for (n, f) in forms {
            rec.eval(n, true);
            rec.check(spy.look(&f).is_some(), n, || format!("the detector misses {f}"));
        }
        for t in [k.public_jwk().to_string(), b(&k.pk), "did:example:alice".into()] {
            rec.eval(&t, true);
            rec.check(spy.look(&t).is_none(), "quiet", || format!("the detector is wrong about {t}"));
        }
    });
    let world = Arc::new(stage());
    let mut acts = scenarios(&world);
    acts.extend(super::c26::failing(&world));
    for s in acts {
        let world = world.clone();
        p.case(format!("op/{}", s.name), move |rec| {
            let net = net_of(&world, s.who);
            inspect(rec, s.name, &s.op, &net, &world, &[]);
            let n = net.calls().len();
            rec.sample(|| json!({"operation": s.name, "resolver_calls": n}));
            for i in 0..n {
                let mut faults: Vec<Fault> = (0..KINDS.len()).map(|k| Fault::Err(ErrorKind2(k))).collect();
                faults.extend([Fault::None, Fault::Liar]);
                faults.extend((0..world[s.who].secrets().len()).map(Fault::Swap));
                for f in faults {
                    let mut net = net_of(&world, s.who);
                    net.faults.insert(i, f);
                    inspect(rec, &format!("{}/{i}:{f:?}", s.name), &s.op, &net, &world, &[]);
                }
            }
        });
    }
    for kt in KTS {
        for enc in ENCS.into_iter().filter(|e| can(kt, *e)) {
            p.case(format!("secret/{kt:?}/{enc:?}"), move |rec| {
                let ka = matches!(kt, KT::X25519 | KT::P256);
                let auth = kt != KT::X25519;
                let a = Party::new("did:example:alice").key("k", kt, enc, ka, auth).auth("e", KT::Ed25519);
                let b = Party::new("did:example:bob").ka("k", if ka { kt } else { KT::X25519 });
                let world = vec![a.clone(), b.clone()];
                let ak = (a.kid("k"), a.get("k").key.clone());
                let bk = (b.kid("k"), b.get("k").key.clone());
                let m = simple(Some(&a.did), Some(&b.did), "c27");
                let mut ops: Vec<(&str, Op)> = vec![];
                if auth {
                    ops.push(("sign", Op::Signed { msg: m.clone(), by: ak.0.clone() }));
                    let fp = didcomm::FromPrior::build(a.did.clone(), b.did.clone()).finalize();
                    ops.push(("token", Op::FpPack { fp, kid: Some(ak.0.clone()) }));
                }
                if ka {
                    let o = || didcomm::PackEncryptedOptions { forward: false, ..Default::default() };
                    ops.push(("auth", Op::Enc { msg: m.clone(), to: b.did.clone(), from: Some(ak.0.clone()), sign: None, opts: o() }));
                    let pt = crate::layers::ref_json(&simple(None, None, "c27")).to_string();
                    for e in ["A256GCM", "XC20P", "A256CBC-HS512"] {
                        let t = Seal::new("c27", e, None, &[(&ak.0, &ak.1)], pt.as_bytes()).build().to_string();
                        ops.push(("unpack-anon", Op::unpack(&t)));
                    }
                    let t = Seal::new("c27", "A256CBC-HS512", Some((&bk.0, &bk.1)), &[(&ak.0, &ak.1)], pt.as_bytes()).build().to_string();
                    ops.push(("unpack-auth", Op::unpack(&t)));
                }
                let good = ak.1.secret(&ak.0, enc);
                let mut refused = 0;
                for (how, s) in spoil(&good, full) {
                    for (n, op) in &ops {
                        let net = Net::new(&docs_of(&world), &[s.clone(), world[0].secrets()[1].clone()]);
                        inspect(rec, &format!("{n}/{how}"), op, &net, &world, &[secret_text(&good)]);
                    }
                    let net = Net::new(&docs_of(&world), &[s.clone()]);
                    refused += ops.iter().filter(|o| run(&o.1, &net).kind().is_some()).count();
                }
                rec.check(refused > 20, "refused", || format!("only {refused} spoiled secrets refused"));
                rec.sample(|| json!({"refused": refused}));
            });
        }
    }
    p
}
fn mb_text(k: &Key) -> String {
    secret_text(&k.secret("did:a:b#c", Enc::Mb))
}
