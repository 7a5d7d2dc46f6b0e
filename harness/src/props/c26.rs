//! C26: content of documents, wallets and services that an operation has no business with never changes its result.
use crate::engine::{Env, Plan, Rec};
use crate::keys::{Enc, Key, KT};
use crate::ops::*;
use crate::refjose::*;
use crate::world::*;
use didcomm::did::{DIDDoc, ServiceKind, Service, VerificationMaterial, VerificationMethod, VerificationMethodType};
use didcomm::error::ErrorKind;
use didcomm::secrets::{Secret, SecretMaterial, SecretType};
use serde_json::{json, Value};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum DocK {
    /// methods no list names: of an unknown type, unusable, a spare key
    VmOtherFront,
    VmOtherBack,
    VmBroken,
    VmSpare,
    VmReverse,
    VmTwice,
    /// methods whose ids look like those of the document's keys, or are those of another DID's, with other keys
    VmRelative,
    VmNear,
    VmUpper,
    VmForeign,
    VmController,
    /// authentication keys that nobody holds, in front
    AuthSpare,
    AuthOther,
    AuthDangling,
    /// an authentication key at the end, the same key twice
    AuthBack,
    AuthTwice,
    /// key-agreement keys nobody holds, in front of the sender's
    KaSpare,
    SvcOtherFront,
    SvcOtherBack,
    SvcAipFront,
    SvcBack,
    SvcTwice,
}
use DocK::*;
const DOCK: [DocK; 22] = [
    VmOtherFront, VmOtherBack, VmBroken, VmSpare, VmReverse, VmTwice, VmRelative, VmNear, VmUpper, VmForeign, VmController, AuthSpare,
    AuthOther, AuthDangling, AuthBack, AuthTwice, KaSpare, SvcOtherFront, SvcOtherBack, SvcAipFront, SvcBack, SvcTwice,
];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum P {
    Doc(usize, DocK),
    WalletReverse,
    WalletOther,
    WalletSpare,
    WalletOwnSpare,
    WalletNear,
    WalletTwice,
    /// documents of DIDs that look like the ones in use
    NearDocs,
}

fn other_vm(id: &str) -> VerificationMethod {
    VerificationMethod {
        id: id.into(),
        type_: VerificationMethodType::Other,
        controller: "did:example:nobody".into(),
        verification_material: VerificationMaterial::Base58 { public_key_base58: "0OIl".into() },
    }
}
fn stranger(kt: KT, id: &str) -> VerificationMethod {
    Key::derive(kt, &format!("stranger/{id}")).vm(id, Enc::Jwk)
}
fn near(kid: &str) -> Vec<String> {
    let (d, f) = kid.split_once('#').unwrap();
    vec![
        kid[..kid.len() - 1].to_string(),
        format!("{kid}0"),
        format!("{d}?v=1#{f}"),
        format!("{d}/p#{f}"),
        format!(" {kid}"),
        format!("{kid} "),
    ]
}

fn change(d: &mut DIDDoc, k: DocK, world: &[Party]) {
    let id = d.id.clone();
    let party = world.iter().find(|p| p.did == id).unwrap();
    let front = |d: &mut DIDDoc, vms: Vec<VerificationMethod>| {
        let old = std::mem::take(&mut d.verification_method);
        d.verification_method = vms.into_iter().chain(old).collect();
    };
    match k {
        VmOtherFront => front(d, vec![other_vm(&format!("{id}#other"))]),
        VmOtherBack => d.verification_method.push(other_vm(&format!("{id}#other"))),
        VmBroken => {
            let b = |f: &str, j: Value| VerificationMethod {
                id: format!("{id}#{f}"),
                type_: VerificationMethodType::JsonWebKey2020,
                controller: id.clone(),
                verification_material: VerificationMaterial::JWK { public_key_jwk: j },
            };
            front(d, vec![b("b1", json!({})), b("b2", json!({"kty": "RSA", "n": "AQAB", "e": "AQAB"})), b("b3", json!({"kty": "EC", "crv": "P-256", "x": "AA", "y": "AA"}))]);
        }
        VmSpare => front(d, [KT::X25519, KT::P256, KT::Ed25519, KT::K256].map(|t| stranger(t, &format!("{id}#spare{t:?}"))).to_vec()),
        VmReverse => d.verification_method.reverse(),
        VmTwice => d.verification_method = d.verification_method.iter().flat_map(|v| [v.clone(), v.clone()]).collect(),
        VmRelative => front(d, party.keys.iter().map(|k| stranger(k.key.kt, &format!("#{}", k.kid.split_once('#').unwrap().1))).collect()),
        VmNear => front(d, party.keys.iter().flat_map(|k| near(&k.kid).into_iter().map(|i| stranger(k.key.kt, &i)).collect::<Vec<_>>()).filter(|v| party.keys.iter().all(|k| k.kid != v.id)).collect()),
        VmUpper => front(d, party.keys.iter().map(|k| stranger(k.key.kt, &k.kid.to_uppercase())).collect()),
        VmForeign => front(d, world.iter().filter(|p| p.did != id).flat_map(|p| p.keys.iter()).map(|k| stranger(k.key.kt, &k.kid)).collect()),
        VmController => d.verification_method.iter_mut().for_each(|v| v.controller = "did:example:somebody-else".into()),
        AuthSpare => {
            for (i, t) in [KT::Ed25519, KT::P256, KT::K256].into_iter().enumerate() {
                let v = stranger(t, &format!("{id}#auth-spare{i}"));
                d.authentication.insert(i, v.id.clone());
                d.verification_method.push(v);
            }
        }
        AuthOther => {
            let v = other_vm(&format!("{id}#auth-other"));
            d.authentication.insert(0, v.id.clone());
            d.verification_method.insert(0, v);
        }
        AuthDangling => d.authentication.splice(0..0, [format!("{id}#dangling"), "did:example:else#1".into(), "not an id".into(), String::new()]).for_each(drop),
        AuthBack => {
            let v = stranger(KT::Ed25519, &format!("{id}#auth-back"));
            d.authentication.push(v.id.clone());
            d.verification_method.push(v);
        }
        AuthTwice => d.authentication = d.authentication.iter().flat_map(|v| [v.clone(), v.clone()]).collect(),
        KaSpare => {
            for (i, t) in [KT::X25519, KT::P256].into_iter().enumerate() {
                let v = stranger(t, &format!("{id}#ka-spare{i}"));
                d.key_agreement.insert(i, v.id.clone());
                d.verification_method.push(v);
            }
        }
        SvcOtherFront => d.service.insert(0, linked(&id)),
        SvcOtherBack => d.service.push(linked(&id)),
        SvcAipFront => d.service.insert(0, service(&format!("{id}#aip"), "http://aip", Some(vec!["didcomm/aip1", "didcomm/aip2;env=rfc19"]), &["did:example:else#1".into()])),
        SvcBack => d.service.push(service(&format!("{id}#later"), "http://later", Some(vec!["didcomm/v2"]), &["did:example:else#1".into()])),
        SvcTwice => d.service = d.service.iter().flat_map(|v| [v.clone(), v.clone()]).collect(),
    }
}
fn linked(id: &str) -> Service {
    Service { id: format!("{id}#linked"), service_endpoint: ServiceKind::Other { value: json!({"origins": ["https://example.com"], "uri": 7}) } }
}

fn apply(docs: &mut Vec<DIDDoc>, secrets: &mut Vec<Secret>, p: P, world: &[Party]) {
    match p {
        P::Doc(i, k) => change(&mut docs[i], k, world),
        P::WalletReverse => secrets.reverse(),
        P::WalletOther => secrets.insert(
            0,
            Secret {
                id: "did:example:else#other".into(),
                type_: SecretType::Other,
                secret_material: SecretMaterial::Base58 { private_key_base58: "0OIl".into() },
            },
        ),
        P::WalletSpare => [KT::X25519, KT::P256, KT::Ed25519, KT::K256].into_iter().for_each(|t| {
            let id = format!("did:example:else#{t:?}");
            secrets.insert(0, Key::derive(t, &id).secret(&id, Enc::Jwk))
        }),
        P::WalletOwnSpare => {
            let own: Vec<String> = secrets.iter().filter_map(|s| s.id.split_once('#').map(|x| x.0.to_string())).collect();
            for d in own {
                for t in [KT::X25519, KT::Ed25519] {
                    let id = format!("{d}#withdrawn{t:?}");
                    secrets.insert(0, Key::derive(t, &id).secret(&id, Enc::Jwk))
                }
            }
        }
        P::WalletNear => {
            let real: Vec<String> = world.iter().flat_map(|p| p.keys.iter().map(|k| k.kid.clone())).collect();
            let mut extra = vec![];
            for k in world.iter().flat_map(|p| p.keys.iter()) {
                let frag = format!("#{}", k.kid.split_once('#').unwrap().1);
                for id in near(&k.kid).into_iter().chain([k.kid.to_uppercase(), frag]).filter(|i| !real.contains(i)) {
                    extra.push(Key::derive(k.key.kt, "stranger").secret(&id, Enc::Jwk));
                }
            }
            secrets.splice(0..0, extra);
        }
        P::WalletTwice => *secrets = secrets.iter().flat_map(|s| [s.clone(), s.clone()]).collect(),
        P::NearDocs => {
            let real: Vec<String> = docs.iter().map(|d| d.id.clone()).collect();
            for p in world {
                for id in [p.did[..p.did.len() - 1].to_string(), format!("{}0", p.did), p.did.to_uppercase(), format!("{}#", p.did)] {
                    if real.contains(&id) {
                        continue;
                    }
                    // the same ids, other keys
                    let mut d = p.doc();
                    d.id = id;
                    d.verification_method = p.keys.iter().map(|k| stranger(k.key.kt, &k.kid)).collect();
                    docs.push(d);
                }
            }
        }
    }
}

fn all(world: &[Party]) -> Vec<P> {
    let mut v = vec![P::WalletReverse, P::WalletOther, P::WalletSpare, P::WalletOwnSpare, P::WalletNear, P::WalletTwice, P::NearDocs];
    for i in 0..world.len() {
        for k in DOCK {
            let applies = match k {
                // a key of a recipient is everybody's business
                KaSpare => i == ALICE,
                // so is a service where there was none
                SvcBack | SvcTwice => !world[i].services.is_empty(),
                _ => true,
            };
            if applies {
                v.push(P::Doc(i, k));
            }
        }
    }
    v
}

/// Operations that fail, next to those of the stage.
pub fn failing(world: &[Party]) -> Vec<Scenario> {
    use crate::msgs::simple;
    let (a, b) = (&world[ALICE], &world[BOB]);
    let m = simple(Some(&a.did), Some(&b.did), "c26");
    let enc = |to: String, from: Option<String>, sign: Option<String>| Op::Enc { msg: m.clone(), to, from, sign, opts: no_fwd() };
    let text = |name: &str| {
        let s = scenarios(world).into_iter().find(|s| s.name == name).unwrap();
        let Op::Unpack { text, .. } = s.op else { panic!() };
        text
    };
    let spoil = |t: String, path: &[&str]| {
        let mut v: Value = serde_json::from_str(&t).unwrap();
        let mut at = &mut v;
        for p in path {
            at = match p.parse::<usize>() {
                Ok(i) => &mut at[i],
                Err(_) => &mut at[*p],
            };
        }
        let mut raw = b64u_dec(at.as_str().unwrap()).unwrap();
        raw[3] ^= 8;
        *at = json!(b64u(&raw));
        v.to_string()
    };
    let mut ms = m.clone();
    ms.from_prior = Some("e30.e30.e30".into());
    vec![
        Scenario { name: "fail-sign-unknown", who: ALICE, op: Op::Signed { msg: m.clone(), by: a.kid("nope") } },
        Scenario { name: "fail-sign-ka", who: ALICE, op: Op::Signed { msg: m.clone(), by: a.kid("x1") } },
        Scenario { name: "fail-sign-unheld", who: CAROL, op: Op::Signed { msg: m.clone(), by: a.did.clone() } },
        Scenario { name: "fail-to-unknown", who: ALICE, op: enc(b.kid("nope"), None, None) },
        Scenario { name: "fail-to-auth", who: ALICE, op: enc(b.kid("e1"), None, None) },
        Scenario { name: "fail-from-unheld", who: CAROL, op: enc(b.did.clone(), Some(a.did.clone()), None) },
        Scenario { name: "fail-curves", who: ALICE, op: enc(b.kid("x1"), Some(a.kid("p1")), None) },
        Scenario { name: "fail-addressee", who: ALICE, op: enc(a.did.clone(), None, None) },
        Scenario { name: "fail-unpack-unheld", who: CAROL, op: Op::unpack(&text("unpack-anon")) },
        Scenario { name: "fail-unpack-key", who: BOB, op: Op::unpack(&spoil(text("unpack-auth"), &["recipients", "0", "encrypted_key"])) },
        Scenario { name: "fail-unpack-tag", who: BOB, op: Op::unpack(&spoil(text("unpack-anon-signed"), &["tag"])) },
        Scenario { name: "fail-unpack-signature", who: BOB, op: Op::unpack(&spoil(text("unpack-signed"), &["signatures", "0", "signature"])) },
        Scenario { name: "fail-unpack-kid", who: BOB, op: Op::unpack(&text("unpack-signed").replace(&a.kid("e1"), &a.kid("nope"))) },
        Scenario { name: "fail-unpack-ka-kid", who: BOB, op: Op::unpack(&text("unpack-signed").replace(&a.kid("e1"), &a.kid("p1"))) },
        Scenario { name: "fail-unpack-token", who: BOB, op: Op::unpack(&crate::layers::ref_json(&ms).to_string()) },
    ]
}
fn no_fwd() -> didcomm::PackEncryptedOptions {
    didcomm::PackEncryptedOptions { forward: false, ..Default::default() }
}

struct Ctx {
    world: Vec<Party>,
    acts: Vec<Scenario>,
    base: Vec<Result<String, String>>,
    kinds: Vec<Option<ErrorKind>>,
}

fn result(c: &Ctx, s: &Scenario, ps: &[P]) -> Result<(String, Option<ErrorKind>), String> {
    let mut docs = docs_of(&c.world);
    let mut secrets = c.world[s.who].secrets();
    for p in ps {
        apply(&mut docs, &mut secrets, *p, &c.world);
    }
    let net = Net::new(&docs, &secrets);
    let o = run(&s.op, &net);
    Ok((canon_out(&o, &c.world)?, o.kind()))
}

fn check(c: &Ctx, rec: &mut Rec, ps: &[P]) {
    for (i, s) in c.acts.iter().enumerate() {
        let what = format!("{ps:?}/{}", s.name).replace(' ', "");
        rec.eval(&what, true);
        rec.begin(&what);
        let got = match rec.guarded(|| result(c, s, ps)) {
            Err(e) => {
                rec.fail(what, format!("panic: {e}"));
                continue;
            }
            Ok(r) => r,
        };
        rec.outcome(match &c.kinds[i] {
            None => "same result".to_string(),
            Some(k) => format!("same error {k:?}"),
        });
        rec.check(got.as_ref().map(|g| &g.0).map_err(|e| e) == c.base[i].as_ref(), &what, || format!("{got:?}\n without: {:?}", c.base[i]));
    }
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C26",
        "exploration",
        "operations (every pack, unpack, token, forward form, and operations that fail) x every single change and every pair of \
         changes (thorough: in both orders, and every triple with at most two documents involved) to content the operation has no business with: methods \
         no list names (of unknown type, unusable, spare, with ids close to real ones, with other DIDs' ids), order and repetition of \
         methods, controllers, authentication keys nobody holds, services that are not for DIDComm v2 or come later, secrets of \
         other ids, order of secrets, documents of similar DIDs; result (opened layer by layer) or error kind equal to that of the unchanged documents",
    );
    p.namings = if full { 3 } else { 2 };
    let world = stage();
    let mut acts = scenarios(&world);
    acts.extend(failing(&world));
    let mut c = Ctx { world, acts, base: vec![], kinds: vec![] };
    for i in 0..c.acts.len() {
        let r = result(&c, &c.acts[i], &[]);
        let failing = c.acts[i].name.starts_with("fail-");
        assert!(r.is_ok(), "{}: {r:?}", c.acts[i].name);
        assert_eq!(failing, matches!(&r, Ok((_, Some(_)))), "{}: {r:?}", c.acts[i].name);
        c.kinds.push(r.as_ref().ok().and_then(|r| r.1));
        c.base.push(r.map(|r| r.0));
    }
    let c = Arc::new(c);
    let changes = all(&c.world);
    p.bounds = json!({"changes": changes.len(), "at_once": if full { 3 } else { 2 }, "operations": c.acts.len()});
    for (i, a) in changes.iter().copied().enumerate() {
        let (c2, rest) = (c.clone(), changes[i..].to_vec());
        p.case(format!("{a:?}").replace(' ', ""), move |rec| {
            check(&c2, rec, &[]);
            check(&c2, rec, &[a]);
            // under the other spellings one change at a time, unless there is time for more
            for b in rest.iter().copied().filter(|_| full || naming() == 0) {
                check(&c2, rec, &[a, b]);
                if b != a && full {
                    check(&c2, rec, &[b, a]);
                }
            }
            rec.sample(|| json!({"change": format!("{a:?}")}));
        });
        if full && naming() == 0 {
            for j in i + 1..changes.len() {
                let b = changes[j];
                let (c, rest) = (c.clone(), changes[j + 1..].to_vec());
                p.case(format!("{a:?}+{b:?}").replace(' ', ""), move |rec| {
                    for d in rest.iter().copied() {
                        let mut docs: Vec<usize> = [a, b, d].iter().filter_map(|x| if let P::Doc(i, _) = x { Some(*i) } else { None }).collect();
                        docs.sort();
                        docs.dedup();
                        if docs.len() <= 2 {
                            check(&c, rec, &[a, b, d]);
                        }
                    }
                });
            }
        }
    }
    p
}
