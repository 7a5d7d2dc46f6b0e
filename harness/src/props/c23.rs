//! C23: correctly encrypted envelopes whose headers contradict themselves are refused.
use crate::engine::{Env, Plan, Rec};
use crate::keys::*;
use crate::layers::fwd_json;
use crate::msgs::*;
use crate::ops::{run, Op, Out};
use crate::refjose::*;
use crate::world::*;
use didcomm::did::DIDDoc;
use didcomm::error::ErrorKind as E;
use serde_json::{json, Value};
use std::sync::Arc;

struct W {
    alice: Party,
    bob: Party,
    carol: Party,
    docs: Vec<DIDDoc>,
}
fn world(kt: KT) -> W {
    let o = if kt == KT::X25519 { KT::P256 } else { KT::X25519 };
    let p = |n: &str| {
        Party::new(&nm(&format!("did:example:{n}")))
            .key("k1", kt, Enc::Jwk, true, false)
            .key("k2", kt, Enc::Jwk, true, false)
            .key("k3", kt, Enc::Jwk, true, false)
            .key("o1", o, Enc::Jwk, true, false)
            .key("au", kt, Enc::Jwk, false, true)
            .key("vmonly", kt, Enc::Jwk, false, false)
            .key("novm", kt, Enc::Jwk, true, false)
            .key("ed", KT::Ed25519, Enc::Jwk, true, true)
    };
    let (alice, bob, carol) = (p("alice"), p("bob"), p("carol"));
    let mut docs = docs_of(&[alice.clone(), bob.clone(), carol.clone()]);
    for d in &mut docs {
        d.verification_method.retain(|v| ![&alice, &bob, &carol].iter().any(|p| v.id == p.kid("novm")));
    }
    W { alice, bob, carol, docs }
}

/// A header deviation and the error kinds that answer it.
type Dev = (String, Box<dyn Fn(&W, &mut Draft) + Send + Sync>, Vec<E>);

struct Draft {
    seal: Seal<'static>,
    kids_only: bool,
    post: Vec<Box<dyn Fn(&mut Value)>>,
}

fn to(p: &Party, frags: &[&str]) -> Vec<(String, Key)> {
    frags.iter().map(|f| (p.kid(f), p.get(f).key.clone())).collect()
}

fn deviations(auth: bool) -> Vec<Dev> {
    let mut v: Vec<Dev> = vec![];
    let mal = vec![E::Malformed];
    let mut add = |n: &str, kinds: &[E], f: Box<dyn Fn(&W, &mut Draft) + Send + Sync>| v.push((n.to_string(), f, kinds.to_vec()));
    let kids = |d: &Draft| -> Vec<String> { d.seal.to.iter().map(|t| t.0.clone()).collect() };
    // recipient-list hash
    add("apv-empty", &mal, Box::new(|_, d| d.seal.apv = Some(vec![])));
    add("apv-zero", &mal, Box::new(|_, d| d.seal.apv = Some(vec![0; 32])));
    add("apv-of-none", &mal, Box::new(|_, d| d.seal.apv = Some(apv_of(&[]).to_vec())));
    add("apv-one-byte", &mal, Box::new(move |_, d| {
        let k = kids(d);
        let mut a = apv_of(&k.iter().map(|s| s.as_str()).collect::<Vec<_>>()).to_vec();
        a[31] ^= 1;
        d.seal.apv = Some(a);
    }));
    add("apv-prefix", &mal, Box::new(move |_, d| {
        let k = kids(d);
        d.seal.apv = Some(apv_of(&k.iter().map(|s| s.as_str()).collect::<Vec<_>>())[..31].to_vec());
    }));
    add("apv-longer", &mal, Box::new(move |_, d| {
        let k = kids(d);
        let mut a = apv_of(&k.iter().map(|s| s.as_str()).collect::<Vec<_>>()).to_vec();
        a.push(0);
        d.seal.apv = Some(a);
    }));
    for sep in ["", ",", ".."] {
        add(&format!("apv-joined-{sep}"), &mal, Box::new(move |_, d| {
            let mut k = kids(d);
            k.sort();
            // a single recipient has nothing to join
            let t = if k.len() == 1 { format!("{}{sep}.", k[0]) } else { k.join(sep) };
            d.seal.apv = Some(sha256(t.as_bytes()).to_vec());
        }));
    }
    add("apv-hash-of-dids", &mal, Box::new(|w, d| d.seal.apv = Some(apv_of(&[&w.bob.did]).to_vec())));
    add("apv-raw-kids", &mal, Box::new(move |_, d| d.seal.apv = Some(kids(d).join(".").into_bytes())));
    add("apv-more-kids", &mal, Box::new(move |w, d| {
        let mut k = kids(d);
        k.push(w.bob.kid("zz"));
        d.seal.apv = Some(apv_of(&k.iter().map(|s| s.as_str()).collect::<Vec<_>>()).to_vec());
    }));
    add("apv-doubled-kid", &mal, Box::new(move |_, d| {
        let mut k = kids(d);
        k.push(k[0].clone());
        d.seal.apv = Some(apv_of(&k.iter().map(|s| s.as_str()).collect::<Vec<_>>()).to_vec());
    }));
    add("apv-reverse-sorted", &mal, Box::new(move |_, d| {
        let mut k = kids(d);
        k.sort();
        k.reverse();
        let t = if k.len() == 1 { format!("{}.", k[0]) } else { k.join(".") };
        d.seal.apv = Some(sha256(t.as_bytes()).to_vec());
    }));
    // recipients that the hash no longer matches
    add("recipient-dropped", &mal, Box::new(|_, d| d.post.push(Box::new(|v| {
        v["recipients"].as_array_mut().unwrap().pop();
    }))));
    add("recipient-added", &mal, Box::new(|w, d| {
        let kid = w.bob.kid("k9");
        d.post.push(Box::new(move |v| {
            let mut r = v["recipients"][0].clone();
            r["header"]["kid"] = json!(kid);
            v["recipients"].as_array_mut().unwrap().push(r);
        }))
    }));
    add("recipient-doubled", &mal, Box::new(|_, d| d.post.push(Box::new(|v| {
        let r = v["recipients"][0].clone();
        v["recipients"].as_array_mut().unwrap().push(r);
    }))));
    add("recipient-renamed", &mal, Box::new(|w, d| {
        let kid = w.bob.kid("k3");
        d.post.push(Box::new(move |v| v["recipients"][0]["header"]["kid"] = json!(kid)))
    }));
    // recipients of several DIDs, or no key ids, under a matching hash
    add("two-dids-last", &mal, Box::new(|w, d| d.seal.to.push((w.carol.kid("k1"), w.carol.get("k1").key.clone()))));
    add("two-dids-first", &mal, Box::new(|w, d| d.seal.to.insert(0, (w.carol.kid("k1"), w.carol.get("k1").key.clone()))));
    add("two-dids-middle", &mal, Box::new(|w, d| {
        d.seal.to.push((w.carol.kid("k1"), w.carol.get("k1").key.clone()));
        d.seal.to.push((w.bob.kid("k3"), w.bob.get("k3").key.clone()));
    }));
    add("did-prefix-of-another", &mal, Box::new(|w, d| d.seal.to.push((format!("{}x#k1", w.bob.did), w.carol.get("k1").key.clone()))));
    add("kid-is-did-last", &mal, Box::new(|w, d| d.seal.to.push((w.bob.did.clone(), w.bob.get("k3").key.clone()))));
    add("kid-is-did-first", &mal, Box::new(|w, d| d.seal.to.insert(0, (w.bob.did.clone(), w.bob.get("k3").key.clone()))));
    add("kid-fragment-only", &mal, Box::new(|w, d| d.seal.to.push(("#k3".into(), w.bob.get("k3").key.clone()))));
    add("kid-empty", &mal, Box::new(|w, d| d.seal.to.push((String::new(), w.bob.get("k3").key.clone()))));
    add("no-recipients", &[E::Malformed, E::SecretNotFound], Box::new(|_, d| d.seal.to.clear()));
    add("foreign-recipients", &[E::SecretNotFound, E::DIDUrlNotFound, E::DIDNotResolved, E::Malformed], Box::new(|w, d| d.seal.to = to(&w.carol, &["k1", "k2"])));
    // algorithms
    for (i, a) in ["", "none", "dir", "ECDH-ES", "ECDH-ES+A128KW", "ECDH-1PU", "ECDH-1PU+A128KW", "RSA-OAEP", "ecdh-es+a256kw", "ECDH-ES+A256KW ", "A256KW"].iter().enumerate() {
        add(&format!("alg-{i}"), &[E::Malformed, E::Unsupported, E::NoCompatibleCrypto], Box::new(move |_, d| d.seal.extra_protected.push(("alg".into(), json!(a)))));
    }
    for (i, a) in ["", "none", "A128GCM", "A192GCM", "A128CBC-HS256", "A192CBC-HS384", "C20P", "xc20p", "A256CBC", "A256GCM "].iter().enumerate() {
        add(&format!("enc-{i}"), &[E::Malformed, E::Unsupported, E::NoCompatibleCrypto], Box::new(move |_, d| d.seal.extra_protected.push(("enc".into(), json!(a)))));
    }
    // ephemeral key on another curve than the recipient's
    add("epk-other-curve", &[E::Malformed, E::Unsupported], Box::new(|_, d| d.seal.epk_kt = if d.seal.epk_kt == KT::X25519 { KT::P256 } else { KT::X25519 }));
    add("epk-signing-curve", &[E::Malformed, E::Unsupported], Box::new(|_, d| {
        let kt = if d.seal.epk_kt == KT::X25519 { KT::Ed25519 } else { KT::K256 };
        d.seal.extra_protected.push(("epk".into(), Key::derive(kt, "dev").public_jwk()))
    }));
    add("epk-missing", &mal, Box::new(|_, d| d.seal.extra_protected.push(("epk".into(), Value::Null))));
    add("apv-missing", &mal, Box::new(|_, d| d.seal.extra_protected.push(("apv".into(), Value::Null))));
    add("alg-missing", &mal, Box::new(|_, d| d.seal.extra_protected.push(("alg".into(), Value::Null))));
    add("enc-missing", &mal, Box::new(|_, d| d.seal.extra_protected.push(("enc".into(), Value::Null))));
    // sender
    let unk = [E::Malformed, E::DIDUrlNotFound, E::DIDNotResolved];
    if auth {
        add("skid-other-key", &mal, Box::new(|w, d| d.seal.extra_protected.push(("skid".into(), json!(w.alice.kid("k2"))))));
        add("skid-other-did", &mal, Box::new(|w, d| d.seal.extra_protected.push(("skid".into(), json!(w.carol.kid("k1"))))));
        add("skid-is-did", &mal, Box::new(|w, d| d.seal.extra_protected.push(("skid".into(), json!(w.alice.did)))));
        add("skid-empty", &mal, Box::new(|_, d| d.seal.extra_protected.push(("skid".into(), json!("")))));
        add("skid-prefix", &mal, Box::new(|w, d| d.seal.extra_protected.push(("skid".into(), json!(w.alice.kid("k1")[..w.alice.kid("k1").len() - 1])))));
        add("apu-missing", &mal, Box::new(|_, d| d.seal.apu = None));
        add("apu-and-skid-missing", &mal, Box::new(|_, d| {
            d.seal.apu = None;
            d.seal.with_skid = false;
        }));
        for skid in [true, false] {
            add(&format!("apu-other-key-{skid}"), &mal, Box::new(move |w, d| {
                d.seal.apu = Some(w.alice.kid("k2").into_bytes());
                d.seal.with_skid = skid;
            }));
        }
        add("apu-empty", &mal, Box::new(|_, d| {
            d.seal.apu = Some(vec![]);
            d.seal.with_skid = false;
        }));
        add("apu-not-utf8", &mal, Box::new(|_, d| {
            d.seal.apu = Some(vec![0xff, b'#', 0xfe]);
            d.seal.with_skid = false;
        }));
        // the sender named by both, wrongly
        for (n, f) in [("au", "au"), ("vmonly", "vmonly"), ("novm", "novm")] {
            add(&format!("sender-{n}"), &[E::DIDUrlNotFound], Box::new(move |w, d| {
                d.seal.sender = Some((w.alice.kid(f), w.alice.get(f).key.clone()));
                d.seal.apu = Some(w.alice.kid(f).into_bytes());
            }));
        }
        add("sender-signing-type", &[E::Malformed, E::Unsupported, E::NoCompatibleCrypto], Box::new(|w, d| {
            d.seal.sender = Some((w.alice.kid("ed"), w.alice.get("k1").key.clone()));
            d.seal.apu = Some(w.alice.kid("ed").into_bytes());
        }));
        add("sender-other-curve", &mal, Box::new(|w, d| {
            d.seal.sender = Some((w.alice.kid("o1"), w.alice.get("k1").key.clone()));
            d.seal.apu = Some(w.alice.kid("o1").into_bytes());
        }));
        for (n, s) in [("did", ns("did:example:alice")), ("unknown-key", ns("did:example:alice#nope")), ("unknown-did", ns("did:example:nobody#k1")), ("empty-fragment", "did:example:alice#"), ("fragment", "#k1"), ("empty", ""), ("case", "did:example:Alice#k1")] {
            add(&format!("sender-{n}"), &unk, Box::new(move |w, d| {
                d.seal.sender = Some((s.into(), w.alice.get("k1").key.clone()));
                d.seal.apu = Some(s.as_bytes().to_vec());
            }));
        }
        add("sender-impersonated", &mal, Box::new(|w, d| {
            d.seal.sender = Some((w.carol.kid("k1"), w.alice.get("k1").key.clone()));
            d.seal.apu = Some(w.carol.kid("k1").into_bytes());
        }));
        for e in ["XC20P", "A256GCM"] {
            add(&format!("authcrypt-with-{e}"), &[E::Unsupported, E::Malformed, E::NoCompatibleCrypto], Box::new(move |_, d| d.seal.enc = e));
        }
        add("labelled-anon", &mal, Box::new(|_, d| d.seal.extra_protected.push(("alg".into(), json!(ES)))));
    } else {
        // claims authentication without a sender
        add("labelled-auth", &mal, Box::new(|_, d| {
            d.seal.extra_protected.push(("alg".into(), json!(PU)));
        }));
        add("derived-and-labelled-auth", &mal, Box::new(|_, d| d.seal.alg = PU));
        add("anon-with-skid", &mal, Box::new(|w, d| d.seal.extra_protected.push(("skid".into(), json!(w.alice.kid("k1"))))));
        add("anon-with-apu-and-skid", &[E::Malformed, E::InvalidState], Box::new(|w, d| {
            d.seal.apu = Some(w.alice.kid("k1").into_bytes());
            d.seal.extra_protected.push(("skid".into(), json!(w.alice.kid("k1"))));
        }));
        add("auth-without-crypto", &mal, Box::new(|w, d| {
            d.seal.alg = PU;
            d.seal.apu = Some(w.alice.kid("k1").into_bytes());
            d.seal.extra_protected.push(("skid".into(), json!(w.alice.kid("k1"))));
            d.seal.enc = "A256CBC-HS512";
        }));
    }
    v
}

fn draft(w: &W, auth: bool, enc: &'static str, n: usize, plain: &str) -> Draft {
    let frs = ["k1", "k2", "k3"];
    let t = to(&w.bob, &frs[..n]);
    let tr: Vec<(&str, &Key)> = t.iter().map(|(a, k)| (a.as_str(), k)).collect();
    let a = w.alice.kid("k1");
    let snd = auth.then(|| (a.as_str(), &w.alice.get("k1").key));
    Draft { seal: Seal::new("c23", enc, snd, &tr, plain.as_bytes()), kids_only: false, post: vec![] }
}
fn finish(d: &Draft) -> Value {
    let mut v = d.seal.build();
    for p in &d.post {
        p(&mut v);
    }
    v
}

/// Where the envelope is met.
const PLACES: [&str; 4] = ["outer", "in-anon", "in-forward", "signed-inside"];
fn place(w: &W, at: &str, v: &Value) -> String {
    let t = to(&w.bob, &["k1", "k2"]);
    let tr: Vec<(&str, &Key)> = t.iter().map(|(a, k)| (a.as_str(), k)).collect();
    match at {
        "in-anon" => Seal::new("c23o", "XC20P", None, &tr, v.to_string().as_bytes()).build().to_string(),
        "in-forward" => {
            let f = fwd_json("f", &w.bob.did, &v.to_string());
            Seal::new("c23o", "XC20P", None, &tr, f.as_bytes()).build().to_string()
        }
        _ => v.to_string(),
    }
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C23",
        "exploration",
        "every header deviation of the list, alone and in pairs, applied to an envelope that is then really encrypted for its \
         recipients with the deviating header as authenticated data, for every content algorithm, curve, number of recipients \
         and held keys, as outermost envelope, inside another one and inside a re-wrapped forward. Non-trivial: all but the undeviated controls",
    );
    p.namings = if full { 4 } else { 2 };
    p.assumptions = vec!["duplicate recipients under a matching hash are not specified".into()];
    for kt in [KT::X25519, KT::P256] {
        for auth in [false, true] {
            let devs = Arc::new(deviations(auth));
            let w = Arc::new(world(kt));
            for at in PLACES {
                // anoncrypt within anoncrypt is no DIDComm combination, whatever its headers
                if at == "in-anon" && !auth {
                    continue;
                }
                for n in 1..=3usize {
                    for enc in if auth { vec!["A256CBC-HS512"] } else { ENC_ALGS.to_vec() } {
                        let (devs, w) = (devs.clone(), w.clone());
                        p.case(format!("{kt:?}/{}/{at}/{n}/{enc}", if auth { "auth" } else { "anon" }), move |rec| {
                            let pairs = full || (n == 2 && at == "outer" && enc == ENC_ALGS[0]);
                            one(rec, &w, &devs, auth, at, n, enc, pairs)
                        });
                    }
                }
            }
        }
    }
    p.bounds = json!({"recipients": "1..3", "deviations at once": 2});
    crate::many::c23(&mut p, env.thorough());
    crate::near::c23_order(&mut p, env.thorough());
    crate::near::c23(&mut p, env.thorough());
    crate::near::c23_roles(&mut p);
    crate::near::c11_nobody(&mut p);
    p
}

#[allow(clippy::too_many_arguments)]
fn one(rec: &mut Rec, w: &W, devs: &[Dev], auth: bool, at: &str, n: usize, enc: &'static str, pairs: bool) {
    let m = simple(Some(&w.alice.did), Some(&w.bob.did), "inside");
    let mut plain = serde_json::to_string(&m).unwrap();
    if at == "signed-inside" {
        // au is a P-256 or X25519 key; ed signs
        plain = ref_sign(&w.alice.get("ed").key, &w.alice.kid("ed"), plain.as_bytes()).to_string();
    }
    // which of bob's keys are held
    let holds: Vec<u32> = (1..1u32 << n).collect();
    let net = |h: u32| {
        let ss: Vec<_> = w.bob.secrets().into_iter().filter(|s| match (1..=9usize).find(|i| s.id == w.bob.kid(&format!("k{i}"))) {
            Some(i) if i <= n => h >> (i - 1) & 1 == 1,
            _ => true,
        }).collect();
        Net::new(&w.docs, &ss)
    };
    // control
    let d = draft(w, auth, enc, n, &plain);
    let t = place(w, at, &finish(&d));
    for h in &holds {
        // the outer envelope of a nested placement is for k1 and k2
        if (at == "in-anon" || at == "in-forward") && h & 3 == 0 {
            continue;
        }
        for all in [false, true] {
            rec.eval(&("control", h, all), false);
            let o = run(&Op::Unpack { text: t.clone(), all, unwrap: true }, &net(*h));
            rec.check(matches!(&o, Out::Unpacked(g, _) if **g == m), "control", || format!("the honest envelope is refused: {o:?}"));
            rec.outcome(o.label());
        }
    }
    let mut go = |what: String, d: Draft, kinds: &[E]| {
        rec.begin(&what);
        let v = finish(&d);
        rec.sample(|| json!({"deviation": what, "protected": d.seal.protected(), "envelope": v}));
        let t = place(w, at, &v);
        for h in [&holds[..1], &holds[holds.len() - 1..]].concat() {
            for all in [false, true] {
                rec.eval(&(what.as_str(), h, all), true);
                let o = run(&Op::Unpack { text: t.clone(), all, unwrap: true }, &net(h));
                rec.outcome(o.label());
                match o {
                    Out::Err(k) => {
                        rec.check(kinds.contains(&k), &what, || format!("refused as {k:?}"));
                    }
                    o => rec.fail(&what, format!("accepted: {o:?}")),
                }
            }
        }
    };
    for (name, f, kinds) in devs {
        let mut d = draft(w, auth, enc, n, &plain);
        if name == "enc-0" && enc.is_empty() {
            continue;
        }
        f(w, &mut d);
        go(name.clone(), d, kinds);
    }
    if pairs {
        let any = [E::Malformed, E::Unsupported, E::NoCompatibleCrypto, E::DIDUrlNotFound, E::DIDNotResolved, E::SecretNotFound];
        for (i, (n1, f1, _)) in devs.iter().enumerate() {
            for (j, (n2, f2, _)) in devs.iter().enumerate() {
                // the later one may replace what the earlier one did, or undo it
                let undo = (n1.starts_with("apv-") || n1.starts_with("recipient-")) && (n2.starts_with("apv-") || n2.starts_with("recipient-"))
                    || n1.contains("no-recipients") || n2.contains("no-recipients")
                    || auth && (n1.contains("apu") || n1.contains("skid") || n1.contains("sender")) && (n2.contains("apu") || n2.contains("skid") || n2.contains("sender"));
                if i == j || undo {
                    continue;
                }
                let mut d = draft(w, auth, enc, n, &plain);
                f1(w, &mut d);
                f2(w, &mut d);
                go(format!("{n1}+{n2}"), d, &any);
            }
        }
    }
}
