//! The size dimension: long lists of keys, services, routing keys, attachments, at every position.
//! Each function adds the cases of one property to its plan.
use crate::engine::{Plan, Rec};
use crate::keys::*;
use crate::layers::*;
use crate::msgs::*;
use crate::onion::peel_onion;
use crate::props::c02::md_diff;
use crate::refjose::*;
use crate::world::*;
use didcomm::algorithms::*;
use didcomm::did::*;
use didcomm::error::ErrorKind as E;
use didcomm::secrets::Secret;
use didcomm::*;
use serde_json::{json, Value};

const KTS: [KT; 2] = [KT::X25519, KT::P256];
const AUTH: [KT; 3] = [KT::Ed25519, KT::P256, KT::K256];

fn sizes(full: bool) -> Vec<usize> {
    if full { vec![4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 129] } else { vec![5, 9, 17, 33] }
}
/// positions of a long list that are looked at one by one
fn at(n: usize) -> Vec<usize> {
    (0..n).filter(|i| n <= 17 || *i < 3 || *i + 3 >= n || [7, 8, 9, 10, 15, 16, 31, 32, 63, 64, 100, 127, 128].contains(i)).collect()
}
/// a party with n key-agreement keys a0.. of one type and n authentication keys s0.. of all types
fn party(name: &str, n: usize, kt: KT) -> Party {
    let mut p = Party::new(&nm(&format!("did:example:{name}")));
    for i in 0..n {
        p = p.ka(&format!("a{i}"), kt).auth(&format!("s{i}"), AUTH[i % 3]);
    }
    p
}
fn only(p: &Party, frags: &[String]) -> Vec<Secret> {
    let kids: Vec<String> = frags.iter().map(|f| p.kid(f)).collect();
    p.secrets().into_iter().filter(|s| kids.contains(&s.id)).collect()
}
fn a(i: usize) -> String {
    format!("a{i}")
}
fn s(i: usize) -> String {
    format!("s{i}")
}
fn refs(v: &[KK]) -> Vec<(&str, &Key)> {
    v.iter().map(|(x, y)| (x.as_str(), y)).collect()
}
fn kks(p: &Party, n: usize) -> Vec<KK> {
    (0..n).map(|i| (p.kid(&a(i)), p.get(&a(i)).key.clone())).collect()
}

/// runs `f` for every size and curve as a case of its own
fn each(p: &mut Plan, full: bool, f: fn(&mut Rec, usize, KT)) {
    for kt in KTS {
        for n in sizes(full) {
            p.case(format!("many/{}/{n}", kt.crv()), move |rec| f(rec, n, kt));
        }
    }
}

fn forms(to: &str, from: &str, sign: &str) -> Vec<Mode> {
    let alg = AnonCryptAlg::default();
    vec![
        Mode::enc(to, None, None, false, &alg),
        Mode::enc(to, Some(from), None, false, &alg),
        Mode::enc(to, Some(from), Some(sign), true, &AnonCryptAlg::Xc20pEcdhEsA256kw),
    ]
}

/// What a message of this size is read as, by every reader: used by several properties, each taking its part.
fn sized(rec: &mut Rec, n: usize, kt: KT, look: &mut dyn FnMut(&mut Rec, &Mode, &str, &PackEncryptedMetadata, &Peeled, &Party, &[DIDDoc], &Message)) {
    let (alice, bob) = (party("alice", n, kt), party("bob", n, kt));
    let world = [alice.clone(), bob.clone()];
    let docs = docs_of(&world);
    let sn = Net::new(&docs, &alice.secrets());
    let msg = simple(Some(&alice.did), Some(&bob.did), "many");
    for m in forms(&bob.did, &alice.did, &alice.did) {
        match block_on(m.pack(&msg, &sn)) {
            Err(e) => rec.fail("pack", e.to_string()),
            Ok((t, md)) => match peel(&t, &bob, &world, n - 1) {
                Err(e) => rec.fail("peel", e),
                Ok(pl) => look(rec, &m, &t, &md.unwrap(), &pl, &bob, &docs, &msg),
            },
        }
    }
}

pub fn c02(p: &mut Plan, full: bool) {
    each(p, full, |rec, n, kt| {
        sized(rec, n, kt, &mut |rec, m, t, _, pl, bob, docs, msg| {
            let want = expected(&pl.layers, &pl.texts);
            let pairs = at(n).into_iter().map(|i| vec![a(i), a((i + 2) % n)]);
            for held in at(n).into_iter().map(|i| vec![a(i)]).chain([(0..n).map(a).collect()]).chain(pairs) {
                let what = format!("{}/{}", m.name(), held.len());
                rec.eval(&(&what, &held), true);
                match block_on(unpack(t, &Net::new(docs, &only(bob, &held)))) {
                    Ok((got, md)) => {
                        rec.check(&got == msg, &what, || "another message".into());
                        if let Some(d) = md_diff(&want, &md) {
                            rec.fail(&what, d);
                        }
                    }
                    Err(e) => rec.fail(&what, e.to_string()),
                }
            }
        })
    });
}

pub fn c05(p: &mut Plan, full: bool) {
    each(p, full, |rec, n, kt| {
        sized(rec, n, kt, &mut |rec, m, t, md, _, bob, docs, _| {
            let kids: Vec<String> = (0..n).map(|i| bob.kid(&a(i))).collect();
            rec.check(md.to_kids == kids, "addressed", || format!("{} of {n} keys addressed", md.to_kids.len()));
            for i in at(n) {
                let what = format!("{}/{i}", m.name());
                rec.eval(&what, true);
                let r = block_on(unpack(t, &Net::new(docs, &only(bob, &[a(i)]))));
                rec.check(r.is_ok(), &what, || format!("key {i} is reported as used but does not open: {:?}", r.as_ref().err().map(|e| e.to_string())));
            }
            // everything of the recipient except its key-agreement keys
            let rest: Vec<String> = (0..n).map(s).collect();
            let r = block_on(unpack(t, &Net::new(docs, &only(bob, &rest))));
            rec.check(matches!(&r, Err(e) if e.kind() == E::SecretNotFound), "rest", || "not refused for lack of a secret".into());
        })
    });
}

pub fn c16(p: &mut Plan, full: bool) {
    each(p, full, |rec, n, kt| {
        let (alice, bob) = (party("alice", n, kt), party("bob", n, kt));
        let world = [alice.clone(), bob.clone()];
        let sn = Net::new(&docs_of(&world), &alice.secrets());
        let msg = simple(Some(&alice.did), Some(&bob.did), "many");
        for m in forms(&bob.did, &alice.did, &alice.did) {
            match block_on(m.pack(&msg, &sn)) {
                Err(e) => rec.fail("pack", e.to_string()),
                Ok((t, _)) => {
                    for i in at(n) {
                        rec.eval(&(m.name(), i), true);
                        match peel(&t, &bob, &world, i) {
                            Ok(pl) => {
                                rec.check(pl.plain == ref_json(&msg), &m.name(), || "another plaintext".into());
                                for o in &pl.opened {
                                    rec.check(o.kids.len() == n, &m.name(), || format!("{} recipients of {n}", o.kids.len()));
                                }
                            }
                            Err(e) => rec.fail(m.name(), format!("key {i}: {e}")),
                        }
                    }
                }
            }
        }
    });
}

pub fn c30(p: &mut Plan, full: bool) {
    each(p, full, |rec, n, kt| {
        sized(rec, n, kt, &mut |rec, m, t, _, _, _, _, _| {
            rec.eval(&m.name(), true);
            rec.state(&m.name());
            let v: Value = serde_json::from_str(t).unwrap();
            let mut keys: Vec<String> = v["recipients"].as_array().unwrap().iter().map(|r| r["encrypted_key"].to_string()).collect();
            let k = keys.len();
            keys.sort();
            keys.dedup();
            rec.check(k == n && keys.len() == n, &m.name(), || format!("{} different wrapped keys for {n} recipients", keys.len()));
        })
    });
}

pub fn c03(p: &mut Plan, full: bool) {
    each(p, full, |rec, n, kt| {
        sized(rec, n, kt, &mut |rec, m, t, _, _, bob, docs, msg| {
            let v: Value = serde_json::from_str(t).unwrap();
            let all: Vec<String> = (0..n).map(a).collect();
            for i in at(n) {
                let j = (i + 1) % n;
                let mut muts: Vec<(&str, Value, bool)> = vec![];
                let mut mk = |name, hard, f: &dyn Fn(&mut Vec<Value>)| {
                    let mut w = v.clone();
                    f(w["recipients"].as_array_mut().unwrap());
                    muts.push((name, w, hard));
                };
                // hard: no reader may accept; soft: only readers of another entry
                mk("removed", true, &|r| drop(r.remove(i)));
                mk("repeated", true, &|r| r.push(r[i].clone()));
                mk("renamed", true, &|r| r[i]["header"]["kid"] = json!(bob.kid("a9999")));
                mk("swapped-kids", false, &|r| {
                    let x = r[i]["header"].clone();
                    r[i]["header"] = r[j]["header"].clone();
                    r[j]["header"] = x;
                });
                mk("other-key", false, &|r| r[i]["encrypted_key"] = r[j]["encrypted_key"].clone());
                mk("emptied", false, &|r| r[i]["encrypted_key"] = json!(""));
                for (name, w, hard) in muts {
                    let w = w.to_string();
                    for (who, held) in [("it", vec![a(i)]), ("next", vec![a(j)]), ("first", vec![a(0)]), ("all", all.clone())] {
                        let what = format!("{}/{name}", m.name());
                        rec.eval(&(&what, i, who), true);
                        match block_on(unpack(&w, &Net::new(docs, &only(bob, &held)))) {
                            Ok((got, _)) => {
                                rec.outcome("accepted unharmed");
                                rec.check(!hard && who != "it" && &got == msg, &what, || format!("{name} at {i} of {n}: read by {who}"));
                            }
                            Err(_) => rec.outcome("refused"),
                        }
                    }
                }
            }
        })
    });
}

pub fn c04(p: &mut Plan, full: bool) {
    each(p, full, |rec, n, kt| {
        let mut alice = party("alice", n, kt);
        let msg = simple(Some(&alice.did), None, "many");
        let text = ref_json(&msg).to_string();
        for i in at(n) {
            let kid = alice.kid(&s(i));
            let key = alice.get(&s(i)).key.clone();
            let good = ref_sign(&key, &kid, text.as_bytes()).to_string();
            // another key of the same type under this id
            let bad = ref_sign(&alice.get(&s((i + 3) % n)).key, &kid, text.as_bytes()).to_string();
            for listed in [true, false] {
                for k in &mut alice.keys {
                    if k.kid == kid {
                        k.auth = listed;
                    }
                }
                let net = Net::new(&docs_of(&[alice.clone()]), &[]);
                rec.eval(&(i, listed), true);
                let r = block_on(unpack(&good, &net));
                match r {
                    Ok((got, md)) => rec.check(listed && got == msg && md.sign_from.as_deref() == Some(&kid), "listed", || format!("key {i} of {n}, listed {listed}: signed by {:?}", md.sign_from)),
                    Err(e) => rec.check(!listed, "listed", || format!("key {i} of {n}: {e}")),
                };
                if (i + 3) % n != i {
                    rec.check(block_on(unpack(&bad, &net)).is_err(), "other-key", || format!("key {} signed as {i} of {n}", (i + 3) % n));
                }
            }
            for k in &mut alice.keys {
                if k.kid == kid {
                    k.auth = true;
                }
            }
        }
    });
}

pub fn c06(p: &mut Plan, full: bool) {
    each(p, full, |rec, n, kt| {
        let other = if kt == KT::X25519 { KT::P256 } else { KT::X25519 };
        let (mut alice, bob) = (party("alice", n, kt), party("bob", n, kt));
        alice = alice.ka("o", other);
        let mut mixed = party("carol", n, other);
        // a single key of the sender's type at the far end of the recipient's list
        mixed = mixed.ka("last", kt);
        let world = [alice.clone(), bob.clone(), mixed.clone()];
        let docs = docs_of(&world);
        // only the last keys are of a type that can be used at all
        for i in at(n) {
            let mut d = bob.doc();
            for vm in d.verification_method.iter_mut().filter(|vm| (0..i).any(|k| vm.id == bob.kid(&a(k)))) {
                vm.type_ = VerificationMethodType::Other;
            }
            let net = Net::new(&[alice.doc(), d], &alice.secrets());
            let want: Vec<String> = (i..n).map(|k| bob.kid(&a(k))).collect();
            for from in [None, Some(alice.did.as_str())] {
                let m = Mode::enc(&bob.did, from, None, false, &AnonCryptAlg::default());
                rec.eval(&("late", i, from), true);
                match block_on(m.pack(&simple(None, None, "many"), &net)) {
                    Ok((_, md)) => rec.check(md.as_ref().unwrap().to_kids == want, "late", || format!("{:?} of {want:?}", md.unwrap().to_kids)),
                    Err(e) => {
                        rec.fail("late", format!("the first {i} of {n} keys are of an unknown type: {e}"));
                        true
                    }
                };
            }
        }
        for i in at(n) {
            let msg = simple(Some(&alice.did), None, "many");
            // the sender holds its keys from i on
            let net = Net::new(&docs, &only(&alice, &(i..n).map(a).collect::<Vec<_>>()));
            for (to, want) in [
                (bob.did.clone(), (0..n).map(|k| bob.kid(&a(k))).collect::<Vec<_>>()),
                (bob.kid(&a(n - 1 - i)), vec![bob.kid(&a(n - 1 - i))]),
                (mixed.did.clone(), vec![mixed.kid("last")]),
            ] {
                let m = Mode::enc(&to, Some(&alice.did), None, false, &AnonCryptAlg::default());
                let what = format!("from-{i}/{}", to.len());
                rec.eval(&(i, &to), true);
                match block_on(m.pack(&msg, &net)) {
                    Ok((_, md)) => {
                        let md = md.unwrap();
                        rec.check(md.from_kid.as_deref() == Some(&alice.kid(&a(i))), &what, || format!("sender key {:?}, first held is {i}", md.from_kid));
                        rec.check(md.to_kids == want, &what, || format!("{} recipient keys, expected {}", md.to_kids.len(), want.len()));
                    }
                    Err(e) => rec.fail(&what, e.to_string()),
                }
                // the sender's key named
                let m = Mode::enc(&to, Some(&alice.kid(&a(i))), None, false, &AnonCryptAlg::default());
                match block_on(m.pack(&msg, &net)) {
                    Ok((_, md)) => {
                        let md = md.unwrap();
                        rec.check(md.from_kid.as_deref() == Some(&alice.kid(&a(i))) && md.to_kids == want, &what, || "named sender key: other keys".into());
                    }
                    Err(e) => rec.fail(&what, e.to_string()),
                }
            }
        }
    });
}

pub fn c07(p: &mut Plan, full: bool) {
    for n in sizes(full) {
        p.case(format!("many/{n}"), move |rec| {
            let alice = party("alice", n, KT::X25519);
            let docs = docs_of(&[alice.clone()]);
            let msg = simple(Some(&alice.did), None, "many");
            for i in at(n) {
                let net = Net::new(&docs, &only(&alice, &(i..n).map(s).collect::<Vec<_>>()));
                let kid = alice.kid(&s(i));
                for by in [alice.did.clone(), kid.clone()] {
                    rec.eval(&(i, &by), true);
                    match block_on(msg.pack_signed(&by, &net, &net)) {
                        Ok((t, md)) => {
                            rec.check(md.sign_by_kid == kid, "reported", || format!("reports {}, first held is {i}", md.sign_by_kid));
                            let really = open_jws(&t, &|k| alice.keys.iter().find(|x| x.kid == k).map(|x| x.key.clone()));
                            rec.check(matches!(&really, Ok(r) if r.0 == kid), "used", || format!("{:?}", really.map(|r| r.0)));
                        }
                        Err(e) => rec.fail("sign", e.to_string()),
                    }
                    let fp = FromPrior::build(alice.did.clone(), ns("did:example:bob").into()).finalize();
                    let named = by.contains('#').then_some(by.as_str());
                    match block_on(fp.pack(named, &net, &net)) {
                        Ok((_, k)) => rec.check(k == kid, "token", || format!("reports {k}, first held is {i}")),
                        Err(e) => {
                            rec.fail("token", e.to_string());
                            true
                        }
                    };
                }
            }
        });
    }
}

pub fn c08(p: &mut Plan, full: bool) {
    for n in sizes(full) {
        p.case(format!("many/{n}"), move |rec| {
            let mut alice = party("alice", n, KT::X25519);
            let fp = FromPrior::build(alice.did.clone(), ns("did:example:bob").into()).finalize();
            for i in at(n) {
                let kid = alice.kid(&s(i));
                let key = alice.get(&s(i)).key.clone();
                let h = json!({"typ": "JWT", "alg": key.kt.sig_alg().unwrap(), "kid": kid});
                let c = json!({"iss": alice.did, "sub": ns("did:example:bob")});
                let good = ref_jwt(&key, &h, &c);
                let bad = ref_jwt(&alice.get(&s((i + 3) % n)).key, &h, &c);
                for listed in [true, false] {
                    alice.keys.iter_mut().filter(|k| k.kid == kid).for_each(|k| k.auth = listed);
                    let net = Net::new(&docs_of(&[alice.clone()]), &[]);
                    rec.eval(&(i, listed), true);
                    match block_on(FromPrior::unpack(&good, &net)) {
                        Ok((f, k)) => rec.check(listed && f == fp && k == kid, "listed", || format!("key {i} of {n}, listed {listed}: {k}")),
                        Err(e) => rec.check(!listed, "listed", || format!("key {i} of {n}: {e}")),
                    };
                    if (i + 3) % n != i {
                        rec.check(block_on(FromPrior::unpack(&bad, &net)).is_err(), "other-key", || format!("{i} of {n}"));
                    }
                }
                alice.keys.iter_mut().filter(|k| k.kid == kid).for_each(|k| k.auth = true);
            }
        });
    }
}

pub fn c09(p: &mut Plan, full: bool) {
    for n in if full { vec![5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 33] } else { vec![5, 6, 8, 9, 12] } {
        for enc in ANON {
            let name = anon_enc_name(&enc);
            p.case(format!("many/{name}/{n}"), move |rec| {
                let (alice, mut bob) = (rich("alice"), rich("bob"));
                let meds: Vec<Party> = (0..3).map(|i| rich(&format!("med{i}"))).collect();
                let keys: Vec<String> = (0..n).map(|i| match i % 4 {
                    0 => meds[i % 3].did.clone(),
                    1 => meds[i % 3].kid("x2"),
                    2 => meds[i % 3].kid("p1"),
                    _ => meds[i % 3].kid("x3"),
                }).collect();
                bob = bob.service(service("#s", "http://hop", Some(vec!["didcomm/v2"]), &keys));
                let world: Vec<Party> = [vec![alice.clone(), bob.clone()], meds].concat();
                let net = Net::new(&docs_of(&world), &alice.secrets());
                let msg = simple(Some(&alice.did), Some(&bob.did), "many");
                let headers: std::collections::HashMap<String, Value> = (0..n).map(|i| (format!("h{i}"), json!([i, format!("v{i}")]))).collect();
                let o = PackEncryptedOptions { enc_alg_anon: enc.clone(), forward_headers: Some(headers.clone()), ..Default::default() };
                rec.eval(&n, true);
                let (t, _) = match block_on(msg.pack_encrypted(&bob.did, Some(&alice.did), None, &net, &net, &o)) {
                    Ok(x) => x,
                    Err(e) => return rec.fail("pack", e.to_string()),
                };
                match peel_onion(&t, &keys, &bob.did, &headers.into_iter().collect(), name, &world) {
                    Ok((_, inner)) => match block_on(unpack(&inner, &Net::new(&docs_of(&world), &bob.secrets()))) {
                        Ok((m, _)) => {
                            rec.check(m == msg, "message", || "another message".into());
                        }
                        Err(e) => rec.fail("unpack", e.to_string()),
                    },
                    Err(e) => rec.fail("onion", e),
                }
            });
        }
    }
}

/// a message with n of everything that can be repeated
fn big_message(n: usize) -> Message {
    let mut b = Message::build("id".into(), "type".into(), json!((0..n).map(|i| (format!("k{i}"), json!([i]))).collect::<std::collections::BTreeMap<_, _>>()));
    b = b.to_many((0..n).map(|i| format!("did:example:r{i}")).collect());
    for i in 0..n {
        b = b.header(format!("h{i}"), json!({ "v": i }));
        b = b.attachment(match i % 3 {
            0 => Attachment::json(json!({ "i": i })).id(format!("a{i}")).finalize(),
            1 => Attachment::base64(format!("QUFB{i}")).description(format!("d{i}")).finalize(),
            _ => Attachment::links((0..i).map(|k| format!("l{k}")).collect(), format!("hash{i}")).finalize(),
        });
    }
    b.finalize()
}

pub fn c14(p: &mut Plan, full: bool) {
    for n in sizes(full) {
        p.case(format!("many/{n}"), move |rec| {
            let m = big_message(n);
            let want = ref_json(&m);
            rec.eval(&n, true);
            rec.check(want["attachments"].as_array().map(|x| x.len()) == Some(n) && want["to"].as_array().map(|x| x.len()) == Some(n), "reference", || "not as built".into());
            let got = serde_json::to_value(&m).unwrap();
            rec.check(got == want, "serialised", || "differs from the format".into());
            match serde_json::from_value::<Message>(want) {
                Ok(x) => rec.check(x == m, "parsed", || "another message".into()),
                Err(e) => {
                    rec.fail("parsed", e.to_string());
                    true
                }
            };
        });
    }
}

pub fn c01(p: &mut Plan, full: bool) {
    for n in sizes(full) {
        p.case(format!("many/{n}"), move |rec| {
            let (alice, bob) = (party("alice", n, KT::P256), party("bob", n, KT::P256));
            let docs = docs_of(&[alice.clone(), bob.clone()]);
            let mut m = big_message(n);
            m.from = Some(alice.did.clone());
            m.to.as_mut().unwrap().push(bob.did.clone());
            let mut ms = forms(&bob.did, &alice.did, &alice.did);
            ms.extend([Mode::plain(), Mode::signed(&alice.did)]);
            for mode in ms {
                rec.eval(&mode.name(), true);
                let r = block_on(mode.pack(&m, &Net::new(&docs, &alice.secrets())))
                    .and_then(|(t, _)| block_on(unpack(&t, &Net::new(&docs, &bob.secrets()))));
                match r {
                    Ok((x, _)) => rec.check(x == m, mode.name(), || "another message".into()),
                    Err(e) => {
                        rec.fail(mode.name(), e.to_string());
                        true
                    }
                };
            }
        });
    }
}

pub fn c17(p: &mut Plan, full: bool) {
    each(p, full, |rec, n, kt| {
        let (alice, bob) = (party("alice", n, kt), party("bob", n, kt));
        let docs = docs_of(&[alice.clone(), bob.clone()]);
        let msg = simple(Some(&alice.did), Some(&bob.did), "many");
        let text = ref_json(&msg).to_string();
        let to = kks(&bob, n);
        for (i, enc) in at(n).into_iter().flat_map(|i| ENC_ALGS.into_iter().map(move |e| (i, e))) {
            let sk = alice.get(&a(i)).key.clone();
            let st = [vec![Layer::Anon { enc, to: to.clone() }], vec![Layer::Auth { from: (alice.kid(&a(i)), sk), to: to.clone() }]];
            for st in st {
                let texts = build(&st, &text, &format!("m17/{n}"));
                let want = expected(&st, &texts);
                rec.eval(&(i, enc, st[0].name().len()), true);
                match block_on(unpack(texts.last().unwrap(), &Net::new(&docs, &only(&bob, &[a(i)])))) {
                    Ok((m, md)) => {
                        rec.check(m == msg, "message", || "another message".into());
                        if let Some(d) = md_diff(&want, &md) {
                            rec.fail("metadata", d);
                        }
                    }
                    Err(e) => rec.fail("refused", format!("key {i} of {n}: {e}")),
                }
            }
        }
    });
}

pub fn c21(p: &mut Plan, full: bool) {
    for n in sizes(full) {
        p.case(format!("many/{n}"), move |rec| {
            let alice = rich("alice");
            let meds: Vec<Party> = (0..3).map(|i| rich(&format!("med{i}"))).collect();
            for i in at(n) {
                // services 0..i do not accept DIDComm v2 (or are of another type); i and all later ones do
                let mut bob = rich("bob");
                for k in 0..n {
                    let mut sv = service(&format!("#s{k}"), &format!("http://e{k}"), Some(if k < i { vec!["didcomm/aip2;env=rfc19"] } else { vec!["x"; k].into_iter().chain(["didcomm/v2"]).collect() }), &[meds[k % 3].did.clone()]);
                    if k < i && k % 2 == 1 {
                        sv.service_endpoint = ServiceKind::Other { value: json!({"n": k}) };
                    }
                    bob = bob.service(sv);
                }
                let world: Vec<Party> = [vec![alice.clone(), bob.clone()], meds.clone()].concat();
                let net = Net::new(&docs_of(&world), &alice.secrets());
                let msg = simple(None, Some(&bob.did), "many");
                for ask in [None, Some(i), Some(n - 1), i.checked_sub(1)].into_iter().enumerate().filter(|(k, x)| *k == 0 || x.is_some()).map(|x| x.1) {
                    let o = PackEncryptedOptions { messaging_service: ask.map(|k| format!("#s{k}")), ..Default::default() };
                    let pick = ask.unwrap_or(i);
                    rec.eval(&(i, ask), true);
                    match block_on(msg.pack_encrypted(&bob.did, None, None, &net, &net, &o)) {
                        Ok((t, md)) => {
                            let ms = md.messaging_service.map(|x| (x.id, x.service_endpoint));
                            rec.check(pick >= i && ms == Some((format!("#s{pick}"), format!("http://e{pick}"))), "chosen", || format!("{ms:?} for request {ask:?}, first usable {i}"));
                            let r = peel_onion(&t, &[meds[pick % 3].did.clone()], &bob.did, &Default::default(), anon_enc_name(&o.enc_alg_anon), &world);
                            rec.check(r.is_ok(), "wrapped", || r.err().unwrap_or_default());
                        }
                        Err(e) => {
                            rec.check(pick < i && e.kind() == E::IllegalArgument, "refused", || format!("request {ask:?}, first usable {i}: {e}"));
                        }
                    }
                }
            }
        });
    }
}

pub fn c23(p: &mut Plan, full: bool) {
    each(p, full, |rec, n, kt| {
        let (alice, bob, carol) = (party("alice", n, kt), party("bob", n, kt), party("carol", n, kt));
        let docs = docs_of(&[alice.clone(), bob.clone(), carol.clone()]);
        let text = ref_json(&simple(Some(&alice.did), None, "many")).to_string();
        for auth in [false, true] {
            for i in at(n) {
                let sk = alice.get(&a(i)).key.clone();
                let ak = alice.kid(&a(i));
                let from = auth.then_some((ak.as_str(), &sk));
                let to = kks(&bob, n);
                let enc = if auth { "A256CBC-HS512" } else { "XC20P" };
                let mk = |to: &[KK], apv_of_: Option<Vec<String>>| {
                    let mut x = Seal::new(&format!("m23/{n}/{i}"), enc, from, &refs(to), text.as_bytes());
                    if let Some(k) = apv_of_ {
                        x.apv = Some(apv_of(&k.iter().map(|s| s.as_str()).collect::<Vec<_>>()).to_vec());
                    }
                    x.build().to_string()
                };
                let kids: Vec<String> = to.iter().map(|t| t.0.clone()).collect();
                let mut other = to.clone();
                other[i] = (carol.kid(&a(i)), carol.get(&a(i)).key.clone());
                let mut plain = to.clone();
                plain[i].0 = bob.did.clone();
                let without: Vec<String> = kids.iter().enumerate().filter(|x| x.0 != i).map(|x| x.1.clone()).collect();
                let mut unsorted = kids.clone();
                unsorted.sort();
                unsorted.swap(i, (i + 1) % n);
                let cases = [
                    ("good", mk(&to, None), true),
                    ("other-did", mk(&other, None), false),
                    ("no-key-id", mk(&plain, None), false),
                    ("hash-without", mk(&to, Some(without)), false),
                    ("hash-repeated", mk(&to, Some([kids.clone(), vec![kids[i].clone()]].concat())), false),
                ];
                for (name, t, good) in cases {
                    for held in [vec![a(0)], vec![a(i)], vec![a(n - 1)]] {
                        rec.eval(&(auth, i, name, &held), true);
                        let r = block_on(unpack(&t, &Net::new(&docs, &only(&bob, &held))));
                        match r {
                            Ok(_) => rec.check(good, name, || format!("accepted with deviation at {i} of {n}")),
                            Err(e) => rec.check(!good && matches!(e.kind(), E::Malformed | E::SecretNotFound | E::DIDUrlNotFound), name, || format!("at {i} of {n}: {e}")),
                        };
                    }
                }
            }
        }
    });
}

pub fn c25(p: &mut Plan, full: bool) {
    each(p, full, |rec, n, kt| {
        sized(rec, n, kt, &mut |rec, m, t, _, _, bob, docs, msg| {
            let all: Vec<String> = (0..n).map(a).collect();
            let whole = Net::new(docs, &only(bob, &all));
            for every in [false, true] {
                rec.eval(&(m.name(), every), true);
                match block_on(unpack_with(t, &whole, every, true)) {
                    Ok((x, _)) => rec.check(&x == msg, "all", || "another message".into()),
                    Err(e) => {
                        rec.fail("all", e.to_string());
                        true
                    }
                };
            }
            let v: Value = serde_json::from_str(t).unwrap();
            for i in at(n) {
                let mut w = v.clone();
                w["recipients"][i]["encrypted_key"] = v["recipients"][(i + 1) % n]["encrypted_key"].clone();
                let w = w.to_string();
                let what = format!("{}/{i}", m.name());
                rec.eval(&what, true);
                let j = (i + n / 2) % n;
                let others: Vec<String> = all.iter().enumerate().filter(|x| x.0 != i).map(|x| x.1.clone()).collect();
                for (held, every, ok) in [
                    (all.clone(), true, false),
                    (vec![a(i)], false, false),
                    (vec![a(j), a(i)], true, false),
                    (vec![a(j)], true, true),
                    (others.clone(), true, true),
                    (others, false, true),
                ] {
                    let k = held.len();
                    match block_on(unpack_with(&w, &Net::new(docs, &only(bob, &held)), every, true)) {
                        Ok((x, _)) => rec.check(ok && &x == msg, &what, || format!("{k} keys held, all expected {every}, entry {i} of {n} bad: opened")),
                        Err(e) => rec.check(!ok, &what, || format!("{k} keys held, all expected {every}, entry {i} of {n} bad: {e}")),
                    };
                }
            }
        })
    });
}
