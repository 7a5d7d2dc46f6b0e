//! The near-miss dimension: ids that differ a little from the right one, with a perfectly usable key
//! behind them, wherever an id decides. Each function adds the cases of one property to its plan.
use crate::engine::Plan;
use crate::keys::*;
use crate::layers::*;
use crate::msgs::*;
use crate::refjose::*;
use crate::world::*;
use didcomm::algorithms::*;
use didcomm::did::*;
use didcomm::error::ErrorKind as E;
use didcomm::secrets::Secret;
use didcomm::*;
use serde_json::json;

/// Key ids of the same DID that are almost `kid`.
pub fn kids(kid: &str) -> Vec<String> {
    let (d, f) = kid.split_once('#').unwrap();
    let flip = |s: &str| -> String { s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() };
    let first = f.chars().next().unwrap();
    let mut v = vec![
        format!("{d}#{}", flip(f)),
        format!("{kid}0"),
        format!("{kid}#"),
        format!("{kid}#{f}"),
        format!("{kid}/"),
        format!("{kid}?q=1"),
        format!("{kid} "),
        format!("{d}# {f}"),
        format!("{d}##{f}"),
        format!("{d}#{f}{f}"),
        format!("{d}#%{:02x}{}", first as u32, &f[first.len_utf8()..]),
        format!("{d}#"),
        format!("{kid}\u{0}"),
        format!("{kid}\u{301}"),
        // relative and shorter
        format!("#{f}"),
        f.to_string(),
        f.chars().last().unwrap().to_string(),
    ];
    if f.len() > 1 {
        v.push(format!("{d}#{}", &f[first.len_utf8()..]));
        v.push(kid[..kid.len() - 1].to_string());
        v.push(format!("{d}#{}{first}", &f[first.len_utf8()..]));
    }
    v.retain(|x| x != kid);
    v
}
/// DIDs that are almost `did`.
pub fn dids(did: &str) -> Vec<String> {
    let mut p = did.splitn(3, ':');
    let (_, m, r) = (p.next(), p.next().unwrap(), p.next().unwrap());
    let mut v = vec![
        format!("did:{m}:{}", r.to_uppercase()),
        format!("did:{}:{r}", m.to_uppercase()),
        format!("{did}0"),
        format!("{did} "),
        format!("{did}/"),
        format!("{did}?a"),
        format!("{did}:"),
        format!("{did}\u{0}"),
        did[..did.len() - 1].to_string(),
        format!("did:{m}:{r}{r}"),
        format!("did:{m}2:{r}"),
    ];
    v.retain(|x| x != did);
    v
}

/// alice whose document also has a method with the id `near` (another key), listed or not
struct Alice {
    p: Party,
    other: Key,
    doc: DIDDoc,
    secrets: Vec<Secret>,
}
fn alice(kt: KT, near: &str, auth: bool, swap: bool) -> Alice {
    let p = Party::new(ns("did:example:alice")).key("key", kt, Enc::Jwk, !auth, auth);
    let other = Key::derive(kt, &format!("other/{near}"));
    let mut doc = p.doc();
    doc.verification_method.insert(0, other.vm(near, Enc::Jwk));
    if swap {
        // the list names the near id only
        for l in [&mut doc.authentication, &mut doc.key_agreement] {
            for k in l.iter_mut() {
                *k = near.to_string();
            }
        }
    }
    let mut secrets = p.secrets();
    secrets.push(other.secret(near, Enc::Jwk));
    Alice { p, other, doc, secrets }
}

const SIGS: [KT; 3] = [KT::Ed25519, KT::P256, KT::K256];

/// (kid, its key, whether the document authorises it) for both ways round
fn claims(a: &Alice, near: &str, swap: bool) -> [(String, Key, bool); 2] {
    [(near.to_string(), a.other.clone(), swap), (a.p.kid("key"), a.p.get("key").key.clone(), !swap)]
}

pub fn c04(p: &mut Plan, _: bool) {
    for kt in SIGS {
        p.case(format!("near/{}", kt.crv()), move |rec| {
            let kid = Party::new(ns("did:example:alice")).kid("key");
            for near in kids(&kid) {
                for swap in [false, true] {
                    let a = alice(kt, &near, true, swap);
                    let net = Net::new(&[a.doc.clone()], &[]);
                    let msg = simple(Some(&a.p.did), None, "near");
                    for (k, key, ok) in claims(&a, &near, swap) {
                        rec.eval(&(&near, swap, &k), true);
                        let t = ref_sign(&key, &k, ref_json(&msg).to_string().as_bytes()).to_string();
                        match block_on(unpack(&t, &net)) {
                            Ok((_, md)) => rec.check(ok && md.sign_from.as_deref() == Some(&k), "accepted", || format!("signed as {k:?}; the document lists {:?}", a.doc.authentication)),
                            // whether such an id can name a key at all is another matter
                            Err(e) => rec.check(!ok || k == near, "refused", || e.to_string()),
                        };
                        // the right id with the near one's key
                        let wrong = if k == near { a.p.get("key").key.clone() } else { a.other.clone() };
                        let t = ref_sign(&wrong, &k, ref_json(&msg).to_string().as_bytes()).to_string();
                        rec.check(block_on(unpack(&t, &net)).is_err(), "other-key", || format!("{k:?} signed with the key of the other"));
                    }
                }
            }
        });
    }
}

pub fn c08(p: &mut Plan, _: bool) {
    for kt in SIGS {
        p.case(format!("near/{}", kt.crv()), move |rec| {
            let kid = Party::new(ns("did:example:alice")).kid("key");
            for near in kids(&kid) {
                for swap in [false, true] {
                    let a = alice(kt, &near, true, swap);
                    let net = Net::new(&[a.doc.clone()], &[]);
                    let claim = json!({"iss": a.p.did, "sub": ns("did:example:bob")});
                    for (k, key, ok) in claims(&a, &near, swap) {
                        rec.eval(&(&near, swap, &k), true);
                        let h = json!({"typ": "JWT", "alg": kt.sig_alg().unwrap(), "kid": k});
                        match block_on(FromPrior::unpack(&ref_jwt(&key, &h, &claim), &net)) {
                            Ok((_, got)) => rec.check(ok && got == k, "accepted", || format!("signed as {k:?}; the document lists {:?}", a.doc.authentication)),
                            Err(e) => rec.check(!ok || k == near, "refused", || e.to_string()),
                        };
                        let wrong = if k == near { a.p.get("key").key.clone() } else { a.other.clone() };
                        rec.check(block_on(FromPrior::unpack(&ref_jwt(&wrong, &h, &claim), &net)).is_err(), "other-key", || format!("{k:?}"));
                    }
                    // an issuer that is almost the DID of the key
                    for iss in dids(&a.p.did) {
                        let h = json!({"typ": "JWT", "alg": kt.sig_alg().unwrap(), "kid": a.p.kid("key")});
                        let t = ref_jwt(&a.p.get("key").key, &h, &json!({"iss": iss, "sub": ns("did:example:bob")}));
                        rec.eval(&(&iss, swap), true);
                        rec.check(block_on(FromPrior::unpack(&t, &net)).is_err(), "issuer", || format!("issuer {iss:?} signed by {:?}", a.p.did));
                    }
                }
            }
        });
    }
}

pub fn c07(p: &mut Plan, _: bool) {
    for kt in SIGS {
        p.case(format!("near/{}", kt.crv()), move |rec| {
            let kid = Party::new(ns("did:example:alice")).kid("key");
            for near in kids(&kid) {
                for swap in [false, true] {
                    let a = alice(kt, &near, true, swap);
                    // both secrets, or only the one that is not authorised
                    for both in [true, false] {
                        let auth_kid = if swap { near.clone() } else { kid.clone() };
                        let sec: Vec<Secret> = a.secrets.iter().filter(|s| both || s.id != auth_kid).cloned().collect();
                        let net = Net::new(&[a.doc.clone()], &sec);
                        let msg = simple(Some(&a.p.did), None, "near");
                        for by in [a.p.did.clone(), kid.clone(), near.clone()] {
                            rec.eval(&(&near, swap, both, &by), true);
                            let may = both && (by == a.p.did || by == auth_kid);
                            match block_on(msg.pack_signed(&by, &net, &net)) {
                                Ok((t, md)) => {
                                    rec.check(may && md.sign_by_kid == auth_kid, "signed", || format!("by {by:?} as {:?}; the document lists {auth_kid:?}", md.sign_by_kid));
                                    let key = if swap { a.other.clone() } else { a.p.get("key").key.clone() };
                                    let r = open_jws(&t, &|k| (k == auth_kid).then(|| key.clone()));
                                    rec.check(r.is_ok(), "really", || r.err().unwrap_or_default());
                                }
                                Err(e) => {
                                    rec.check(!may || auth_kid == near, "refused", || format!("by {by:?}: {e}"));
                                }
                            }
                            let fp = FromPrior::build(a.p.did.clone(), ns("did:example:bob").into()).finalize();
                            match block_on(fp.pack((by != a.p.did).then_some(by.as_str()), &net, &net)) {
                                Ok((_, k)) => rec.check(may && k == auth_kid, "token", || format!("by {by:?} as {k:?}; the document lists {auth_kid:?}")),
                                Err(e) => rec.check(!may || auth_kid == near, "token-refused", || format!("by {by:?}: {e}")),
                            };
                        }
                    }
                }
            }
        });
    }
}

pub fn c06(p: &mut Plan, _: bool) {
    for kt in [KT::X25519, KT::P256] {
        p.case(format!("near/{}", kt.crv()), move |rec| {
            let kid = Party::new(ns("did:example:alice")).kid("key");
            let bob = Party::new(ns("did:example:bob")).ka("key", kt);
            for near in kids(&kid) {
                for swap in [false, true] {
                    let a = alice(kt, &near, false, swap);
                    let good = if swap { near.clone() } else { kid.clone() };
                    let net = Net::new(&[a.doc.clone(), bob.doc()], &[a.secrets.clone(), bob.secrets()].concat());
                    let msg = simple(None, None, "near");
                    for k in [a.p.did.clone(), kid.clone(), near.clone()] {
                        let may = k == a.p.did || k == good;
                        // as sender
                        let m = Mode::enc(&bob.did, Some(&k), None, false, &AnonCryptAlg::default());
                        rec.eval(&(&near, swap, &k), true);
                        match block_on(m.pack(&msg, &net)) {
                            Ok((_, md)) => rec.check(may && md.as_ref().unwrap().from_kid.as_deref() == Some(&good), "sender", || format!("from {k:?} as {:?}; the document lists {good:?}", md.unwrap().from_kid)),
                            Err(e) => rec.check(!may || good == near, "sender-refused", || format!("from {k:?}: {e}")),
                        };
                        // as recipient, without and with a sender
                        for from in [None, Some(bob.did.as_str())] {
                            let m = Mode::enc(&k, from, None, false, &AnonCryptAlg::default());
                            match block_on(m.pack(&msg, &net)) {
                                Ok((_, md)) => rec.check(may && md.as_ref().unwrap().to_kids == [good.clone()], "recipient", || format!("to {k:?} as {:?}; the document lists {good:?}", md.unwrap().to_kids)),
                                Err(e) => rec.check(!may || good == near, "recipient-refused", || format!("to {k:?}: {e}")),
                            };
                        }
                    }
                }
            }
        });
    }
}

pub fn c23(p: &mut Plan, _: bool) {
    for kt in [KT::X25519, KT::P256] {
        p.case(format!("near/{}", kt.crv()), move |rec| {
            let kid = Party::new(ns("did:example:alice")).kid("key");
            let bob = Party::new(ns("did:example:bob")).ka("key", kt);
            let (bk, bkey) = (bob.kid("key"), bob.get("key").key.clone());
            for near in kids(&kid) {
                for swap in [false, true] {
                    let a = alice(kt, &near, false, swap);
                    let net = Net::new(&[a.doc.clone(), bob.doc()], &bob.secrets());
                    let msg = simple(None, None, "near");
                    for (k, key, ok) in claims(&a, &near, swap) {
                        rec.eval(&(&near, swap, &k), true);
                        let t = Seal::new("near", "A256CBC-HS512", Some((&k, &key)), &[(&bk, &bkey)], ref_json(&msg).to_string().as_bytes()).build().to_string();
                        match block_on(unpack(&t, &net)) {
                            Ok((_, md)) => rec.check(ok && md.encrypted_from_kid.as_deref() == Some(&k), "accepted", || format!("sent as {k:?}; the document lists {:?}", a.doc.key_agreement)),
                            Err(e) => rec.check(!ok || k == near, "refused", || e.to_string()),
                        };
                    }
                }
            }
            // a recipient list whose DIDs are almost the same
            for d in dids(&bob.did) {
                let k2 = format!("{d}#{}", nfrag("key"));
                let key2 = Key::derive(kt, &k2);
                for first in [true, false] {
                    let mut to = vec![(bk.as_str(), &bkey), (k2.as_str(), &key2)];
                    if first {
                        to.reverse();
                    }
                    let t = Seal::new("near", "XC20P", None, &to, ref_json(&simple(None, None, "near")).to_string().as_bytes()).build().to_string();
                    rec.eval(&(&d, first), true);
                    let net = Net::new(&[bob.doc()], &[bob.secrets(), vec![key2.secret(&k2, Enc::Jwk)]].concat());
                    rec.check(matches!(block_on(unpack(&t, &net)), Err(e) if e.kind() == E::Malformed), "dids", || format!("recipients of {:?} and {d:?} accepted", bob.did));
                }
            }
        });
    }
}

pub fn c18(p: &mut Plan, _: bool) {
    p.case("near", |rec| {
        let (a, b) = (rich("alice"), rich("bob"));
        for (own, party) in [(true, &a), (false, &b)] {
            for d in dids(&party.did) {
                // the near DID has a perfectly good document, too
                let mut twin = party.doc();
                twin.id = d.clone();
                let net = Net::new(&[a.doc(), b.doc(), twin], &[a.secrets(), b.secrets()].concat());
                for frag in ["", "x1"] {
                    let at = |p: &Party| if frag.is_empty() { p.did.clone() } else { p.kid(frag) };
                    let mut m = simple(Some(&a.did), Some(&b.did), "near");
                    if own {
                        m.from = Some(d.clone());
                    } else {
                        m.to = Some(vec![d.clone()]);
                    }
                    let mode = Mode::enc(&at(&b), Some(&at(&a)), None, false, &AnonCryptAlg::default());
                    rec.eval(&(own, &d, frag), true);
                    let r = block_on(mode.pack(&m, &net));
                    rec.check(matches!(&r, Err(e) if e.kind() == E::IllegalArgument), "accepted", || {
                        format!("message from {:?} to {:?} packed from {:?} to {:?}: {:?}", m.from, m.to, mode.from, mode.to, r.as_ref().err().map(|e| e.kind()))
                    });
                    // among others
                    if !own {
                        m.to = Some(vec![ns("did:example:x").into(), d.clone(), b.did.clone()]);
                        let r = block_on(mode.pack(&m, &net));
                        rec.check(r.is_ok(), "among", || r.err().map(|e| e.to_string()).unwrap_or_default());
                    }
                }
            }
        }
    });
}

pub fn c21(p: &mut Plan, _: bool) {
    p.case("near", |rec| {
        let (a, mut b) = (rich("alice"), rich("bob"));
        let id = format!("{}#{}", b.did, nfrag("inbox"));
        let m1 = rich("m1");
        b = b.service(service(&id, "https://right", None, &[m1.did.clone()]));
        let msg = simple(None, None, "near");
        for near in kids(&id).into_iter().chain(["".to_string(), nfrag("inbox"), format!("#{}", nfrag("inbox")), id.to_uppercase()]) {
            let net = Net::new(&[a.doc(), b.doc(), m1.doc()], &a.secrets());
            let o = |s: &str| PackEncryptedOptions { messaging_service: Some(s.into()), ..Default::default() };
            rec.eval(&near, true);
            let r = block_on(msg.pack_encrypted(&b.did, None, None, &net, &net, &o(&near)));
            rec.check(matches!(&r, Err(e) if e.kind() == E::IllegalArgument), "accepted", || format!("{near:?} taken for {id:?}"));
            // with a service of that very id before or after the right one
            for before in [true, false] {
                let mut c = b.clone();
                c.services.insert(if before { 0 } else { 1 }, service(&near, "https://near", None, &[m1.did.clone()]));
                let net = Net::new(&[a.doc(), c.doc(), m1.doc()], &a.secrets());
                for (ask, uri) in [(&near, "https://near"), (&id, "https://right")] {
                    match block_on(msg.pack_encrypted(&b.did, None, None, &net, &net, &o(ask))) {
                        Ok((_, md)) => {
                            let s = md.messaging_service.map(|s| (s.id, s.service_endpoint));
                            rec.check(s == Some((ask.clone(), uri.into())), "chosen", || format!("asked for {ask:?}, got {s:?}"));
                        }
                        Err(e) => rec.fail("service", format!("asked for {ask:?}: {e}")),
                    }
                }
            }
        }
    });
}

pub fn c10(p: &mut Plan, _: bool) {
    p.case("near", |rec| {
        let bob = rich("bob");
        let net = Net::new(&[bob.doc()], &bob.secrets());
        let inner = simple(None, None, "near");
        let to = vec![(bob.kid("x1"), bob.get("x1").key.clone())];
        let nexts = bob.keys.iter().filter(|k| k.ka).flat_map(|k| kids(&k.kid)).filter(|k| !bob.keys.iter().any(|x| &x.kid == k));
        for next in nexts.chain(dids(&bob.did)).chain(bob.keys.iter().filter(|k| k.ka).flat_map(|k| {
            let f = k.kid.split_once('#').unwrap().1.to_string();
            dids(&bob.did).into_iter().map(move |d| format!("{d}#{f}"))
        })) {
            // a DID with a path or query is still that DID; a fragment-only difference is another key
            let st = [Layer::Anon { enc: "XC20P", to: to.clone() }, Layer::Fwd { next: next.clone() }, Layer::Anon { enc: "XC20P", to: to.clone() }];
            let t = build(&st, &ref_json(&inner).to_string(), "near").pop().unwrap();
            rec.eval(&next, true);
            rec.state(&next);
            rec.traces += 1;
            match block_on(unpack(&t, &net)) {
                Ok((m, md)) => {
                    rec.outcome("returned as it is");
                    rec.check(!md.re_wrapped_in_forward && m.body["next"] == json!(next), "unwrapped", || format!("a forward for {next:?} taken as one's own"));
                }
                Err(_) => rec.outcome("refused"),
            }
        }
    });
}

/// Documents in which every key is in the one list, the other, or both.
fn listed(n: &str, kt: KT, roles: &[u8]) -> Party {
    let mut p = Party::new(&nm(&format!("did:example:{n}")));
    for (i, r) in roles.iter().enumerate() {
        p = p.key(&format!("k{i}"), kt, Enc::Jwk, r & 1 > 0, r & 2 > 0);
    }
    p
}
fn all_roles() -> Vec<Vec<u8>> {
    (0..64u8).map(|x| vec![x & 3, x >> 2 & 3, x >> 4 & 3]).collect()
}

pub fn c07_roles(p: &mut Plan) {
    p.case("roles", |rec| {
        for roles in all_roles() {
            let a = listed("alice", KT::P256, &roles);
            let docs = docs_of(&[a.clone()]);
            let auth: Vec<String> = a.keys.iter().filter(|k| k.auth).map(|k| k.kid.clone()).collect();
            for held in 0..8u8 {
                let sec: Vec<Secret> = a.secrets().into_iter().enumerate().filter(|(i, _)| held >> i & 1 == 1).map(|x| x.1).collect();
                let net = Net::new(&docs, &sec);
                let has = |k: &String| sec.iter().any(|s| &s.id == k);
                let msg = simple(Some(&a.did), None, "roles");
                for by in [a.did.clone(), a.kid("k0"), a.kid("k1"), a.kid("k2")] {
                    let want = if by == a.did { auth.iter().find(|k| has(k)).cloned() } else { Some(by.clone()).filter(|k| auth.contains(k) && has(k)) };
                    let what = format!("{roles:?}-{held}-{}", by.len());
                    rec.eval(&(&roles, held, &by), true);
                    let got = block_on(msg.pack_signed(&by, &net, &net)).ok().map(|(t, md)| (md.sign_by_kid, open_jws(&t, &|k| a.keys.iter().find(|x| x.kid == k).map(|x| x.key.clone())).map(|r| r.0)));
                    rec.check(got == want.clone().map(|k| (k.clone(), Ok(k))), &what, || format!("{got:?}, expected {want:?}"));
                    let fp = FromPrior::build(a.did.clone(), ns("did:example:bob").into()).finalize();
                    let got = block_on(fp.pack((by != a.did).then_some(by.as_str()), &net, &net)).ok().map(|r| r.1);
                    rec.check(got == want, &what, || format!("token by {got:?}, expected {want:?}"));
                }
            }
        }
    });
}

pub fn c04_roles(p: &mut Plan) {
    p.case("roles", |rec| {
        for roles in all_roles() {
            let a = listed("alice", KT::P256, &roles);
            let net = Net::new(&docs_of(&[a.clone()]), &[]);
            let msg = ref_json(&simple(Some(&a.did), None, "roles")).to_string();
            for i in 0..3 {
                for j in 0..3 {
                    let (k, s) = (&a.keys[i], &a.keys[j]);
                    rec.eval(&(&roles, i, j), true);
                    let r = block_on(unpack(&ref_sign(&s.key, &k.kid, msg.as_bytes()).to_string(), &net));
                    let ok = k.auth && i == j;
                    rec.check(r.is_ok() == ok, format!("{roles:?}-{i}-{j}"), || format!("key {j} as {i} of roles {roles:?}: {}", r.is_ok()));
                }
            }
        }
    });
}

pub fn c06_roles(p: &mut Plan) {
    p.case("roles", |rec| {
        let bob = listed("bob", KT::P256, &[1, 1]);
        for roles in all_roles() {
            let a = listed("alice", KT::P256, &roles);
            let docs = docs_of(&[a.clone(), bob.clone()]);
            let ka: Vec<String> = a.keys.iter().filter(|k| k.ka).map(|k| k.kid.clone()).collect();
            for held in 0..8u8 {
                let mut sec: Vec<Secret> = a.secrets().into_iter().enumerate().filter(|(i, _)| held >> i & 1 == 1).map(|x| x.1).collect();
                let has = |k: &String| sec.iter().any(|s| &s.id == k);
                let wants: Vec<(String, Option<String>, Vec<String>)> = [a.did.clone(), a.kid("k0"), a.kid("k1"), a.kid("k2")]
                    .into_iter()
                    .map(|by| {
                        let from = if by == a.did { ka.iter().find(|k| has(k)).cloned() } else { Some(by.clone()).filter(|k| ka.contains(k) && has(k)) };
                        let to = if by == a.did { ka.clone() } else { ka.iter().filter(|k| **k == by).cloned().collect() };
                        (by, from, to)
                    })
                    .collect();
                sec.extend(bob.secrets());
                let net = Net::new(&docs, &sec);
                let msg = simple(None, None, "roles");
                for (by, from, to) in wants {
                    let what = format!("{roles:?}-{held}-{}", by.len());
                    rec.eval(&(&roles, held, &by), true);
                    let got = block_on(Mode::enc(&bob.did, Some(&by), None, false, &AnonCryptAlg::default()).pack(&msg, &net)).ok().and_then(|r| r.1.unwrap().from_kid);
                    rec.check(got == from, &what, || format!("from {got:?}, expected {from:?}"));
                    for sender in [None, Some(bob.did.as_str())] {
                        let got = block_on(Mode::enc(&by, sender, None, false, &AnonCryptAlg::default()).pack(&msg, &net)).ok().map(|r| r.1.unwrap().to_kids).unwrap_or_default();
                        rec.check(got == to, &what, || format!("to {got:?}, expected {to:?}"));
                    }
                }
            }
        }
    });
}

pub fn c23_roles(p: &mut Plan) {
    p.case("roles", |rec| {
        let bob = listed("bob", KT::P256, &[1, 3]);
        for roles in all_roles() {
            let a = listed("alice", KT::P256, &roles);
            let net = Net::new(&docs_of(&[a.clone(), bob.clone()]), &bob.secrets());
            let msg = ref_json(&simple(None, None, "roles")).to_string();
            for i in 0..3 {
                let k = &a.keys[i];
                let to: Vec<(&str, &Key)> = bob.keys.iter().map(|k| (k.kid.as_str(), &k.key)).collect();
                let t = Seal::new("roles", "A256CBC-HS512", Some((&k.kid, &k.key)), &to, msg.as_bytes()).build().to_string();
                rec.eval(&(&roles, i), true);
                let r = block_on(unpack(&t, &net));
                rec.check(r.is_ok() == k.ka, format!("{roles:?}-{i}"), || format!("key {i} of roles {roles:?}: {}", r.is_ok()));
            }
        }
    });
}

pub fn c08_roles(p: &mut Plan) {
    p.case("roles", |rec| {
        for roles in all_roles() {
            let a = listed("alice", KT::P256, &roles);
            let net = Net::new(&docs_of(&[a.clone()]), &[]);
            for i in 0..3 {
                for j in 0..3 {
                    let (k, s) = (&a.keys[i], &a.keys[j]);
                    rec.eval(&(&roles, i, j), true);
                    let t = ref_jwt(&s.key, &json!({"typ": "JWT", "alg": "ES256", "kid": k.kid}), &json!({"iss": a.did, "sub": ns("did:example:bob")}));
                    let r = block_on(FromPrior::unpack(&t, &net));
                    rec.check(r.is_ok() == (k.auth && i == j), format!("{roles:?}-{i}-{j}"), || format!("key {j} as {i} of roles {roles:?}: {}", r.is_ok()));
                }
            }
        }
    });
}

/// Envelopes for nobody, whose recipient-list hash is right.
pub fn c11_nobody(p: &mut Plan) {
    p.case("nobody", |rec| {
        for kt in [KT::X25519, KT::P256] {
            let (a, b) = (Party::new(ns("did:example:alice")).ka("k", kt), Party::new(ns("did:example:bob")).ka("k", kt));
            let net = Net::new(&docs_of(&[a.clone(), b.clone()]), &[a.secrets(), b.secrets()].concat());
            for auth in [false, true] {
                for enc in ENC_ALGS {
                    for all in [false, true] {
                        let mut s = Seal::new("nobody", enc, auth.then_some((a.keys[0].kid.as_str(), &a.keys[0].key)), &[(&b.keys[0].kid, &b.keys[0].key)], b"{}");
                        for apv in [vec![], vec![""], vec!["."]] {
                            s.apv = Some(apv_of(&apv).to_vec());
                            let mut v = s.build();
                            v["recipients"] = json!([]);
                            if apv.len() == 1 {
                                v["recipients"] = json!([{"header": {"kid": apv[0]}, "encrypted_key": ""}]);
                            }
                            let what = format!("{}-{auth}-{enc}-{all}-{apv:?}", kt.crv());
                            rec.eval(&what, true);
                            rec.begin(&what);
                            match rec.guarded(|| block_on(unpack_with(&v.to_string(), &net, all, true))) {
                                Ok(Ok(_)) => rec.fail(&what, "accepted"),
                                Ok(Err(e)) => {
                                    rec.check(e.kind() == E::Malformed, &what, || e.to_string());
                                }
                                Err(p) => rec.fail(&what, format!("panic: {p}")),
                            }
                        }
                    }
                }
            }
        }
    });
}

/// Fragments whose order differs by whichever comparison one uses: by bytes, ignoring case, by length, as numbers,
/// by alphabet, from the end.
const ORDERED: [&str; 10] = ["a", "B", "k10", "k9", "é", "~", "A-1", "a.1", "10", "9"];

fn orders(full: bool) -> Vec<Vec<usize>> {
    let n = ORDERED.len();
    let mut v = vec![];
    for i in 0..n {
        for j in 0..n {
            if i != j {
                v.push(vec![i, j]);
                for k in 0..n {
                    if k != i && k != j && (full || (i + j + k) % 4 == 0) {
                        v.push(vec![i, j, k]);
                    }
                }
            }
        }
    }
    for r in 0..n {
        v.push((0..n).map(|i| (i + r) % n).collect());
        v.push((0..n).map(|i| (n + r - i) % n).collect());
    }
    v
}
fn ordered(name: &str, kt: KT, l: &[usize]) -> Party {
    let mut p = Party::new(&nm(&format!("did:example:{name}")));
    for i in l {
        p = p.ka(ORDERED[*i], kt);
    }
    p
}

/// the recipient hash is over the ids in byte order, whatever order the envelope has them in
pub fn c17_order(p: &mut Plan, full: bool) {
    for kt in [KT::X25519, KT::P256] {
        p.case(format!("order/{}", kt.crv()), move |rec| {
            let alice = ordered("alice", kt, &[0]);
            for l in orders(full) {
                let bob = ordered("bob", kt, &l);
                let docs = docs_of(&[alice.clone(), bob.clone()]);
                let msg = simple(Some(&alice.did), None, "order");
                let to: Vec<(&str, &Key)> = bob.keys.iter().map(|k| (k.kid.as_str(), &k.key)).collect();
                let kids: Vec<String> = bob.keys.iter().map(|k| k.kid.clone()).collect();
                for auth in [false, true] {
                    let from = auth.then(|| (alice.keys[0].kid.as_str(), &alice.keys[0].key));
                    let t = Seal::new("order", "A256CBC-HS512", from, &to, ref_json(&msg).to_string().as_bytes()).build().to_string();
                    rec.eval(&(&l, auth), true);
                    match block_on(unpack(&t, &Net::new(&docs, &bob.secrets()))) {
                        Ok((m, md)) => rec.check(m == msg && md.encrypted_to_kids.as_ref() == Some(&kids), format!("{l:?}"), || format!("{:?}", md.encrypted_to_kids)),
                        Err(e) => rec.check(false, format!("{l:?}"), || format!("recipients {kids:?}: {e}")),
                    };
                }
            }
        });
    }
}

pub fn c16_order(p: &mut Plan, full: bool) {
    for kt in [KT::X25519, KT::P256] {
        p.case(format!("order/{}", kt.crv()), move |rec| {
            let alice = ordered("alice", kt, &[0]);
            for l in orders(full) {
                let bob = ordered("bob", kt, &l);
                let world = [alice.clone(), bob.clone()];
                let sn = Net::new(&docs_of(&world), &alice.secrets());
                let msg = simple(Some(&alice.did), Some(&bob.did), "order");
                for m in [Mode::enc(&bob.did, None, None, false, &AnonCryptAlg::default()), Mode::enc(&bob.did, Some(&alice.did), None, false, &AnonCryptAlg::default())] {
                    rec.eval(&(&l, m.name()), true);
                    let r = block_on(m.pack(&msg, &sn)).map_err(|e| e.to_string()).and_then(|(t, _)| peel(&t, &bob, &world, 0));
                    match r {
                        Ok(pl) => rec.check(pl.plain == ref_json(&msg), format!("{l:?}"), || "another plaintext".into()),
                        Err(e) => rec.check(false, format!("{l:?}"), || e),
                    };
                }
            }
        });
    }
}

/// hashes over the right ids in a wrong order
pub fn c23_order(p: &mut Plan, full: bool) {
    for kt in [KT::X25519, KT::P256] {
        p.case(format!("order/{}", kt.crv()), move |rec| {
            let alice = ordered("alice", kt, &[0]);
            for l in orders(full) {
                let bob = ordered("bob", kt, &l);
                let docs = docs_of(&[alice.clone(), bob.clone()]);
                let text = ref_json(&simple(Some(&alice.did), None, "order")).to_string();
                let to: Vec<(&str, &Key)> = bob.keys.iter().map(|k| (k.kid.as_str(), &k.key)).collect();
                let kids: Vec<String> = bob.keys.iter().map(|k| k.kid.clone()).collect();
                let hash = |k: &[String], sep: &str| sha256(k.join(sep).as_bytes());
                let sorted = {
                    let mut k = kids.clone();
                    k.sort();
                    k
                };
                let by = |f: &dyn Fn(&String) -> String| {
                    let mut k = kids.clone();
                    k.sort_by_key(|x| f(x));
                    k
                };
                let good = hash(&sorted, ".");
                let mut rev = sorted.clone();
                rev.reverse();
                let nokey: Vec<String> = sorted.iter().map(|k| k.split('#').nth(1).unwrap_or("").to_string()).collect();
                let upper: Vec<String> = sorted.iter().map(|k| k.to_uppercase()).collect();
                let cases = [
                    ("good", good),
                    ("as listed", hash(&kids, ".")),
                    ("reversed", hash(&rev, ".")),
                    ("ignoring case", hash(&by(&|k| k.to_lowercase()), ".")),
                    ("by length", hash(&by(&|k| format!("{:05}{k}", k.len())), ".")),
                    ("from the end", hash(&by(&|k| k.chars().rev().collect()), ".")),
                    ("no separator", hash(&sorted, "")),
                    ("comma", hash(&sorted, ",")),
                    ("fragments", hash(&nokey, ".")),
                    ("upper case", hash(&upper, ".")),
                    ("first", hash(&sorted[..1], ".")),
                    ("last", hash(&sorted[sorted.len() - 1..], ".")),
                ];
                for auth in [false, true] {
                    for (name, h) in &cases {
                        let from = auth.then(|| (alice.keys[0].kid.as_str(), &alice.keys[0].key));
                        let mut s = Seal::new("order", "A256CBC-HS512", from, &to, text.as_bytes());
                        s.apv = Some(h.to_vec());
                        let ok = *h == good;
                        rec.eval(&(&l, auth, name), true);
                        match block_on(unpack(&s.build().to_string(), &Net::new(&docs, &bob.secrets()))) {
                            Ok(_) => rec.check(ok, *name, || format!("accepted with the hash over {kids:?} {name}")),
                            Err(e) => rec.check(!ok && e.kind() == E::Malformed, *name, || format!("{kids:?}: {e}")),
                        };
                    }
                }
            }
        });
    }
}
