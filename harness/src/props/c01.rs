//! C01: unpack(pack(m)) == m over modes x algorithms x key types/encodings x message shapes.
use crate::engine::{Env, Plan, Rec};
use crate::keys::{can, ENCS, KT};
use crate::msgs::*;
use crate::world::*;
use didcomm::{FromPrior, Message};
use serde_json::{json, Value};

/// pack, unpack with the recipient's view, compare.
fn trip(rec: &mut Rec, sub: &str, mode: &Mode, m: &Message, sender: &Net, recipient: &Net, all_keys: bool) {
    rec.begin(sub);
    let r = rec.guarded(|| {
        block_on(async {
            let before = m.clone();
            let (packed, _) = mode.pack(m, sender).await.map_err(|e| format!("pack failed: {e}"))?;
            let (got, md) =
                unpack_with(&packed, recipient, all_keys, true).await.map_err(|e| format!("unpack failed: {e}"))?;
            if &before != m {
                return Err("packing changed its input".into());
            }
            if &got != m {
                return Err(format!("message differs: sent {m:?} got {got:?}"));
            }
            if md.re_wrapped_in_forward {
                return Err("claims to be re-wrapped in forward".to_string());
            }
            Ok(packed)
        })
    });
    rec.eval(&(sub, mode.name()), true);
    match r {
        Ok(Ok(p)) => {
            rec.outcome("ok");
            rec.sample(|| json!({"mode": mode.name(), "id": m.id, "packed_len": p.len(), "packed_head": &p[..p.len().min(90)]}));
        }
        Ok(Err(e)) => {
            rec.outcome("fail");
            rec.fail(sub, e)
        }
        Err(p) => rec.fail(sub, format!("panic: {p}")),
    }
}

pub fn modes(alice: &Party, bob: &Party, full: bool) -> Vec<Mode> {
    let mut v = vec![Mode::plain()];
    let signers: Vec<String> = if full {
        std::iter::once(alice.did.clone())
            .chain(alice.keys.iter().filter(|k| k.auth).map(|k| k.kid.clone()))
            .collect()
    } else {
        vec![alice.did.clone(), alice.kid("s1"), alice.kid("k1")]
    };
    for s in &signers {
        v.push(Mode::signed(s));
    }
    let tos: Vec<String> = std::iter::once(bob.did.clone())
        .chain(bob.keys.iter().filter(|k| k.ka).map(|k| k.kid.clone()))
        .collect();
    for to in &tos {
        for a in &ANON {
            let mut froms = vec![(None, false)];
            if to == &bob.did {
                froms.push((Some(alice.did.clone()), false));
                froms.push((Some(alice.did.clone()), true));
                for k in alice.keys.iter().filter(|k| k.ka) {
                    froms.push((Some(k.kid.clone()), false));
                    froms.push((Some(k.kid.clone()), true));
                }
            } else {
                let kt = bob.keys.iter().find(|k| &k.kid == to).unwrap().key.kt;
                froms.push((Some(alice.did.clone()), true));
                for k in alice.keys.iter().filter(|k| k.ka && k.key.kt == kt) {
                    froms.push((Some(k.kid.clone()), false));
                    if full {
                        froms.push((Some(k.kid.clone()), true));
                    }
                }
            }
            for (from, protect) in froms {
                if from.is_some() && !protect && a != &ANON[0] {
                    continue; // the anonymous algorithm is not used
                }
                for s in std::iter::once(None).chain(signers.iter().map(Some)) {
                    if !full && s.is_some() && to != &bob.did && s != Some(&signers[0]) {
                        continue;
                    }
                    v.push(Mode::enc(to, from.as_deref(), s.map(|s| s.as_str()), protect, a));
                }
            }
        }
    }
    v
}

/// Encryption modes with forwarding enabled, under every delivery environment (see `Via`), addressed
/// by DID or one key id of each type (`full`: every key id).
pub fn modes_via(alice: &Party, bob: &Party, full: bool) -> Vec<Mode> {
    let mut v = vec![];
    for m in &modes(alice, bob, full) {
        let Some(to) = &m.to else { continue };
        let firsts = [KT::X25519, KT::P256].map(|t| bob.ka_kids(t).first().cloned());
        if to.contains('#') && !full && !firsts.contains(&Some(to.clone())) {
            continue;
        }
        v.extend(VIAS.iter().map(|x| m.via(*x)));
    }
    v
}

pub fn plan(env: &Env) -> Plan {
    let mut p = Plan::new(
        "C01",
        "exploration",
        "every combination of packing mode (plain/signed/anon/auth, signature, sender protection), content algorithm, \
         signing key, recipient and sender given as DID or as each key id, against every message shape of the alphabet; \
         an evaluation is one pack on the sender's view plus one unpack on the recipient's view, non-trivial when the \
         pack produced an envelope and the result was compared field by field",
    );
    p.namings = 4;
    p.bounds = json!({"shape_masks": 256, "bodies": bodies().len(), "lengths": if env.thorough() {"0..=600 + 4k/64k edges"} else {"0..=70 + edges"}});
    p.assumptions = vec![
        "askar-crypto is the offline stand-in (validated by the 164 upstream unit tests)".into(),
        "JSON nesting stays below serde_json's recursion limit of 128".into(),
    ];
    let alice = rich("alice");
    let bob = rich("bob");
    // Bob with P-256 first, so that DID addressing picks P-256
    let bobp = Party::new(ns("did:example:bobp")).ka("p1", KT::P256).ka("p2", KT::P256).ka("x1", KT::X25519).auth("e1", KT::Ed25519);
    let full = env.thorough();

    // 1. all modes x a handful of shapes
    for (bn, b) in [("bob", bob.clone()), ("bobp", bobp.clone())] {
        for m in [modes(&alice, &b, true), modes_via(&alice, &b, full)].concat() {
            let (alice, b) = (alice.clone(), b.clone());
            p.case(format!("modes/{bn}/{}", m.name()), move |rec| {
                let docs = docs_of(&[alice.clone(), b.clone()]);
                let sn = Net::new(&docs, &alice.secrets());
                let rn = Net::new(&docs, &b.secrets());
                for (i, mask) in [0u32, 255, 0b0000_0011].iter().enumerate() {
                    let msg = shape(*mask, &alice.did, &[&b.did, ns("did:example:other")], json!({"i": i, "s": "h\u{e9}llo"}));
                    trip(rec, &format!("mask{mask}"), &m, &msg, &sn, &rn, i == 1);
                }
            });
        }
    }
    // 2. every presence subset x reduced modes
    let reduced: Vec<Mode> = vec![
        Mode::plain(),
        Mode::signed(&alice.did),
        Mode::enc(&bob.did, None, None, false, &ANON[1]),
        Mode::enc(&bob.did, Some(&alice.did), None, false, &ANON[0]),
        Mode::enc(&bob.did, Some(&alice.did), Some(&alice.did), true, &ANON[2]),
    ];
    for m in &reduced {
        for hi in 0..16u32 {
            let (alice, bob, m) = (alice.clone(), bob.clone(), m.clone());
            p.case(format!("shapes/{}/{hi}", m.name()), move |rec| {
                let docs = docs_of(&[alice.clone(), bob.clone()]);
                let sn = Net::new(&docs, &alice.secrets());
                let rn = Net::new(&docs, &bob.secrets());
                for lo in 0..16u32 {
                    let mask = hi << 4 | lo;
                    let msg = shape(mask, &alice.did, &[ns("did:example:zed"), &bob.did], json!({"mask": mask}));
                    trip(rec, &format!("mask{mask}"), &m, &msg, &sn, &rn, false);
                }
            });
        }
        // bodies
        for (i, b) in bodies().into_iter().enumerate() {
            let (alice, bob, m) = (alice.clone(), bob.clone(), m.clone());
            p.case(format!("body{i}/{}", m.name()), move |rec| {
                let docs = docs_of(&[alice.clone(), bob.clone()]);
                let sn = Net::new(&docs, &alice.secrets());
                let rn = Net::new(&docs, &bob.secrets());
                for mask in [0u32, 0b1100_0011] {
                    let msg = shape(mask, &alice.did, &[&bob.did], b.clone());
                    trip(rec, &format!("mask{mask}"), &m, &msg, &sn, &rn, false);
                }
            });
        }
    }
    // 2b. edge values of every member, alone and in pairs, on the minimal and on a full message
    for m in &reduced {
        for (i, e) in EDGES.iter().enumerate() {
            let (alice, bob, m) = (alice.clone(), bob.clone(), m.clone());
            p.case(format!("edge/{}/{}", e.0, m.name()), move |rec| {
                let docs = docs_of(&[alice.clone(), bob.clone()]);
                let sn = Net::new(&docs, &alice.secrets());
                let rn = Net::new(&docs, &bob.secrets());
                for mask in [0u32, 0b1011_1111] {
                    for f in EDGES[i..].iter().filter(|f| f.0 == e.0 || f.1 != e.1) {
                        let mut msg = shape(mask, &alice.did, &[&bob.did], json!({}));
                        (e.2)(&mut msg);
                        (f.2)(&mut msg);
                        // addressing that contradicts the request is rightly refused (C18)
                        let to_ok = msg.to.as_ref().map_or(true, |t| t.contains(&bob.did));
                        let from_ok = msg.from.is_none() || m.from.is_none() || msg.from == m.from;
                        if m.to.is_some() && !(to_ok && from_ok) {
                            continue;
                        }
                        trip(rec, &format!("mask{mask}-{}", f.0), &m, &msg, &sn, &rn, false);
                    }
                }
            });
        }
    }
    // 2c. every value of every member
    if full || naming() == 0 {
        crate::vals::c01(&mut p, &reduced, trip);
    }
    // 3. payload lengths around every block boundary, all content algorithms
    let mut lens: Vec<usize> = (0..if full { 601 } else { 71 }).collect();
    lens.extend([127, 128, 255, 256, 1023, 1024, 1025, 4095, 4096, 65535, 65536, 65537]);
    lens.extend([(1 << 20) - 200, (1 << 20) + 1]);
    if full {
        lens.extend([1 << 20, (1 << 21) + 1, (1 << 24) + 1]);
    }
    let lm: Vec<Mode> = ANON
        .iter()
        .map(|a| Mode::enc(&bob.did, None, None, false, a))
        .chain([Mode::enc(&bob.did, Some(&alice.did), None, false, &ANON[0]), Mode::enc(&bob.kid("p1"), Some(&alice.did), Some(&alice.kid("k1")), true, &ANON[2]), Mode::plain(), Mode::signed(&alice.did)])
        .collect();
    for m in lm {
        for chunk in lens.chunks(8) {
            let (alice, bob, m, chunk) = (alice.clone(), bob.clone(), m.clone(), chunk.to_vec());
            p.case(format!("len{}-{}/{}", chunk[0], chunk[chunk.len() - 1], m.name()), move |rec| {
                let docs = docs_of(&[alice.clone(), bob.clone()]);
                let sn = Net::new(&docs, &alice.secrets());
                let rn = Net::new(&docs, &bob.secrets());
                for n in &chunk {
                    let s: String = (0..*n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
                    let msg = shape(3, &alice.did, &[&bob.did], json!(s));
                    trip(rec, &format!("n{n}"), &m, &msg, &sn, &rn, false);
                }
            });
        }
    }
    // 4. sender/recipient key encodings crossed; ids with unusual characters
    for ea in ENCS {
        for eb in ENCS {
            for es in ENCS {
                for kt in [KT::X25519, KT::P256] {
                    if !can(kt, ea) || !can(kt, eb) {
                        continue;
                    }
                    let key = format!("enc/{ea:?}-{eb:?}-{es:?}-{kt:?}");
                    p.case(key, move |rec| {
                        let a = Party::new("did:example:a:b%20c;x=y")
                            .key("k/é?1", kt, ea, true, false)
                            .key("sig", KT::Ed25519, es, false, true);
                        let b = Party::new("did:web:example.org%3A8080:path").key("1", kt, eb, true, false);
                        let docs = docs_of(&[a.clone(), b.clone()]);
                        let (sn, rn) = (Net::new(&docs, &a.secrets()), Net::new(&docs, &b.secrets()));
                        for al in &ANON {
                            for (from, sign, protect) in [
                                (None, None, false),
                                (Some(a.did.as_str()), None, false),
                                (Some(a.did.as_str()), Some(a.did.as_str()), true),
                                (None, Some(a.did.as_str()), false),
                            ] {
                                let m = Mode::enc(&b.did, from, sign, protect, al);
                                let msg = shape(3, &a.did, &[&b.did], json!({"x": 1}));
                                trip(rec, &m.name(), &m, &msg, &sn, &rn, true);
                            }
                        }
                    });
                }
            }
        }
    }
    // 5. from_prior carried through every mode
    for m in [modes(&alice, &bob, false), modes_via(&alice, &bob, false)].concat() {
        let (alice, bob) = (alice.clone(), bob.clone());
        p.case(format!("from_prior/{}", m.name()), move |rec| {
            let old = Party::new(ns("did:example:old")).auth("e1", KT::Ed25519).auth("s1", KT::P256).auth("k1", KT::K256);
            let docs = docs_of(&[alice.clone(), bob.clone(), old.clone()]);
            let sn = Net::new(&docs, &[alice.secrets(), old.secrets()].concat());
            let rn = Net::new(&docs, &bob.secrets());
            for frag in ["e1", "s1", "k1"] {
                let fp = FromPrior::build(old.did.clone(), alice.did.clone()).aud("aud".into()).iat(1).exp(u64::MAX).finalize();
                let kid = old.kid(frag);
                let (jwt, used) = match block_on(fp.pack(Some(&kid), &sn, &sn)) {
                    Ok(x) => x,
                    Err(e) => return rec.fail(frag, format!("from_prior pack failed: {e}")),
                };
                rec.check(used == kid, frag, || format!("signed by {used}"));
                let msg = shape_builder(3, &alice.did, &[&bob.did], json!({})).from_prior(jwt).finalize();
                trip(rec, frag, &m, &msg, &sn, &rn, false);
                // the unpacked token is reported
                let r = block_on(async {
                    let (s, _) = m.pack(&msg, &sn).await.map_err(|e| e.to_string())?;
                    unpack(&s, &rn).await.map_err(|e| e.to_string())
                });
                if let Ok((_, md)) = r {
                    rec.check(
                        md.from_prior.as_ref() == Some(&fp) && md.from_prior_issuer_kid.as_deref() == Some(kid.as_str()),
                        frag,
                        || format!("from_prior metadata {:?} {:?}", md.from_prior, md.from_prior_issuer_kid),
                    );
                }
            }
        });
    }
    // 6. numbers
    let nums: Vec<Value> = vec![
        json!(0.1), json!(1.0), json!(123456789.123456789), json!(5e-324), json!(f64::MAX), json!(f64::MIN_POSITIVE),
        json!(2.2250738585072011e-308), json!(0.30000000000000004), json!(1.7976931348623155e308), json!(9.5367431640625e-7),
        json!(3.0540412e5), json!(8.98846567431158e307), json!(4.35e-7), json!(1e23), json!(9007199254740993.0),
        json!(6.02214076e23), json!(-1.6021766208e-19), json!(1.0e-310),
    ];
    for (i, n) in nums.into_iter().enumerate() {
        p.case(format!("number/{n}-{i}"), move |rec| {
            let (alice, bob) = (rich("alice"), rich("bob"));
            let docs = docs_of(&[alice.clone(), bob.clone()]);
            let (sn, rn) = (Net::new(&docs, &alice.secrets()), Net::new(&docs, &bob.secrets()));
            for m in [Mode::plain(), Mode::enc(&bob.did, Some(&alice.did), None, false, &ANON[0])] {
                let msg = shape(0, &alice.did, &[&bob.did], json!({ "n": n }));
                trip(rec, "", &m, &msg, &sn, &rn, false);
            }
        });
    }
    // 7. extra headers that carry a reserved name
    for h in ["id", "typ", "type", "body", "from", "to", "thid", "pthid", "created_time", "expires_time", "from_prior", "attachments"] {
        p.case(format!("reserved-header/{h}"), move |rec| {
            let (alice, bob) = (rich("alice"), rich("bob"));
            let docs = docs_of(&[alice.clone(), bob.clone()]);
            let (sn, rn) = (Net::new(&docs, &alice.secrets()), Net::new(&docs, &bob.secrets()));
            let m = Message::build("i".into(), "t".into(), json!({})).header(h.into(), json!("v")).finalize();
            // Refusing to pack such a message would be fine; packing it into something else is not.
            let mode = Mode::plain();
            if block_on(mode.pack(&m, &sn)).is_ok() {
                trip(rec, "", &mode, &m, &sn, &rn, false);
            }
        });
    }
    crate::many::c01(&mut p, env.thorough());
    p
}
