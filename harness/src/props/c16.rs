//! C16: everything the library puts on the wire opens and verifies under an independent
//! implementation of the DIDComm v2 envelope rules, and is written exactly as those rules say.
use crate::engine::{Env, Plan, Rec};
use crate::keys::{Enc, ENCS, KT};
use crate::layers::*;
use crate::msgs::*;
use crate::onion::peel_onion;
use crate::refjose::*;
use crate::world::*;
use didcomm::{FromPrior, Message};
use serde::de::{Deserializer, MapAccess, SeqAccess, Visitor};
use serde::Deserialize;
use serde_json::{json, Map, Value};
use std::collections::HashSet;

/// JSON that has no object with a repeated member name.
struct NoDup;
impl<'de> Deserialize<'de> for NoDup {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = NoDup;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("JSON")
            }
            fn visit_bool<E>(self, _: bool) -> Result<NoDup, E> {
                Ok(NoDup)
            }
            fn visit_u64<E>(self, _: u64) -> Result<NoDup, E> {
                Ok(NoDup)
            }
            fn visit_i64<E>(self, _: i64) -> Result<NoDup, E> {
                Ok(NoDup)
            }
            fn visit_f64<E>(self, _: f64) -> Result<NoDup, E> {
                Ok(NoDup)
            }
            fn visit_str<E>(self, _: &str) -> Result<NoDup, E> {
                Ok(NoDup)
            }
            fn visit_unit<E>(self) -> Result<NoDup, E> {
                Ok(NoDup)
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<NoDup, A::Error> {
                while a.next_element::<NoDup>()?.is_some() {}
                Ok(NoDup)
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<NoDup, A::Error> {
                let mut seen = HashSet::new();
                while let Some(k) = a.next_key::<String>()? {
                    if !seen.insert(k.clone()) {
                        return Err(serde::de::Error::custom(format!("member {k} repeated")));
                    }
                    a.next_value::<NoDup>()?;
                }
                Ok(NoDup)
            }
        }
        d.deserialize_any(V)
    }
}
fn no_dup(text: &str) -> Result<(), String> {
    serde_json::from_str::<NoDup>(text).map(|_| ()).map_err(|e| e.to_string())
}

/// Values that must never repeat across envelopes and layers.
#[derive(Default)]
struct Fresh(HashSet<Vec<u8>>);
impl Fresh {
    fn add(&mut self, o: &Opened) -> Result<(), String> {
        for (n, v) in [("iv", o.iv.clone()), ("content key", o.cek.clone()), ("ephemeral key", o.epk["x"].as_str().unwrap_or("").into())] {
            if v.iter().all(|b| *b == 0) {
                return Err(format!("{n} is all zero"));
            }
            let mut t = n.as_bytes().to_vec();
            t.extend(v);
            if !self.0.insert(t) {
                return Err(format!("{n} repeats"));
            }
        }
        Ok(())
    }
}

/// The layers a mode must produce.
fn want_layers(m: &Mode) -> Vec<&'static str> {
    let mut v = vec![];
    if m.has_anon_layer() {
        v.push("anon");
    }
    if m.to.is_some() && m.from.is_some() {
        v.push("auth");
    }
    if m.sign_by.is_some() {
        v.push("sign");
    }
    v
}

fn examine(text: &str, m: &Mode, msg: &Message, who: &Party, world: &[Party], fresh: &mut Fresh) -> Result<Value, String> {
    let n = who.keys.iter().filter(|k| k.ka).count().max(1);
    let mut first: Option<Peeled> = None;
    for pick in 0..n {
        let p = peel(text, who, world, pick).map_err(|e| format!("recipient {pick}: {e}"))?;
        match &first {
            None => {
                for o in &p.opened {
                    fresh.add(o)?;
                    no_dup(&o.protected.to_string())?;
                }
                for t in &p.texts {
                    no_dup(t)?;
                }
                first = Some(p)
            }
            Some(f) => {
                if f.texts != p.texts {
                    return Err(format!("recipient {pick} reads something else"));
                }
            }
        }
    }
    let p = first.unwrap();
    let kinds: Vec<&str> = p
        .layers
        .iter()
        .map(|l| match l {
            Layer::Anon { .. } => "anon",
            Layer::Auth { .. } => "auth",
            Layer::Sign { .. } => "sign",
            Layer::Fwd { .. } => "fwd",
        })
        .collect();
    if kinds != want_layers(m) {
        return Err(format!("layers {kinds:?}, expected {:?}", want_layers(m)));
    }
    for l in &p.layers {
        if let Layer::Anon { enc, .. } = l {
            if *enc != anon_enc_name(&m.anon) {
                return Err(format!("anonymous layer uses {enc}"));
            }
        }
    }
    if p.plain != ref_json(msg) {
        return Err(format!("content {} expected {}", p.plain, ref_json(msg)));
    }
    // every protected header is what was encoded, once (duplicates would hide from Value)
    let mut cur = text.to_string();
    for (i, _) in p.layers.iter().enumerate() {
        let v: Value = serde_json::from_str(&cur).map_err(|e| e.to_string())?;
        let prot = v.get("protected").or_else(|| v["signatures"][0].get("protected")).and_then(|x| x.as_str()).ok_or("protected")?;
        let raw = b64u_dec(prot).ok_or("protected")?;
        no_dup(std::str::from_utf8(&raw).map_err(|_| "protected not UTF-8")?)?;
        cur = p.texts[p.texts.len() - 2 - i].clone();
    }
    Ok(json!({"mode": m.name(), "layers": p.layers.iter().map(|l| l.name()).collect::<Vec<_>>(), "length": text.len()}))
}

fn pack_check(rec: &mut Rec, what: &str, m: &Mode, msg: &Message, net: &Net, who: &Party, world: &[Party], fresh: &mut Fresh) {
    rec.begin(what);
    let r = rec.guarded(|| block_on(m.pack(msg, net)).map_err(|e| format!("pack: {e}")));
    rec.eval(&(what, m.name()), true);
    match r {
        Err(p) => rec.fail(what, format!("panic: {p}")),
        Ok(Err(e)) => rec.fail(what, e),
        Ok(Ok((t, _))) => match examine(&t, m, msg, who, world, fresh) {
            Ok(v) => {
                rec.outcome(want_layers(m).join("("));
                rec.sample(|| v)
            }
            Err(e) => rec.fail(what, e),
        },
    }
}

/// A party with the given key agreement keys, and every kind of signing key.
fn party(name: &str, kts: &[(KT, Enc)]) -> Party {
    let mut p = Party::new(&nm(&format!("did:example:{name}")));
    for (i, (kt, e)) in kts.iter().enumerate() {
        p = p.key(&format!("a{i}"), *kt, *e, true, false);
    }
    for (i, e) in ENCS.iter().enumerate() {
        p = p.key(&format!("e{i}"), KT::Ed25519, *e, false, true);
    }
    p.key("s", KT::P256, Enc::Jwk, false, true).key("k", KT::K256, Enc::Jwk, false, true)
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C16",
        "exploration",
        "every packing mode x recipient key list (types, encodings, order, number) x algorithm x signer x message shape x \
         payload length: the produced text is opened layer by layer with the independent implementation, once per \
         recipient key, and must be exactly what the DIDComm v2 rules prescribe (members, media types, algorithm names, \
         apv/apu/skid, epk, lengths, unpadded base64url, no repeated members, single signature over the exact payload, \
         forward messages, rotation tokens), with unrepeated IV, content key and ephemeral key. Non-trivial: an envelope was \
         produced and opened",
    );
    p.namings = if full { 4 } else { 3 };
    p.assumptions = vec!["the primitives of the stand-in for askar-crypto are the standard ones (checked by upstream's test vectors)".into()];
    p.bounds = json!({"recipient_keys": if full {4} else {3}, "payload_lengths": if full {300} else {130}});

    // 1: every mode over the rich cast, several shapes
    let (alice, bob) = (rich("alice"), rich("bob"));
    for m in [super::c01::modes(&alice, &bob, full), super::c01::modes_via(&alice, &bob, full)].concat() {
        let (alice, bob) = (alice.clone(), bob.clone());
        p.case(format!("mode/{}", m.name()), move |rec| {
            let world = [alice.clone(), bob.clone()];
            let net = Net::new(&docs_of(&world), &alice.secrets());
            let mut fresh = Fresh::default();
            for mask in [0u32, 1, 2, 3, 0b100, 0b1000, 0b110000, 0b1000000, 0b10000000, 0xff] {
                let body = if mask == 0xff { bodies()[14].clone() } else { json!({"mask": mask}) };
                let msg = shape(mask, &alice.did, &[&bob.did], body);
                pack_check(rec, &format!("shape-{mask:02x}"), &m, &msg, &net, &bob, &world, &mut fresh);
            }
        });
    }
    // 2: recipient key lists
    let opts: Vec<(KT, Enc)> =
        vec![(KT::X25519, Enc::Jwk), (KT::X25519, Enc::B58), (KT::X25519, Enc::Mb), (KT::P256, Enc::Jwk)];
    let mut lists: Vec<Vec<(KT, Enc)>> = vec![vec![]];
    let mut all: Vec<Vec<(KT, Enc)>> = vec![];
    for _ in 0..if full { 4 } else { 3 } {
        lists = lists
            .iter()
            .flat_map(|l| {
                opts.iter().map(move |o| {
                    let mut n = l.clone();
                    n.push(*o);
                    n
                })
            })
            .collect();
        all.extend(lists.clone());
    }
    for l in all {
        let name: String = l.iter().map(|(k, e)| format!("{}{:?}", if *k == KT::P256 { "p" } else { "x" }, e).to_lowercase()).collect::<Vec<_>>().join("-");
        p.case(format!("keys/{name}"), move |rec| {
            let bob = party("bob", &l);
            let mut fresh = Fresh::default();
            for (i, ske) in ENCS.iter().enumerate() {
                // the sender has both curves, with each encoding
                let alice = party("alice", &[(KT::P256, Enc::Jwk), (KT::X25519, *ske)]);
                let world = [alice.clone(), bob.clone()];
                let net = Net::new(&docs_of(&world), &alice.secrets());
                let msg = simple(Some(&alice.did), Some(&bob.did), "x");
                for a in &ANON {
                    for (from, prot) in [(None, false), (Some(alice.did.as_str()), false), (Some(alice.did.as_str()), true)] {
                        if (from.is_none() && i > 0) || (!prot && from.is_some() && a != &ANON[0]) {
                            continue;
                        }
                        let m = Mode::enc(&bob.did, from, None, prot, a);
                        pack_check(rec, &format!("{}-{ske:?}-{prot}-{}", from.is_some(), anon_enc_name(a)), &m, &msg, &net, &bob, &world, &mut fresh);
                    }
                }
                // to each key by id
                for k in bob.keys.iter().filter(|k| k.ka) {
                    let m = Mode::enc(&k.kid, Some(&alice.did), Some(&alice.did), true, &ANON[i % ANON.len()]);
                    pack_check(rec, &format!("one-{}-{ske:?}", k.kid), &m, &msg, &net, &bob, &world, &mut fresh);
                }
            }
        });
    }
    // 3: payload lengths, across the block boundaries of every content cipher
    for (ai, a) in ANON.iter().enumerate() {
        let top = if full { 300 } else { 130 };
        p.case(format!("length/{}", anon_enc_name(a)), move |rec| {
            let (alice, bob) = (rich("alice"), rich("bob"));
            let world = [alice.clone(), bob.clone()];
            let net = Net::new(&docs_of(&world), &alice.secrets());
            let mut fresh = Fresh::default();
            let mut lens: Vec<usize> = (0..top).collect();
            lens.extend([1023, 1024, 4096, 65535, 65536, 70000]);
            for n in lens {
                let msg = Message::build("i".into(), "t".into(), json!("é".repeat(n / 2) + &"a".repeat(n % 2))).finalize();
                for m in [
                    Mode::enc(&bob.kid("x1"), None, None, false, &ANON[ai]),
                    Mode::enc(&bob.kid("p1"), Some(&alice.did), None, false, &ANON[ai]),
                    Mode::signed(&alice.did),
                ] {
                    pack_check(rec, &format!("len-{n}"), &m, &msg, &net, &bob, &world, &mut fresh);
                }
            }
        });
    }
    // 4: repeats share nothing (one process-wide random source, many envelopes)
    p.case("fresh", move |rec| {
        let (alice, bob) = (rich("alice"), rich("bob"));
        let world = [alice.clone(), bob.clone()];
        let net = Net::new(&docs_of(&world), &alice.secrets());
        let mut fresh = Fresh::default();
        let msg = simple(Some(&alice.did), Some(&bob.did), "same every time");
        let m: Vec<Mode> = ANON
            .iter()
            .flat_map(|a| {
                [
                    Mode::enc(&bob.did, None, None, false, a),
                    Mode::enc(&bob.did, Some(&alice.did), None, true, a),
                    Mode::enc(&bob.kid("p2"), Some(&alice.kid("p1")), Some(&alice.did), true, a),
                ]
            })
            .collect();
        for i in 0..if full { 200 } else { 40 } {
            for x in &m {
                pack_check(rec, &format!("round-{i}"), x, &msg, &net, &bob, &world, &mut fresh);
            }
        }
    });
    // 5: signed with every signer; the token formats
    for who in ["alice", "carol"] {
        p.case(format!("signers/{who}"), move |rec| {
            let alice = party(who, &[(KT::X25519, Enc::Jwk)]);
            let world = [alice.clone(), rich("bob")];
            let net = Net::new(&docs_of(&world), &alice.secrets());
            let look = lookup(&world);
            for k in std::iter::once(&alice.did).chain(alice.keys.iter().filter(|k| k.auth).map(|k| &k.kid)) {
                for (bi, body) in bodies().into_iter().enumerate() {
                    let what = format!("{k}-{bi}");
                    rec.eval(&what, true);
                    let msg = shape(0xff, &alice.did, &[ns("did:example:bob")], body);
                    match block_on(msg.pack_signed(k, &net, &net)) {
                        Err(e) => rec.fail(&what, e.to_string()),
                        Ok((t, md)) => match open_jws(&t, &|k| look(k)) {
                            Err(e) => rec.fail(&what, e),
                            Ok((kid, _, pl)) => {
                                let v: Option<Value> = serde_json::from_slice(&pl).ok();
                                rec.check(v == Some(ref_json(&msg)), &what, || format!("payload {v:?}"));
                                rec.check(no_dup(&t).is_ok() && no_dup(&String::from_utf8_lossy(&pl)).is_ok(), &what, || "repeated member".into());
                                rec.check(kid == md.sign_by_kid && (k == &alice.did || k == &kid), &what, || format!("signed by {kid}, reported {}", md.sign_by_kid));
                            }
                        },
                    }
                }
                // rotation tokens
                for (ci, (exp, iss_ext)) in [(None, false), (Some(0), false), (Some(u64::MAX), true)].into_iter().enumerate() {
                    let what = format!("{k}-jwt-{ci}");
                    rec.eval(&what, true);
                    let mut fp = FromPrior::build(alice.did.clone(), ns("did:example:bob").into());
                    let mut want = json!({"iss": alice.did, "sub": ns("did:example:bob")});
                    if let Some(e) = exp {
                        fp = fp.exp(e);
                        want["exp"] = json!(e);
                    }
                    if iss_ext {
                        fp = fp.aud("did:example:éé".into()).nbf(0).iat(1).jti("j\"".into());
                        want["aud"] = json!("did:example:éé");
                        want["nbf"] = json!(0);
                        want["iat"] = json!(1);
                        want["jti"] = json!("j\"");
                    }
                    let by = if k == &alice.did { None } else { Some(k.as_str()) };
                    match block_on(fp.finalize().pack(by, &net, &net)) {
                        Err(e) => rec.fail(&what, e.to_string()),
                        Ok((t, kid)) => match open_jwt(&t, &|k| look(k)) {
                            Err(e) => rec.fail(&what, e),
                            Ok((ek, c)) => {
                                rec.check(c == want, &what, || format!("claims {c}, expected {want}"));
                                rec.check(ek == kid && by.map_or(true, |b| b == ek), &what, || format!("kid {ek}"));
                            }
                        },
                    }
                }
            }
        });
    }
    // 6: forwards in front of every mode
    for m in super::c01::modes(&rich("alice"), &rich("bob"), false) {
        if m.to.is_none() || (!full && m.sign_by.as_deref().map_or(false, |s| s.contains('#'))) {
            continue;
        }
        p.case(format!("forward/{}", m.name()), move |rec| {
            for (ri, rk) in [vec![ns("did:example:m1#x1")], vec![ns("did:example:m1")], vec![ns("did:example:m1#p1"), ns("did:example:m2")]].into_iter().enumerate() {
                let rk: Vec<String> = rk.into_iter().map(|s| s.into()).collect();
                let alice = rich("alice");
                let bob = rich("bob").service(service(ns("did:example:bob#s"), "http://b", None, &rk));
                let world = [alice.clone(), bob.clone(), rich("m1"), rich("m2")];
                let net = Net::new(&docs_of(&world), &alice.secrets());
                let msg = simple(Some(&alice.did), Some(&bob.did), "fwd");
                let mut m = m.clone();
                m.forward = true;
                let what = format!("route-{ri}");
                rec.eval(&what, true);
                let mut fresh = Fresh::default();
                match block_on(m.pack(&msg, &net)) {
                    Err(e) => rec.fail(&what, e.to_string()),
                    Ok((t, _)) => {
                        match peel_onion(&t, &rk, m.to.as_ref().unwrap(), &Map::new(), anon_enc_name(&m.anon), &world) {
                            Err(e) => rec.fail(&what, e),
                            Ok((hops, inner)) => {
                                let look = lookup(&world);
                                for h in &hops {
                                    rec.check(no_dup(&h.sealed).is_ok() && no_dup(&h.plain).is_ok(), &what, || "repeated member".into());
                                    let v: Value = serde_json::from_str(&h.sealed).unwrap();
                                    let kid = v["recipients"][0]["header"]["kid"].as_str().unwrap();
                                    if let Err(e) = open_jwe(&h.sealed, kid, &look(kid).unwrap(), &|k| look(k)).and_then(|o| fresh.add(&o)) {
                                        rec.fail(&what, e)
                                    }
                                }
                                match examine(&inner, &m, &msg, &bob, &world, &mut fresh) {
                                    Ok(v) => rec.sample(|| v),
                                    Err(e) => rec.fail(&what, e),
                                }
                            }
                        }
                    }
                }
            }
        });
    }
    crate::many::c16(&mut p, env.thorough());
    crate::near::c16_order(&mut p, env.thorough());
    p
}
