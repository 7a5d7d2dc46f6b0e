//! C08: rotation tokens (from_prior).
use crate::engine::{Env, Plan, Rec};
use crate::keys::{Enc, KT};
use crate::layers::*;
use crate::msgs::*;
use crate::refjose::*;
use crate::world::*;
use didcomm::did::DIDDoc;
use didcomm::error::ErrorKind;
use didcomm::FromPrior;
use serde_json::{json, Value};

struct Ctx {
    ps: Vec<Party>,
    docs: Vec<DIDDoc>,
    net: Net,
}

fn ctx() -> Ctx {
    let alice = rich("alice")
        .key("ka-ed", KT::Ed25519, Enc::Jwk, true, false)
        .key("none-ed", KT::Ed25519, Enc::Jwk, false, false)
        .key("auth-x", KT::X25519, Enc::Jwk, false, true);
    let ps = vec![alice.clone(), rich("bob"), rich("mallory")];
    let mut docs = docs_of(&ps);
    // Mallory's document claims Alice's key ids for its own key material
    let m = &mut docs[2];
    for f in ["e1", "s1", "k1"] {
        m.authentication.push(alice.kid(f));
        m.verification_method.push(ps[2].get(f).key.vm(&alice.kid(f), Enc::Jwk));
    }
    docs[0].authentication.push(ns("did:example:alice#nomethod").into());
    docs[0].authentication.push(ps[1].kid("e1"));
    let net = Net::new(&docs, &ps.iter().flat_map(|p| p.secrets()).collect::<Vec<_>>());
    Ctx { ps, docs, net }
}

fn claims_of(f: &FromPrior) -> Value {
    let mut o = serde_json::Map::new();
    o.insert("iss".into(), json!(f.iss));
    o.insert("sub".into(), json!(f.sub));
    if let Some(x) = &f.aud {
        o.insert("aud".into(), json!(x));
    }
    for (k, v) in [("exp", f.exp), ("nbf", f.nbf), ("iat", f.iat)] {
        if let Some(v) = v {
            o.insert(k.into(), json!(v));
        }
    }
    if let Some(x) = &f.jti {
        o.insert("jti".into(), json!(x));
    }
    Value::Object(o)
}

/// Is this token, accepted with these results, really the issuer's?
fn justified(c: &Ctx, tok: &str, f: &FromPrior, kid: &str) -> Result<(), String> {
    let parts: Vec<&str> = tok.split('.').collect();
    if parts.len() != 3 {
        return Err(format!("{} parts", parts.len()));
    }
    let h: Value = serde_json::from_slice(&b64u_dec(parts[0]).ok_or("header b64")?).map_err(|e| e.to_string())?;
    // a header written as a sequence is read in field order; it says the same
    let h = match h.as_array().map(|a| a.as_slice()) {
        Some([t, a, k]) => json!({"typ": t, "alg": a, "kid": k}),
        _ => h,
    };
    if h["typ"] != "JWT" {
        return Err("typ is not JWT".into());
    }
    if h["kid"].as_str() != Some(kid) {
        return Err(format!("reports key {kid}, token names {}", h["kid"]));
    }
    let did = kid.split('#').next().unwrap();
    if did != f.iss {
        return Err(format!("signed by a key of {did}, issuer is {}", f.iss));
    }
    let doc = c.docs.iter().find(|d| d.id == did).ok_or("issuer unknown")?;
    if !doc.authentication.iter().any(|a| a == kid) {
        return Err("key is not an authentication key of the issuer".into());
    }
    let key = c.ps.iter().flat_map(|p| &p.keys).find(|k| k.kid == kid).ok_or("no such key")?;
    if key.key.kt.sig_alg() != h["alg"].as_str() {
        return Err(format!("alg {} does not belong to the key", h["alg"]));
    }
    let sig = b64u_dec(parts[2]).ok_or("signature b64")?;
    if !verify_raw(&key.key, format!("{}.{}", parts[0], parts[1]).as_bytes(), &sig) {
        return Err("signature does not verify".into());
    }
    let mut want: Value = serde_json::from_slice(&b64u_dec(parts[1]).ok_or("claims b64")?).map_err(|e| e.to_string())?;
    let o = want.as_object_mut().ok_or("claims not an object")?;
    o.retain(|k, v| ["iss", "sub", "aud", "exp", "nbf", "iat", "jti"].contains(&k.as_str()) && !v.is_null());
    if want != claims_of(f) {
        return Err(format!("returned {} but signed was {want}", claims_of(f)));
    }
    Ok(())
}

/// Runs the token through direct unpack and inside a message in every carrier.
fn judge(rec: &mut Rec, c: &Ctx, what: &str, tok: &str, must: Option<bool>, carriers: bool) {
    rec.eval(what, true);
    let direct = match rec.guarded(|| block_on(FromPrior::unpack(tok, &c.net))) {
        Err(p) => return rec.fail(what, format!("panic: {p}")),
        Ok(r) => r,
    };
    match &direct {
        Ok((f, kid)) => {
            rec.outcome("accepted");
            if must == Some(false) {
                rec.fail(what, format!("accepted as issued by {} with {kid}", f.iss));
            } else if let Err(e) = justified(c, tok, f, kid) {
                rec.fail(what, format!("accepted but {e}"));
            }
        }
        Err(e) => {
            rec.outcome(format!("refused {:?}", e.kind()));
            rec.check(must != Some(true), what, || format!("valid token refused: {e}"));
        }
    }
    if !carriers {
        return;
    }
    let (a, b) = (&c.ps[0], &c.ps[1]);
    let x = |p: &Party, f: &str| (p.kid(f), p.get(f).key.clone());
    let plain = {
        let mut m = ref_json(&simple(None, None, "rotated"));
        m["from_prior"] = json!(tok);
        m.to_string()
    };
    let stacks: Vec<Vec<Layer>> = vec![
        vec![],
        vec![Layer::Sign { by: x(a, "e1") }],
        vec![Layer::Anon { enc: "XC20P", to: vec![x(b, "x1")] }],
        vec![Layer::Auth { from: x(a, "x1"), to: vec![x(b, "x1")] }],
        vec![
            Layer::Anon { enc: "A256GCM", to: vec![x(b, "p1")] },
            Layer::Auth { from: x(a, "p1"), to: vec![x(b, "p1")] },
            Layer::Sign { by: x(a, "k1") },
        ],
    ];
    for st in stacks {
        let t = build(&st, &plain, what).pop().unwrap();
        let r = rec.guarded(|| block_on(unpack(&t, &c.net)));
        let name = format!("{what}@{}", stack_name(&st));
        rec.eval(&name, true);
        match (r, &direct) {
            (Err(p), _) => rec.fail(name, format!("panic: {p}")),
            (Ok(Ok((m, md))), Ok((f, kid))) => {
                rec.check(md.from_prior.as_ref() == Some(f) && md.from_prior_issuer_kid.as_deref() == Some(kid), &name, || {
                    format!("metadata says {:?} by {:?}", md.from_prior, md.from_prior_issuer_kid)
                });
                rec.check(m.from_prior.as_deref() == Some(tok), &name, || "message lost the token".into());
            }
            (Ok(Ok((_, md))), Err(e)) => rec.fail(name, format!("message with a refused token ({e}) is unpacked, issuer {:?}", md.from_prior_issuer_kid)),
            (Ok(Err(e)), Ok(_)) => rec.fail(name, format!("token valid alone, message refused: {e}")),
            (Ok(Err(e)), Err(d)) => {
                rec.check(e.kind() == d.kind(), &name, || format!("alone {:?}, inside a message {:?}", d.kind(), e.kind()));
            }
        }
    }
}

fn is_plain_did(s: &str) -> bool {
    s.split(':').count() >= 3 && s.starts_with("did:") && !s.contains('#')
}

fn pack_model(c: &Ctx, iss: &str, sub: &str, kid: Option<&str>) -> Result<Vec<String>, ErrorKind> {
    if !is_plain_did(iss) || !is_plain_did(sub) || iss == sub {
        return Err(ErrorKind::Malformed);
    }
    if let Some(k) = kid {
        match k.split_once('#') {
            Some((d, _)) if d == iss => {}
            _ => return Err(ErrorKind::IllegalArgument),
        }
    }
    let doc = c.docs.iter().find(|d| d.id == iss).ok_or(ErrorKind::DIDNotResolved)?;
    match kid {
        Some(k) if !doc.authentication.iter().any(|a| a == k) => Err(ErrorKind::DIDUrlNotFound),
        Some(k) => Ok(vec![k.to_string()]),
        None => Ok(doc.authentication.clone()),
    }
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C08",
        "exploration",
        "packing: every (issuer, subject, key id) over plain DIDs, DID URLs, key ids of every kind and non-DIDs, all claim shapes, \
         message sender vs subject; unpacking: every (signing key, named key id, named algorithm, issuer) combination, every \
         character of tokens of the three algorithms x {substitutions, deletion, duplication, truncation}, every signature bit, \
         header and part manipulations; directly and inside messages of every carrier; an accepted token must verify under the \
         independent implementation with an authentication key of its issuer",
    );
    p.namings = 4;
    p.bounds = json!({"carriers": 5, "mutation": "one position"});
    // --- packing
    let ids: Vec<&str> = vec![
        ns("did:example:alice"),
        ns("did:example:bob"),
        ns("did:example:mallory"),
        ns("did:example:nobody"),
        ns("did:example:alice#e1"),
        "did:example:alice#",
        "did:example",
        "did::",
        "did:example:",
        "alice",
        "",
        "DID:example:alice",
        "xdid:example:alice",
        ":did:example:alice",
        "did:example:alice:sub",
        "did:example:alice?q=1",
        "urn:did:example",
    ];
    for iss in ids.clone() {
        let ids = ids.clone();
        p.case(format!("pack/{iss}").replace(' ', "_"), move |rec| {
            let c = ctx();
            let a = &c.ps[0];
            let look = lookup(&c.ps);
            let mut kids: Vec<Option<String>> = vec![None];
            for k in ["e1", "e2", "s1", "k1", "x1", "ka-ed", "none-ed", "auth-x", "nomethod", "nope", ""] {
                kids.push(Some(a.kid(k)));
            }
            for k in [ns("did:example:alice"), ns("did:example:bob#e1"), ns("did:example:mallory#e1"), "", "#", "#e1", "garbage", ns("did:example:ali#e1"), "did:example:alice#e1#e1"] {
                kids.push(Some(k.to_string()));
            }
            for sub in &ids {
                for kid in &kids {
                    let what = format!("sub={sub};kid={}", kid.as_deref().unwrap_or("-"));
                    rec.eval(&what, true);
                    let fp = FromPrior::build(iss.into(), sub.to_string()).finalize();
                    let got = match rec.guarded(|| block_on(fp.pack(kid.as_deref(), &c.net, &c.net))) {
                        Err(p) => {
                            rec.fail(what, format!("panic: {p}"));
                            continue;
                        }
                        Ok(g) => g,
                    };
                    match (pack_model(&c, iss, sub, kid.as_deref()), got) {
                        (Err(k), Err(e)) => {
                            rec.outcome(format!("{k:?}"));
                            rec.check(e.kind() == k, &what, || format!("expected {k:?}, got {e}"));
                        }
                        (Err(k), Ok((_, kid))) => rec.fail(&what, format!("expected {k:?}, packed with {kid}")),
                        (Ok(ks), Err(e)) => {
                            // keys that cannot sign, or that are not held
                            let ok = kid.as_deref().map(|k| k == ns("did:example:alice#auth-x") && e.kind() == ErrorKind::Unsupported || k == ns("did:example:alice#nomethod") && e.kind() == ErrorKind::SecretNotFound);
                            rec.outcome(format!("{:?}", e.kind()));
                            rec.check(ok == Some(true), &what, || format!("expected a token by one of {ks:?}, got {e}"));
                        }
                        (Ok(ks), Ok((tok, kid))) => {
                            rec.outcome("packed");
                            rec.check(kid == ks[0], &what, || format!("signed with {kid}, expected {}", ks[0]));
                            match open_jwt(&tok, &|k| look(k)) {
                                Err(e) => rec.fail(&what, format!("independent verification: {e}")),
                                Ok((k, cl)) => {
                                    rec.check(k == kid && cl == claims_of(&fp), &what, || format!("token says {k} {cl}"));
                                }
                            }
                            judge(rec, &c, &format!("own;{what}"), &tok, Some(true), false);
                        }
                    }
                }
            }
        });
    }
    p.case("claims", |rec| {
        let c = ctx();
        let look = lookup(&c.ps);
        for mask in 0..32u32 {
            for (s, n) in [("", 0u64), ("x\"\\\u{0}\u{1F600}", u64::MAX), (ns("did:example:aud"), 1)] {
                for k in ["e1", "s1", "k1"] {
                    let on = |i: u32| mask >> i & 1 == 1;
                    let mut b = FromPrior::build(ns("did:example:alice").into(), ns("did:example:bob").into());
                    if on(0) {
                        b = b.aud(s.into());
                    }
                    if on(1) {
                        b = b.exp(n);
                    }
                    if on(2) {
                        b = b.nbf(n ^ 1);
                    }
                    if on(3) {
                        b = b.iat(n ^ 2);
                    }
                    if on(4) {
                        b = b.jti(format!("{s}j"));
                    }
                    let f = b.finalize();
                    let want = {
                        let mut o = json!({"iss": ns("did:example:alice"), "sub": ns("did:example:bob")});
                        let mut put = |i: u32, k: &str, v: Value| {
                            if on(i) {
                                o[k] = v
                            }
                        };
                        put(0, "aud", json!(s));
                        put(1, "exp", json!(n));
                        put(2, "nbf", json!(n ^ 1));
                        put(3, "iat", json!(n ^ 2));
                        put(4, "jti", json!(format!("{s}j")));
                        o
                    };
                    let what = format!("{mask}-{n}-{k}");
                    rec.eval(&what, true);
                    let kid = c.ps[0].kid(k);
                    match block_on(f.pack(Some(&kid), &c.net, &c.net)) {
                        Err(e) => rec.fail(&what, e.to_string()),
                        Ok((tok, kk)) => {
                            match open_jwt(&tok, &|k| look(k)) {
                                Ok((k2, cl)) => {
                                    rec.check(k2 == kid && kk == kid && cl == want, &what, || format!("token {k2} {cl}, expected {want}"));
                                }
                                Err(e) => rec.fail(&what, e),
                            }
                            match block_on(FromPrior::unpack(&tok, &c.net)) {
                                Ok((g, k3)) => {
                                    rec.check(g == f && k3 == kid, &what, || format!("{g:?} by {k3}"));
                                }
                                Err(e) => rec.fail(&what, e.to_string()),
                            }
                        }
                    }
                }
            }
        }
    });
    // --- the token inside a message that is packed: subject and sender
    p.case("pack-message", |rec| {
        let c = ctx();
        let a = &c.ps[0];
        let tok = |iss: &str, sub: &str, by: &str| {
            let party = c.ps.iter().find(|p| by.split('#').next() == Some(&p.did)).unwrap();
            let k = party.keys.iter().find(|k| k.kid == by).unwrap();
            ref_jwt(&k.key, &json!({"typ": "JWT", "alg": k.key.kt.sig_alg(), "kid": by}), &json!({"iss": iss, "sub": sub}))
        };
        let (al, bo, ma) = (ns("did:example:alice"), ns("did:example:bob"), ns("did:example:mallory"));
        for (iss, sub) in [(al, bo), (al, ma), (al, al), (al, ns("did:example:bob#k")), (al, "bob"), (al, ""), (ns("did:example:alice#e1"), bo), (bo, ma)] {
            for by in [a.kid("e1"), a.kid("s1"), c.ps[1].kid("e1"), c.ps[2].kid("e1")] {
                for from in [None, Some(al), Some(bo), Some(ma), Some(ns("did:example:bob#k"))] {
                    let t = tok(iss, sub, &by);
                    let mut b = didcomm::Message::build("i".into(), "t".into(), json!({})).from_prior(t.clone());
                    if let Some(f) = from {
                        b = b.from(f.into());
                    }
                    let m = b.finalize();
                    let issuer_ok = by.split('#').next() == Some(iss);
                    let ok = issuer_ok && is_plain_did(sub) && is_plain_did(iss) && iss != sub && from.map(|f| f == sub).unwrap_or(true);
                    let senders: Vec<Option<&str>> = vec![None, from.filter(|f| is_plain_did(f))];
                    for (i, mode) in [Mode::plain(), Mode::signed(&a.kid("e1")), Mode::enc(bo, None, None, false, &ANON[1]), Mode::enc(bo, senders[1], None, true, &ANON[0])].iter().enumerate() {
                        let what = format!("iss={iss};sub={sub};by={by};from={};{i}", from.unwrap_or("-"));
                        rec.eval(&what, true);
                        match rec.guarded(|| block_on(mode.pack(&m, &c.net))) {
                            Err(p) => rec.fail(what, format!("panic: {p}")),
                            Ok(Ok((text, _))) => {
                                rec.outcome("packed");
                                if !rec.check(ok, &what, || "a contradictory rotation token was packed".into()) {
                                    continue;
                                }
                                match block_on(unpack(&text, &c.net)) {
                                    Ok((m2, md)) => {
                                        rec.check(m2 == m && md.from_prior_issuer_kid.as_deref() == Some(&by) && md.from_prior.as_ref().map(claims_of) == Some(json!({"iss": iss, "sub": sub})), &what, || format!("{:?} {:?}", md.from_prior, md.from_prior_issuer_kid));
                                    }
                                    Err(e) => rec.fail(&what, format!("cannot be unpacked: {e}")),
                                }
                            }
                            Ok(Err(e)) => {
                                rec.outcome(format!("{:?}", e.kind()));
                                rec.check(!ok, &what, || format!("valid rotation refused: {e}"));
                                rec.check(ok || e.kind() == ErrorKind::Malformed, &what, || format!("expected Malformed, got {e}"));
                            }
                        }
                    }
                }
            }
        }
    });
    // --- unpacking: who signed, who is named, which algorithm, which issuer
    for signer in ["alice#e1", "alice#e2", "alice#s1", "alice#k1", "alice#ka-ed", "alice#none-ed", "mallory#e1", "mallory#s1", "mallory#k1", "bob#e1"] {
        p.case(format!("combo/{signer}"), move |rec| {
            let c = ctx();
            let signer = nm(&format!("did:example:{signer}"));
            let sk = c.ps.iter().flat_map(|p| &p.keys).find(|k| k.kid == signer).unwrap().key.clone();
            let mut named: Vec<String> = c.ps.iter().flat_map(|p| &p.keys).map(|k| k.kid.clone()).collect();
            named.extend(
                [ns("did:example:alice"), ns("did:example:mallory"), "", "#e1", "did:example:alice#", ns("did:example:alice#nomethod"), ns("did:example:nobody#e1"), "did:example:mallory#e1#e1", "did:example:alice#e1 "]
                    .iter()
                    .map(|s| s.to_string()),
            );
            for kid in &named {
                for alg in ["EdDSA", "ES256", "ES256K", "none", "HS256", "eddsa", ""] {
                    for iss in [ns("did:example:alice"), ns("did:example:bob"), ns("did:example:mallory"), ns("did:example:nobody"), ns("did:example:alice#e1"), ""] {
                        let t = ref_jwt(&sk, &json!({"typ": "JWT", "alg": alg, "kid": kid}), &json!({"iss": iss, "sub": ns("did:example:new")}));
                        let doc = c.docs.iter().find(|d| d.id == iss);
                        let must = *kid == signer && sk.kt.sig_alg() == Some(alg) && doc.map(|d| d.authentication.iter().any(|a| a == kid)) == Some(true) && kid.split('#').next() == Some(iss);
                        let deep = kid == &signer || must || alg == "EdDSA" && iss == ns("did:example:alice");
                        judge(rec, &c, &format!("kid={kid};alg={alg};iss={iss}"), &t, Some(must), deep);
                    }
                }
            }
        });
    }
    let base = |f: &str| {
        let c = ctx();
        let k = c.ps[0].get(f);
        ref_jwt(
            &k.key,
            &json!({"typ": "JWT", "alg": k.key.kt.sig_alg(), "kid": k.kid}),
            &json!({"iss": ns("did:example:alice"), "sub": ns("did:example:new"), "exp": 17, "jti": "j"}),
        )
    };
    for f in ["e1", "e3", "s1", "k1"] {
        for chunk in 0..8 {
            let b = base(f);
            p.case(format!("char/{f}/{chunk}"), move |rec| {
                let c = ctx();
                judge(rec, &c, "untouched", &b, Some(true), true);
                let by = b.as_bytes();
                let n = by.len();
                for i in n * chunk / 8..n * (chunk + 1) / 8 {
                    let ch = by[i];
                    let mut reps = vec![b'A', b'.', ch ^ 1, if ch.is_ascii_alphabetic() { ch ^ 0x20 } else { b'_' }, b'='];
                    if full {
                        reps = (33..127).collect();
                    }
                    reps.retain(|r| *r != ch && (33..127).contains(r));
                    for r in reps {
                        let mut t = by.to_vec();
                        t[i] = r;
                        judge(rec, &c, &format!("set{i}-{r}"), std::str::from_utf8(&t).unwrap(), None, false);
                    }
                    for (nm, t) in [
                        ("del", [&by[..i], &by[i + 1..]].concat()),
                        ("dup", [&by[..i + 1], &by[i..]].concat()),
                        ("cut", by[..i].to_vec()),
                    ] {
                        judge(rec, &c, &format!("{nm}{i}"), std::str::from_utf8(&t).unwrap(), None, full);
                    }
                }
            });
        }
        let b = base(f);
        p.case(format!("sigbits/{f}"), move |rec| {
            let c = ctx();
            let parts: Vec<&str> = b.split('.').collect();
            let sig = b64u_dec(parts[2]).unwrap();
            for bit in 0..sig.len() * 8 {
                let mut s = sig.clone();
                s[bit / 8] ^= 1 << (bit % 8);
                judge(rec, &c, &format!("bit{bit}"), &format!("{}.{}.{}", parts[0], parts[1], b64u(&s)), Some(false), bit % 64 == 0);
            }
            for cut in 0..sig.len() {
                judge(rec, &c, &format!("cut{cut}"), &format!("{}.{}.{}", parts[0], parts[1], b64u(&sig[..cut])), Some(false), false);
            }
            for extra in 1..4 {
                let s = [&sig[..], &vec![0u8; extra][..]].concat();
                judge(rec, &c, &format!("ext{extra}"), &format!("{}.{}.{}", parts[0], parts[1], b64u(&s)), Some(false), false);
            }
        });
        p.case(format!("header/{f}"), move |rec| {
            let c = ctx();
            let k = c.ps[0].get(f);
            let alg = k.key.kt.sig_alg().unwrap();
            let cl = json!({"iss": ns("did:example:alice"), "sub": ns("did:example:new")});
            let hs: Vec<(&str, Value, Option<bool>)> = vec![
                ("ok", json!({"typ": "JWT", "alg": alg, "kid": k.kid}), Some(true)),
                ("extra", json!({"typ": "JWT", "alg": alg, "kid": k.kid, "x": [1]}), None),
                ("typ-lower", json!({"typ": "jwt", "alg": alg, "kid": k.kid}), Some(false)),
                ("typ-other", json!({"typ": "JOSE", "alg": alg, "kid": k.kid}), Some(false)),
                ("typ-empty", json!({"typ": "", "alg": alg, "kid": k.kid}), Some(false)),
                ("typ-none", json!({"alg": alg, "kid": k.kid}), Some(false)),
                ("typ-null", json!({"typ": null, "alg": alg, "kid": k.kid}), Some(false)),
                ("typ-dc", json!({"typ": "application/didcomm-signed+json", "alg": alg, "kid": k.kid}), Some(false)),
                ("no-alg", json!({"typ": "JWT", "kid": k.kid}), Some(false)),
                ("no-kid", json!({"typ": "JWT", "alg": alg}), Some(false)),
                ("array", json!(["JWT", alg, k.kid]), None),
                ("null", json!(null), Some(false)),
            ];
            for (n, h, must) in hs {
                judge(rec, &c, n, &ref_jwt(&k.key, &h, &cl), must, true);
            }
            let good = json!({"typ": "JWT", "alg": alg, "kid": k.kid});
            for (n, cl, must) in [
                ("no-iss", json!({"sub": ns("did:example:new")}), Some(false)),
                ("no-sub", json!({"iss": ns("did:example:alice")}), Some(false)),
                ("iss-num", json!({"iss": 1, "sub": ns("did:example:new")}), Some(false)),
                ("exp-str", json!({"iss": ns("did:example:alice"), "sub": "s", "exp": "1"}), Some(false)),
                ("exp-neg", json!({"iss": ns("did:example:alice"), "sub": "s", "exp": -1}), Some(false)),
                ("aud-arr", json!({"iss": ns("did:example:alice"), "sub": "s", "aud": ["x"]}), Some(false)),
                ("nulls", json!({"iss": ns("did:example:alice"), "sub": "s", "aud": null, "exp": null, "nbf": null, "iat": null, "jti": null}), None),
                ("unknown", json!({"iss": ns("did:example:alice"), "sub": "s", "more": {"x": 1}}), None),
                ("str", json!(ns("did:example:alice")), Some(false)),
                ("null", json!(null), Some(false)),
            ] {
                judge(rec, &c, &format!("claims-{n}"), &ref_jwt(&k.key, &good, &cl), must, true);
            }
            let t = ref_jwt(&k.key, &good, &cl);
            let p: Vec<&str> = t.split('.').collect();
            for (n, s) in [
                ("empty", String::new()),
                ("dots", "..".into()),
                ("four", format!("{t}.{}", p[2])),
                ("lead", format!(".{t}")),
                ("trail", format!("{t}.")),
                ("two", format!("{}.{}", p[0], p[1])),
                ("swap", format!("{}.{}.{}", p[1], p[0], p[2])),
                ("nosig", format!("{}.{}.", p[0], p[1])),
                ("pad", format!("{}=.{}.{}", p[0], p[1], p[2])),
                ("space", format!(" {t}")),
                ("json", json!({"payload": p[1], "signatures": [{"protected": p[0], "signature": p[2]}]}).to_string()),
            ] {
                judge(rec, &c, &format!("form-{n}"), &s, Some(false), true);
            }
            // parts of two tokens by the same key
            let t2 = ref_jwt(&k.key, &good, &json!({"iss": ns("did:example:alice"), "sub": ns("did:example:evil")}));
            let q: Vec<&str> = t2.split('.').collect();
            for m in 1..7 {
                let s: Vec<&str> = (0..3).map(|i| if m >> i & 1 == 1 { q[i] } else { p[i] }).collect();
                let same = s[1] == p[1] && s[2] == p[2] || s[1] == q[1] && s[2] == q[2];
                judge(rec, &c, &format!("mix{m}"), &s.join("."), Some(same), true);
            }
            rec.sample(|| json!({"token": t}));
        });
    }
    crate::many::c08(&mut p, env.thorough());
    crate::near::c08(&mut p, env.thorough());
    crate::near::c08_roles(&mut p);
    p
}
