//! C04: only an authorised signing key can make a signed message.
use crate::engine::{Env, Plan, Rec};
use crate::keys::{Enc, Key, KT};
use crate::layers::*;
use crate::msgs::*;
use crate::refjose::*;
use crate::world::*;
use didcomm::algorithms::SignAlg;
use didcomm::did::DIDDoc;
use didcomm::UnpackMetadata;
use serde_json::{json, Value};

fn world() -> (Vec<Party>, Vec<DIDDoc>) {
    let alice = rich("alice")
        // listed for key agreement only although able to sign
        .key("ka-ed", KT::Ed25519, Enc::Jwk, true, false)
        .key("ka-p", KT::P256, Enc::Jwk, true, false)
        // present as a method, listed nowhere
        .key("none-ed", KT::Ed25519, Enc::Jwk, false, false)
        // listed for authentication but unable to sign
        .key("auth-x", KT::X25519, Enc::Jwk, false, true);
    let ps = vec![alice.clone(), rich("bob"), rich("mallory")];
    let mut docs = docs_of(&ps);
    // Mallory's document lists Alice's key ids as its own, with Mallory's key material
    let m = docs.iter_mut().find(|d| d.id == ns("did:example:mallory")).unwrap();
    for f in ["e1", "s1", "k1"] {
        m.authentication.push(alice.kid(f));
        m.verification_method.push(ps[2].get(f).key.vm(&alice.kid(f), Enc::Jwk));
    }
    // Alice authorises a key whose method is missing, and one held in another DID's document
    let a = docs.iter_mut().find(|d| d.id == ns("did:example:alice")).unwrap();
    a.authentication.push(ns("did:example:alice#nomethod").into());
    a.authentication.push(ps[1].kid("e1"));
    (ps, docs)
}

/// Independent judgement of a signed envelope accepted by the library: the signature named in it
/// verifies over exactly the returned content with an authentication key of the DID it names.
fn justified(text: &str, docs: &[DIDDoc], ps: &[Party], md: &UnpackMetadata, msg: &didcomm::Message) -> Result<(), String> {
    let v: Value = serde_json::from_str(text).map_err(|e| format!("not JSON {e}"))?;
    let sigs = v["signatures"].as_array().ok_or("no signatures")?;
    if sigs.len() != 1 {
        return Err(format!("{} signatures", sigs.len()));
    }
    let s = &sigs[0];
    let kid = s["header"]["kid"].as_str().ok_or("no kid")?;
    if md.sign_from.as_deref() != Some(kid) {
        return Err(format!("sign_from {:?}, envelope names {kid}", md.sign_from));
    }
    let did = kid.split('#').next().unwrap();
    let doc = docs.iter().find(|d| d.id == did).ok_or("signer DID unknown")?;
    if !doc.authentication.iter().any(|a| a == kid) {
        return Err("key is not listed for authentication".into());
    }
    let key = ps.iter().flat_map(|p| &p.keys).find(|k| k.kid == kid).ok_or("no such key")?;
    let pb = s["protected"].as_str().ok_or("protected")?;
    let ph: Value = serde_json::from_slice(&lenient_b64(pb).ok_or("protected b64")?).map_err(|e| e.to_string())?;
    let alg = ph["alg"].as_str().ok_or("alg")?;
    if key.key.kt.sig_alg() != Some(alg) {
        return Err(format!("alg {alg} does not belong to the key"));
    }
    if md.sign_alg != Some(sign_alg(alg)) {
        return Err("sign_alg differs from the envelope".into());
    }
    let pl = v["payload"].as_str().ok_or("payload")?;
    let sig = lenient_b64(s["signature"].as_str().ok_or("signature")?).ok_or("signature b64")?;
    if !verify_raw(&key.key, format!("{pb}.{pl}").as_bytes(), &sig) {
        return Err("signature does not verify".into());
    }
    let content: Value = serde_json::from_slice(&lenient_b64(pl).ok_or("payload b64")?).map_err(|e| e.to_string())?;
    let mut got = ref_json(msg);
    if content.get("typ").is_none() {
        got.as_object_mut().unwrap().remove("typ");
    }
    if content != got {
        return Err("returned content is not the signed content".into());
    }
    Ok(())
}
fn lenient_b64(s: &str) -> Option<Vec<u8>> {
    b64u_dec(s)
}

struct Ctx {
    ps: Vec<Party>,
    docs: Vec<DIDDoc>,
    net: Net,
}
fn ctx() -> Ctx {
    let (ps, docs) = world();
    let net = Net::new(&docs, &ps[1].secrets());
    Ctx { ps, docs, net }
}

fn judge(rec: &mut Rec, c: &Ctx, what: &str, text: &str, must: Option<bool>) {
    rec.eval(what, true);
    let r = rec.guarded(|| block_on(unpack(text, &c.net)));
    match r {
        Err(p) => rec.fail(what, format!("panic: {p}")),
        Ok(Err(e)) => {
            rec.outcome(format!("refused {:?}", e.kind()));
            rec.check(must != Some(true), what, || format!("valid signed message refused: {e}"));
        }
        Ok(Ok((m, md))) => {
            if !md.non_repudiation && md.sign_from.is_none() && md.sign_alg.is_none() && md.signed_message.is_none() {
                // not reported as signed at all
                rec.outcome("not signed");
                rec.check(must != Some(true), what, || "signature not reported".into());
                return;
            }
            rec.outcome("accepted");
            if must == Some(false) {
                return rec.fail(what, format!("accepted as signed by {:?}", md.sign_from));
            }
            let signed = md.signed_message.clone().unwrap_or_default();
            if let Err(e) = justified(&signed, &c.docs, &c.ps, &md, &m) {
                rec.fail(what, format!("accepted as signed by {:?} but {e}", md.sign_from));
            }
        }
    }
}

/// Wraps a signed text in nothing, anon, auth.
fn carriers(c: &Ctx, label: &str, inner: &str) -> Vec<(&'static str, String)> {
    let (a, b) = (&c.ps[0], &c.ps[1]);
    let bk = &b.get("x1").key;
    let to = [(b.kid("x1"), bk)];
    let to: Vec<(&str, &Key)> = to.iter().map(|(s, k)| (s.as_str(), *k)).collect();
    vec![
        ("bare", inner.to_string()),
        ("anon", Seal::new(&format!("{label}/a"), "XC20P", None, &to, inner.as_bytes()).build().to_string()),
        (
            "auth",
            Seal::new(&format!("{label}/u"), "A256CBC-HS512", Some((&a.kid("x1"), &a.get("x1").key)), &to, inner.as_bytes())
                .build()
                .to_string(),
        ),
    ]
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C04",
        "exploration",
        "per signature algorithm: every position of the signed envelope x {substitutions, deletion, duplication, \
         truncation}, every signature bit, every (signing key, named kid, named algorithm) combination over authorised, \
         key-agreement-only, unlisted and foreign keys, 0..3 signatures in every combination, header manipulations; each \
         bare and inside anon/auth encryption. An accepted message must verify under the independent implementation.",
    );
    p.namings = 4;
    let text = |frag: &str| -> String {
        let (ps, _) = world();
        let k = ps[0].get(frag);
        ref_sign(&k.key, &k.kid, ref_json(&simple(Some(&ps[0].did), Some(&ps[1].did), "pay 5")).to_string().as_bytes()).to_string()
    };
    for frag in ["e1", "s1", "k1"] {
        let base = text(frag);
        let n = base.len();
        for chunk in 0..16 {
            let base = base.clone();
            p.case(format!("char/{frag}/{chunk}"), move |rec| {
                let c = ctx();
                judge(rec, &c, "untouched", &base, Some(true));
                let b = base.as_bytes();
                for i in n * chunk / 16..n * (chunk + 1) / 16 {
                    let ch = b[i];
                    let mut reps = vec![b'A', b'"', ch ^ 1, if ch.is_ascii_alphabetic() { ch ^ 0x20 } else { b'_' }];
                    if full {
                        reps = (33..127).collect();
                    }
                    reps.retain(|r| *r != ch && (32..127).contains(r));
                    for r in reps {
                        let mut t = b.to_vec();
                        t[i] = r;
                        judge(rec, &c, &format!("set{i}-{r}"), std::str::from_utf8(&t).unwrap(), None);
                    }
                    let mut t = b.to_vec();
                    t.remove(i);
                    judge(rec, &c, &format!("del{i}"), std::str::from_utf8(&t).unwrap(), None);
                    let mut t = b.to_vec();
                    t.insert(i, ch);
                    judge(rec, &c, &format!("dup{i}"), std::str::from_utf8(&t).unwrap(), None);
                    judge(rec, &c, &format!("cut{i}"), &base[..i], Some(false));
                }
            });
        }
        let base2 = base.clone();
        p.case(format!("sigbits/{frag}"), move |rec| {
            let c = ctx();
            let v: Value = serde_json::from_str(&base2).unwrap();
            let sig = b64u_dec(v["signatures"][0]["signature"].as_str().unwrap()).unwrap();
            for bit in 0..sig.len() * 8 {
                let mut s = sig.clone();
                s[bit / 8] ^= 1 << (bit % 8);
                let mut w = v.clone();
                w["signatures"][0]["signature"] = json!(b64u(&s));
                judge(rec, &c, &format!("bit{bit}"), &w.to_string(), Some(false));
            }
            for cut in 1..=sig.len() {
                let mut w = v.clone();
                w["signatures"][0]["signature"] = json!(b64u(&sig[..sig.len() - cut]));
                judge(rec, &c, &format!("cut{cut}"), &w.to_string(), Some(false));
            }
            for (n, s) in [("zero", vec![0; 64]), ("ff", vec![255; 64]), ("long", [&sig[..], &[0]].concat()), ("long2", [&[0], &sig[..]].concat()), ("double", [&sig[..], &sig[..]].concat())] {
                let mut w = v.clone();
                w["signatures"][0]["signature"] = json!(b64u(&s));
                judge(rec, &c, n, &w.to_string(), Some(false));
            }
            // payload swapped for another well-formed message
            let mut other = simple(Some(ns("did:example:alice")), Some(ns("did:example:bob")), "pay 500");
            for t in 0..4 {
                match t {
                    0 => {}
                    1 => other.id = "id-1 ".into(),
                    2 => other.from = None,
                    _ => other.body = json!({"secret": "pay 5", "x": 1}),
                }
                let mut w = v.clone();
                w["payload"] = json!(b64u(ref_json(&other).to_string().as_bytes()));
                judge(rec, &c, &format!("payload{t}"), &w.to_string(), Some(false));
            }
        });
    }
    // who signs / which kid is named / which algorithm is named
    let frags = ["e1", "e2", "e3", "s1", "k1", "ka-ed", "ka-p", "none-ed"];
    let named = [
        ns("did:example:alice#e1"), ns("did:example:alice#e2"), ns("did:example:alice#e3"), ns("did:example:alice#s1"), ns("did:example:alice#k1"),
        ns("did:example:alice#ka-ed"), ns("did:example:alice#ka-p"), ns("did:example:alice#none-ed"), ns("did:example:alice#auth-x"),
        ns("did:example:alice#x1"), ns("did:example:alice#nomethod"), ns("did:example:alice#missing"), ns("did:example:alice"), ns("did:example:bob#e1"),
        ns("did:example:mallory#e1"), ns("did:example:nobody#e1"), "", "#e1", "did:example:alice#", "e1", "did:example:alice#e1#",
    ];
    for signer in [ns("did:example:alice"), ns("did:example:mallory")] {
        for f in frags {
            if signer == ns("did:example:mallory") && (f.starts_with("ka") || f.starts_with("none")) {
                continue;
            }
            p.case(format!("who/{signer}#{f}"), move |rec| {
                let c = ctx();
                let pk = c.ps.iter().find(|p| p.did == signer).unwrap().get(f).clone();
                let pl = b64u(ref_json(&simple(Some(ns("did:example:alice")), Some(ns("did:example:bob")), "x")).to_string().as_bytes());
                for kid in named {
                    for alg in ["EdDSA", "ES256", "ES256K", "none", "HS256", "EdDSA ", "eddsa", "ES512", ""] {
                        let e = jws_entry(&pk.key, kid, &jws_header(alg), &pl);
                        let t = json!({"payload": pl, "signatures": [e]}).to_string();
                        let right = kid == pk.kid && pk.auth && pk.key.kt.sig_alg() == Some(alg);
                        for (cn, t) in carriers(&c, &format!("{f}{kid}{alg}"), &t) {
                            if cn != "bare" && !(right || full || alg == "EdDSA") {
                                continue;
                            }
                            judge(rec, &c, &format!("{kid}/{alg}/{cn}"), &t, Some(right));
                        }
                    }
                }
                rec.sample(|| json!({"signer": pk.kid, "named": named.len()}));
            });
        }
    }
    // number and combination of signatures
    p.case("many", |rec| {
        let c = ctx();
        let payload = ref_json(&simple(Some(ns("did:example:alice")), Some(ns("did:example:bob")), "x")).to_string();
        let pl = b64u(payload.as_bytes());
        let a = &c.ps[0];
        let mut pool: Vec<(String, Value)> = vec![];
        for f in ["e1", "s1"] {
            let k = a.get(f);
            pool.push((f.into(), jws_entry(&k.key, &k.kid, &jws_header(k.key.kt.sig_alg().unwrap()), &pl)));
        }
        let m = c.ps[2].get("e1");
        pool.push(("forged".into(), jws_entry(&m.key, &a.kid("e1"), &jws_header("EdDSA"), &pl)));
        pool.push(("mallory".into(), jws_entry(&m.key, &m.kid, &jws_header("EdDSA"), &pl)));
        let mut lists: Vec<Vec<usize>> = vec![vec![]];
        let mut fr = lists.clone();
        for _ in 0..3 {
            fr = fr.iter().flat_map(|l| (0..pool.len()).map(move |i| { let mut l = l.clone(); l.push(i); l })).collect();
            lists.extend(fr.iter().cloned());
        }
        for l in lists {
            let sigs: Vec<Value> = l.iter().map(|i| pool[*i].1.clone()).collect();
            let t = json!({"payload": pl, "signatures": sigs}).to_string();
            let ok = l.len() == 1 && l[0] != 2;
            let n = format!("sigs-{}", l.iter().map(|i| pool[*i].0.clone()).collect::<Vec<_>>().join("+"));
            for (cn, t) in carriers(&c, &n, &t) {
                judge(rec, &c, &format!("{n}/{cn}"), &t, Some(ok));
            }
        }
    });
    // header manipulations under a genuine key: anything accepted must still be justified
    for f in ["e1", "s1", "k1"] {
        p.case(format!("header/{f}"), move |rec| {
            let c = ctx();
            let k = c.ps[0].get(f);
            let mal = c.ps[2].get(f);
            let alg = k.key.kt.sig_alg().unwrap();
            let payload = ref_json(&simple(Some(ns("did:example:alice")), Some(ns("did:example:bob")), "x")).to_string();
            let pl = b64u(payload.as_bytes());
            let heads = vec![
                ("plain", json!({"typ":"application/didcomm-signed+json","alg":alg}), None),
                ("notyp", json!({"alg":alg}), None),
                ("noalg", json!({"typ":"application/didcomm-signed+json"}), Some(false)),
                ("algnull", json!({"typ":"application/didcomm-signed+json","alg":null}), Some(false)),
                ("algnum", json!({"typ":"application/didcomm-signed+json","alg":5}), Some(false)),
                ("jwk", json!({"typ":"application/didcomm-signed+json","alg":alg,"jwk":mal.key.public_jwk()}), None),
                ("kid", json!({"typ":"application/didcomm-signed+json","alg":alg,"kid":mal.kid}), None),
                ("b64", json!({"typ":"application/didcomm-signed+json","alg":alg,"b64":true}), None),
            ];
            for (n, h, must) in heads {
                let e = jws_entry(&k.key, &k.kid, &h.to_string(), &pl);
                judge(rec, &c, n, &json!({"payload": pl, "signatures": [e]}).to_string(), must);
                // the same header, signed by Mallory, naming Alice
                let e = jws_entry(&mal.key, &k.kid, &h.to_string(), &pl);
                judge(rec, &c, &format!("{n}-mallory"), &json!({"payload": pl, "signatures": [e]}).to_string(), Some(false));
                // header replaced after signing
                let mut e = jws_entry(&k.key, &k.kid, &jws_header(alg), &pl);
                let changed = b64u(h.to_string().as_bytes());
                if e["protected"] != json!(changed) {
                    e["protected"] = json!(changed);
                    judge(rec, &c, &format!("{n}-after"), &json!({"payload": pl, "signatures": [e]}).to_string(), Some(false));
                }
            }
            // signature over the payload only / over another separator / over decoded payload
            for (n, over) in [("payload-only", pl.clone()), ("decoded", payload.clone()), ("nosep", format!("{}{}", b64u(jws_header(alg).as_bytes()), pl))] {
                let s = sign_raw(&k.key, over.as_bytes());
                let e = json!({"header":{"kid":k.kid},"protected":b64u(jws_header(alg).as_bytes()),"signature":b64u(&s)});
                judge(rec, &c, n, &json!({"payload": pl, "signatures": [e]}).to_string(), Some(false));
            }
            // empty signature members
            for (n, s) in [("nosig", json!(null)), ("emptysig", json!(""))] {
                let mut e = jws_entry(&k.key, &k.kid, &jws_header(alg), &pl);
                e["signature"] = s;
                judge(rec, &c, n, &json!({"payload": pl, "signatures": [e]}).to_string(), Some(false));
            }
        });
    }
    // the library's own signatures, all signer keys, by DID and kid
    p.case("own", |rec| {
        let c = ctx();
        let sn = Net::new(&c.docs, &c.ps[0].secrets());
        for by in [ns("did:example:alice"), ns("did:example:alice#e1"), ns("did:example:alice#e2"), ns("did:example:alice#e3"), ns("did:example:alice#s1"), ns("did:example:alice#k1")] {
            let m = simple(Some(ns("did:example:alice")), Some(ns("did:example:bob")), "own");
            match block_on(m.pack_signed(by, &sn, &sn)) {
                Ok((t, _)) => judge(rec, &c, by, &t, Some(true)),
                Err(e) => rec.fail(by, e.to_string()),
            }
        }
    });
    let _ = SignAlg::EdDSA;
    crate::many::c04(&mut p, env.thorough());
    crate::near::c04(&mut p, env.thorough());
    crate::near::c04_roles(&mut p);
    p
}
