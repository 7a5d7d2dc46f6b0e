//! C03: encrypted envelopes are tamper-evident.
use crate::engine::{Env, Plan, Rec};
use crate::msgs::*;
use crate::refjose::{b64u, b64u_dec};
use crate::world::*;
use didcomm::error::ErrorKind;
use didcomm::{Message, UnpackMetadata};
use serde_json::{json, Value};

struct Base {
    text: String,
    msg: Message,
    md: UnpackMetadata,
    net: Net,
}

/// What must survive any alteration.
fn claims(md: &UnpackMetadata) -> Value {
    let v = serde_json::to_value(md).unwrap();
    json!([
        v["encrypted"], v["authenticated"], v["non_repudiation"], v["anonymous_sender"], v["encrypted_from_kid"],
        v["sign_from"], v["enc_alg_auth"], v["enc_alg_anon"], v["sign_alg"], v["signed_message"], v["from_prior"],
        v["re_wrapped_in_forward"]
    ])
}

fn judge(rec: &mut Rec, b: &Base, what: &str, altered: &str, all: bool) {
    if altered == b.text {
        return;
    }
    rec.eval(&(what, all), true);
    let r = rec.guarded(|| block_on(unpack_with(altered, &b.net, all, true)));
    match r {
        Err(p) => rec.fail(what, format!("panic: {p}")),
        Ok(Err(e)) => rec.outcome(format!("refused {:?}", e.kind())),
        Ok(Ok((m, md))) => {
            rec.outcome("accepted unchanged");
            if m != b.msg {
                rec.fail(what, format!("other content accepted: {m:?}"));
            } else if claims(&md) != claims(&b.md) {
                rec.fail(what, format!("other claims accepted: {} instead of {}", claims(&md), claims(&b.md)));
            } else if !kids_ok(&md, &b.md) {
                rec.fail(what, format!("recipients {:?} instead of {:?}", md.encrypted_to_kids, b.md.encrypted_to_kids));
            }
        }
    }
}
/// The recipient set is bound by the hash in the protected header (order is not).
fn kids_ok(a: &UnpackMetadata, b: &UnpackMetadata) -> bool {
    let s = |m: &UnpackMetadata| {
        let mut v = m.encrypted_to_kids.clone().unwrap_or_default();
        v.sort();
        v
    };
    s(a) == s(b)
}

fn bases() -> Vec<(String, Mode, bool)> {
    let (alice, bob) = (rich("alice"), rich("bob"));
    let mut v = vec![];
    for a in &ANON {
        v.push(Mode::enc(&bob.did, None, None, false, a));
    }
    v.push(Mode::enc(&bob.kid("p1"), None, None, false, &ANON[2]));
    v.push(Mode::enc(&bob.kid("x2"), None, Some(&alice.did), false, &ANON[1]));
    v.push(Mode::enc(&bob.did, Some(&alice.did), None, false, &ANON[0]));
    v.push(Mode::enc(&bob.did, Some(&alice.kid("p1")), None, false, &ANON[0]));
    v.push(Mode::enc(&bob.kid("x1"), Some(&alice.kid("x3")), Some(&alice.kid("s1")), false, &ANON[0]));
    v.push(Mode::enc(&bob.did, Some(&alice.did), None, true, &ANON[1]));
    v.push(Mode::enc(&bob.kid("p2"), Some(&alice.did), Some(&alice.did), true, &ANON[0]));
    v.into_iter().map(|m| (m.name(), m, true)).collect()
}

fn base(m: &Mode, text: &str) -> Base {
    let (alice, bob) = (rich("alice"), rich("bob"));
    let docs = docs_of(&[alice.clone(), bob.clone(), rich("mallory")]);
    let sn = Net::new(&docs, &alice.secrets());
    let net = Net::new(&docs, &bob.secrets());
    let msg = simple(Some(&alice.did), Some(&bob.did), text);
    let (packed, _) = block_on(m.pack(&msg, &sn)).expect("pack");
    let (got, md) = block_on(unpack(&packed, &net)).expect("unpack of the untouched envelope");
    assert!(got == msg);
    Base { text: packed, msg, md, net }
}

/// Character edits of one position.
fn char_edits(s: &str, i: usize, full: bool) -> Vec<(String, String)> {
    let b = s.as_bytes();
    let c = b[i];
    let mut out = vec![];
    let mut repl: Vec<u8> = vec![b'A', b'"', b' ', c ^ 1, if c.is_ascii_alphabetic() { c ^ 0x20 } else { b'_' }];
    if full {
        repl.extend([b'0', b'-', b'\\', b',', b'}', b'=', b'+', b'/', c ^ 2, c ^ 4, c ^ 16]);
    }
    repl.sort();
    repl.dedup();
    for r in repl {
        if r != c && (32..127).contains(&r) {
            let mut t = b.to_vec();
            t[i] = r;
            out.push((format!("set{i}-{r}"), String::from_utf8(t).unwrap()));
        }
    }
    let mut t = b.to_vec();
    t.remove(i);
    out.push((format!("del{i}"), String::from_utf8(t).unwrap()));
    let mut t = b.to_vec();
    t.insert(i, c);
    out.push((format!("dup{i}"), String::from_utf8(t).unwrap()));
    if i + 1 < b.len() {
        let mut t = b.to_vec();
        t.swap(i, i + 1);
        out.push((format!("swap{i}"), String::from_utf8(t).unwrap()));
    }
    out.push((format!("cut{i}"), s[..i].to_string()));
    out
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C03",
        "exploration",
        "for envelopes of every anon/auth/signed/protected kind on both curves: every position x {5 (thorough 16) substitutions, \
         deletion, duplication, transposition, truncation}; every bit of iv, tag, wrapped keys and every byte of the ciphertext; \
         every protected-header member removed/changed/added; every recipient list edit; every member taken from another \
         envelope. Non-trivial: the altered text differs from the original",
    );
    for (bi, (name, m, _)) in bases().into_iter().enumerate() {
        // every position
        for chunk in 0..32usize {
            let m = m.clone();
            p.case(format!("char/{bi}:{name}/{chunk}"), move |rec| {
                askar_crypto::random::standin::reseed(crate::engine::hash64(&(bi, "c03")));
                let b = base(&m, "attack at dawn");
                let n = b.text.len();
                let (lo, hi) = (n * chunk / 32, n * (chunk + 1) / 32);
                for i in lo..hi {
                    for (w, t) in char_edits(&b.text, i, full) {
                        judge(rec, &b, &w, &t, false);
                    }
                }
                rec.sample(|| json!({"mode": m.name(), "positions": [lo, hi], "length": n}));
            });
        }
        // structured
        let m2 = m.clone();
        p.case(format!("bits/{bi}:{name}"), move |rec| {
            let b = base(&m2, "attack at dawn");
            let v: Value = serde_json::from_str(&b.text).unwrap();
            let edit = |rec: &mut Rec, ptr: &str, step: usize| {
                let raw = b64u_dec(v.pointer(ptr).unwrap().as_str().unwrap()).unwrap();
                for bit in (0..raw.len() * 8).step_by(step) {
                    let mut r = raw.clone();
                    r[bit / 8] ^= 1 << (bit % 8);
                    let mut w = v.clone();
                    *w.pointer_mut(ptr).unwrap() = json!(b64u(&r));
                    judge(rec, &b, &format!("bit{ptr}-{bit}"), &w.to_string(), false);
                }
                for cut in 1..=raw.len() {
                    for r in [raw[..raw.len() - cut].to_vec(), raw[cut..].to_vec()] {
                        let mut w = v.clone();
                        *w.pointer_mut(ptr).unwrap() = json!(b64u(&r));
                        judge(rec, &b, &format!("cut{ptr}-{cut}"), &w.to_string(), false);
                    }
                }
                for ext in 1..=33 {
                    let mut r = raw.clone();
                    r.extend(vec![0u8; ext]);
                    let mut w = v.clone();
                    *w.pointer_mut(ptr).unwrap() = json!(b64u(&r));
                    judge(rec, &b, &format!("ext{ptr}-{ext}"), &w.to_string(), false);
                }
            };
            edit(rec, "/iv", 1);
            edit(rec, "/tag", 1);
            edit(rec, "/ciphertext", if full { 1 } else { 5 });
            edit(rec, "/recipients/0/encrypted_key", 1);
        });
        let m2 = m.clone();
        p.case(format!("header/{bi}:{name}"), move |rec| {
            let b = base(&m2, "attack at dawn");
            let v: Value = serde_json::from_str(&b.text).unwrap();
            let prot: Value = serde_json::from_slice(&b64u_dec(v["protected"].as_str().unwrap()).unwrap()).unwrap();
            let mut edits: Vec<(String, Value)> = vec![];
            let names = ["typ", "alg", "enc", "skid", "apu", "apv", "epk", "kid", "zip", "crit", "cty"];
            let vals = [
                json!(null), json!(0), json!(true), json!(""), json!([]), json!({}),
                json!("ECDH-ES+A256KW"), json!("ECDH-1PU+A256KW"), json!("ECDH-ES"), json!("none"), json!("dir"),
                json!("A256CBC-HS512"), json!("A256GCM"), json!("XC20P"), json!("A128CBC-HS256"),
                json!("did:example:alice#x1"), json!("did:example:mallory#x1"), json!(b64u(b"did:example:mallory#x1")),
                json!(b64u(b"did:example:alice#x1")), json!("DEF"), json!("application/didcomm-encrypted+json"),
                json!("application/didcomm-plain+json"), json!(rich("mallory").get("x1").key.public_jwk()),
                json!(rich("mallory").get("p1").key.public_jwk()), json!(rich("bob").get("x1").key.public_jwk()),
            ];
            for n in names {
                let mut w = prot.clone();
                w.as_object_mut().unwrap().remove(n);
                edits.push((format!("no-{n}"), w));
                for (i, x) in vals.iter().enumerate() {
                    let mut w = prot.clone();
                    w[n] = x.clone();
                    edits.push((format!("{n}={i}"), w));
                }
            }
            // every bit of the epk coordinates
            for c in ["x", "y"] {
                if let Some(raw) = prot["epk"][c].as_str().map(|s| b64u_dec(s).unwrap()) {
                    for bit in 0..raw.len() * 8 {
                        let mut r = raw.clone();
                        r[bit / 8] ^= 1 << (bit % 8);
                        let mut w = prot.clone();
                        w["epk"][c] = json!(b64u(&r));
                        edits.push((format!("epk.{c}-{bit}"), w));
                    }
                }
            }
            for (n, e) in edits {
                if e == prot {
                    continue;
                }
                let mut w = v.clone();
                w["protected"] = json!(b64u(e.to_string().as_bytes()));
                judge(rec, &b, &n, &w.to_string(), false);
            }
            // same header, other bytes (it is authenticated as sent)
            for (n, t) in [
                ("pretty", serde_json::to_string_pretty(&prot).unwrap()),
                ("space", format!(" {prot}")),
                ("trail", format!("{prot} ")),
            ] {
                let mut w = v.clone();
                w["protected"] = json!(b64u(t.as_bytes()));
                judge(rec, &b, n, &w.to_string(), false);
            }
        });
        let m2 = m.clone();
        p.case(format!("recipients/{bi}:{name}"), move |rec| {
            let b = base(&m2, "attack at dawn");
            let v: Value = serde_json::from_str(&b.text).unwrap();
            let rs = v["recipients"].as_array().unwrap().clone();
            let mut lists: Vec<(String, Vec<Value>)> = vec![("empty".into(), vec![])];
            for i in 0..rs.len() {
                let mut w = rs.clone();
                w.remove(i);
                lists.push((format!("remove{i}"), w));
                let mut w = rs.clone();
                w.push(rs[i].clone());
                lists.push((format!("dup{i}"), w));
                lists.push((format!("only{i}"), vec![rs[i].clone()]));
                for j in 0..rs.len() {
                    let mut w = rs.clone();
                    w[i]["encrypted_key"] = rs[j]["encrypted_key"].clone();
                    lists.push((format!("ek{j}to{i}"), w));
                    let mut w = rs.clone();
                    w.swap(i, j);
                    lists.push((format!("swap{i}-{j}"), w));
                    let mut w = rs.clone();
                    let (a, c) = (rs[i]["encrypted_key"].clone(), rs[j]["encrypted_key"].clone());
                    w[i]["encrypted_key"] = c;
                    w[j]["encrypted_key"] = a;
                    lists.push((format!("ekswap{i}-{j}"), w));
                }
                for kid in [
                    "did:example:bob#x1", "did:example:bob#x2", "did:example:bob#p1", "did:example:bob#e1", "did:example:bob",
                    "did:example:bob#none", "did:example:alice#x1", "did:example:mallory#x1", "", "#x1", "x",
                ] {
                    let mut w = rs.clone();
                    w[i]["header"]["kid"] = json!(kid);
                    lists.push((format!("kid{i}={kid}"), w));
                    let mut w = rs.clone();
                    let mut e = rs[i].clone();
                    e["header"]["kid"] = json!(kid);
                    w.insert(0, e.clone());
                    lists.push((format!("ins{i}={kid}"), w.clone()));
                    w.remove(0);
                    w.push(e);
                    lists.push((format!("app{i}={kid}"), w));
                }
            }
            for (n, l) in lists {
                if l == rs {
                    continue;
                }
                let mut w = v.clone();
                w["recipients"] = json!(l);
                for all in [false, true] {
                    judge(rec, &b, &n, &w.to_string(), all);
                }
            }
        });
    }
    // parts from another envelope
    let bs = bases();
    for i in 0..bs.len() {
        for j in 0..bs.len() {
            let (mi, mj) = (bs[i].1.clone(), bs[j].1.clone());
            p.case(format!("splice/{i}-{j}"), move |rec| {
                let b = base(&mi, "attack at dawn");
                let d = base(&mj, "retreat at dusk");
                let v: Value = serde_json::from_str(&b.text).unwrap();
                let o: Value = serde_json::from_str(&d.text).unwrap();
                let parts = ["protected", "recipients", "iv", "ciphertext", "tag"];
                // every proper non-empty subset of the members
                for mask in 1..31u32 {
                    let mut w = v.clone();
                    for (k, n) in parts.iter().enumerate() {
                        if mask >> k & 1 == 1 {
                            w[*n] = o[*n].clone();
                        }
                    }
                    judge(rec, &b, &format!("parts{mask}"), &w.to_string(), false);
                }
                // wrapped keys only
                let mut w = v.clone();
                for (r, s) in w["recipients"].as_array_mut().unwrap().iter_mut().zip(o["recipients"].as_array().unwrap()) {
                    r["encrypted_key"] = s["encrypted_key"].clone();
                }
                judge(rec, &b, "keys", &w.to_string(), true);
                // members of the protected header
                let pv: Value = serde_json::from_slice(&b64u_dec(v["protected"].as_str().unwrap()).unwrap()).unwrap();
                let po: Value = serde_json::from_slice(&b64u_dec(o["protected"].as_str().unwrap()).unwrap()).unwrap();
                for n in ["alg", "enc", "skid", "apu", "apv", "epk"] {
                    let mut x = pv.clone();
                    if po.get(n).is_some() {
                        x[n] = po[n].clone();
                    } else {
                        x.as_object_mut().unwrap().remove(n);
                    }
                    if x != pv {
                        let mut w = v.clone();
                        w["protected"] = json!(b64u(x.to_string().as_bytes()));
                        judge(rec, &b, &format!("prot-{n}"), &w.to_string(), false);
                    }
                }
            });
        }
    }
    let _ = ErrorKind::Malformed;
    crate::many::c03(&mut p, env.thorough());
    p
}
