//! C05: only addressed recipients can read; protected senders stay hidden; fresh keys.
use crate::engine::{Env, Plan};
use crate::layers::*;
use crate::msgs::*;
use crate::refjose::b64u_dec;
use crate::world::*;
use didcomm::error::ErrorKind;
use didcomm::secrets::Secret;
use serde_json::{json, Value};
use std::collections::HashSet;

/// Everything readable without a key: the text itself, and every base64url run in it decoded,
/// recursively.
pub fn visible(text: &str, depth: u32, out: &mut Vec<Vec<u8>>) {
    out.push(text.as_bytes().to_vec());
    if depth == 0 {
        return;
    }
    if let Ok(v) = serde_json::from_str::<Value>(text) {
        walk(&v, depth, out);
    }
    let mut seen = HashSet::new();
    for tok in text.split(|c: char| !(c.is_ascii_alphanumeric() || c == '-' || c == '_')) {
        if tok.len() >= 4 && seen.insert(tok.to_string()) {
            if let Some(d) = b64u_dec(tok) {
                out.push(d.clone());
                if let Ok(s) = String::from_utf8(d) {
                    visible(&s, depth - 1, out);
                }
            }
        }
    }
}
fn walk(v: &Value, depth: u32, out: &mut Vec<Vec<u8>>) {
    match v {
        Value::String(s) => {
            out.push(s.as_bytes().to_vec());
            if let Some(d) = b64u_dec(s) {
                out.push(d.clone());
                if let Ok(s) = String::from_utf8(d) {
                    visible(&s, depth - 1, out);
                }
            }
        }
        Value::Array(a) => a.iter().for_each(|x| walk(x, depth, out)),
        Value::Object(o) => o.iter().for_each(|(k, x)| {
            out.push(k.as_bytes().to_vec());
            walk(x, depth, out)
        }),
        _ => {}
    }
}
pub fn find_in(hay: &[Vec<u8>], needle: &str) -> bool {
    let n = needle.as_bytes();
    hay.iter().any(|h| h.len() >= n.len() && h.windows(n.len()).any(|w| w == n))
}
/// Does a DID or key id occur (not merely as the beginning of a longer one)?
pub fn names_id(hay: &[Vec<u8>], id: &str) -> bool {
    let n = id.as_bytes();
    let more = |c: &u8| c.is_ascii_alphanumeric() || b"-._~:%/?@!$&'()*+,;=".contains(c);
    hay.iter().any(|h| (0..(h.len() + 1).saturating_sub(n.len())).any(|i| &h[i..i + n.len()] == n && !h.get(i + n.len()).map_or(false, more)))
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C05",
        "exploration",
        "every encryption mode x every subset of the recipient's key-agreement secrets (and everybody else's secrets): \
         opens iff a reported recipient key is held; every readable byte of the packed text, decoded recursively, searched \
         for content and hidden identifiers; repeated packing must never repeat a content key, ephemeral key or IV, and all \
         must come from randomness drawn during that call. Non-trivial: an envelope was produced and examined",
    );
    p.namings = 4;
    p.assumptions = vec!["secrecy of the ciphers themselves is assumed; the stand-in's random source is recorded".into()];
    let alice = rich("alice");
    let bob = rich("bob");
    for m in [super::c01::modes(&alice, &bob, full), super::c01::modes_via(&alice, &bob, full)].concat() {
        if m.to.is_none() {
            continue;
        }
        let (alice, bob) = (alice.clone(), bob.clone());
        let key = m.name();
        p.case(format!("subsets/{key}"), move |rec| {
            let world = [alice.clone(), bob.clone(), rich("carol")];
            let docs = docs_of(&world);
            let sn = Net::new(&docs, &alice.secrets());
            let content = "zq-the-secret-content-7731";
            let msg = simple(Some(&alice.did), Some(&bob.did), content);
            let (packed, md) = match block_on(m.pack(&msg, &sn)) {
                Ok((a, b)) => (a, b.unwrap()),
                Err(e) => return rec.fail("pack", e.to_string()),
            };
            let ka: Vec<&PKey> = bob.keys.iter().filter(|k| k.ka).collect();
            // who is addressed, from the request alone: the named key, or all the DID's keys of one type
            let to = m.to.clone().unwrap();
            let addressed: Vec<String> = if to.contains('#') {
                vec![to]
            } else {
                let kt = ka.iter().find(|k| md.to_kids.contains(&k.kid)).map(|k| k.key.kt);
                ka.iter().filter(|k| Some(k.key.kt) == kt).map(|k| k.kid.clone()).collect()
            };
            rec.check(md.to_kids == addressed, "addressed", || format!("reports {:?}, asked for {addressed:?}", md.to_kids));
            let all: Vec<Secret> = bob.secrets();
            for mask in 0..1u32 << ka.len() {
                let held: Vec<&str> = ka.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| x.1.kid.as_str()).collect();
                let sec: Vec<Secret> = all
                    .iter()
                    .filter(|s| held.contains(&s.id.as_str()) || !ka.iter().any(|k| k.kid == s.id))
                    .cloned()
                    .collect();
                let net = Net::new(&docs, &sec);
                let can = held.iter().any(|h| addressed.iter().any(|t| t == h));
                for every in [false, true] {
                    let what = format!("held-{mask:05b}-{every}");
                    rec.eval(&what, true);
                    match block_on(unpack_with(&packed, &net, every, true)) {
                        Ok((got, _)) => {
                            rec.outcome("opened");
                            rec.check(can, &what, || format!("opened with {held:?} although only {addressed:?} are addressed"));
                            rec.check(got == msg, &what, || "another message".into());
                        }
                        Err(e) => {
                            rec.outcome(format!("refused {:?}", e.kind()));
                            rec.check(!can && e.kind() == ErrorKind::SecretNotFound, &what, || {
                                format!("held {held:?}, addressed {addressed:?}: {e}")
                            });
                        }
                    }
                }
            }
            // everybody else, with all their secrets
            for w in [vec![alice.secrets()], vec![world[2].secrets()], vec![alice.secrets(), world[2].secrets()]] {
                let net = Net::new(&docs, &w.concat());
                rec.eval(&w.len(), true);
                match block_on(unpack(&packed, &net)) {
                    Ok(_) => rec.fail("others", "opened without any recipient secret"),
                    Err(e) => {
                        rec.check(e.kind() == ErrorKind::SecretNotFound, "others", || e.to_string());
                    }
                }
            }
            // wrong key material under the right id must not open it
            let wrong: Vec<Secret> = bob.keys.iter().filter(|k| k.ka).map(|k| crate::keys::Key::derive(k.key.kt, "wrong").secret(&k.kid, k.enc)).collect();
            for every in [false, true] {
                rec.eval(&("wrong", every), true);
                if block_on(unpack_with(&packed, &Net::new(&docs, &wrong), every, true)).is_ok() {
                    rec.fail("wrong-key", "opened with another key under the recipient key id");
                }
            }
            // what the wire shows
            let mut vis = vec![];
            visible(&packed, 4, &mut vis);
            rec.eval("visible", vis.len() > 3);
            for needle in [content, "\"body\"", "\"id-1\"", "proto/1.0/msg"] {
                rec.check(!find_in(&vis, needle), format!("leak-{needle}"), || format!("{needle} is readable in the envelope"));
            }
            let hidden_sender = m.has_anon_layer();
            if hidden_sender {
                for k in &alice.keys {
                    rec.check(!names_id(&vis, &k.kid), "leak-sender", || format!("{} is readable in the envelope", k.kid));
                }
                rec.check(!names_id(&vis, &alice.did), "leak-sender", || "sender DID is readable".into());
            } else if m.sign_by.is_some() {
                // authenticated without protection: the signer still is inside
                for k in alice.keys.iter().filter(|k| k.auth) {
                    rec.check(!names_id(&vis, &k.kid), "leak-signer", || format!("{} is readable", k.kid));
                }
            }
            rec.sample(|| json!({"mode": m.name(), "to_kids": md.to_kids, "subsets": 1u32 << ka.len(), "visible_strings": vis.len()}));
        });
    }
    // freshness
    let reps = if full { 64 } else { 12 };
    for m in super::c01::modes(&alice, &bob, false) {
        if m.to.is_none() {
            continue;
        }
        let (alice, bob) = (alice.clone(), bob.clone());
        p.case(format!("fresh/{}", m.name()), move |rec| {
            let world = [alice.clone(), bob.clone()];
            let docs = docs_of(&world);
            let sn = Net::new(&docs, &alice.secrets());
            let msg = simple(Some(&alice.did), Some(&bob.did), "same every time");
            let mut seen: HashSet<Vec<u8>> = HashSet::new();
            for i in 0..reps {
                askar_crypto::random::standin::record();
                let r = block_on(m.pack(&msg, &sn));
                let drawn = askar_crypto::random::standin::take();
                let packed = match r {
                    Ok(x) => x.0,
                    Err(e) => return rec.fail("pack", e.to_string()),
                };
                let pl = match peel(&packed, &bob, &world, i) {
                    Ok(x) => x,
                    Err(e) => return rec.fail("peel", e),
                };
                rec.eval(&i, true);
                for o in &pl.opened {
                    let epk = [o.epk["x"].to_string(), o.epk["y"].to_string()].concat().into_bytes();
                    for (what, v) in [("content key", &o.cek), ("iv", &o.iv), ("ephemeral key", &epk)] {
                        rec.check(v.iter().any(|b| *b != v[0]), "constant", || format!("{what} is constant bytes"));
                        rec.check(seen.insert(v.clone()), "repeat", || format!("{what} repeats at call {i}"));
                    }
                    for (what, v) in [("content key", &o.cek), ("iv", &o.iv)] {
                        rec.check(drawn.iter().any(|d| d.windows(v.len().max(1)).any(|w| w == &v[..])), "not-drawn", || {
                            format!("{what} was not drawn from the random source in this call")
                        });
                    }
                }
            }
        });
    }
    crate::many::c05(&mut p, env.thorough());
    p
}
