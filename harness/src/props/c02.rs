//! C02: unpack metadata states exactly the layers of the packed message.
use crate::engine::{Env, Plan};
use crate::keys::KT;
use crate::layers::*;
use crate::msgs::*;
use crate::refjose::ENC_ALGS;
use crate::world::*;
use didcomm::UnpackMetadata;
use serde_json::json;

pub fn kk(p: &Party, frags: &[&str]) -> Vec<KK> {
    frags.iter().map(|f| (p.kid(f), p.get(f).key.clone())).collect()
}

/// Names the first differing field.
pub fn md_diff(want: &UnpackMetadata, got: &UnpackMetadata) -> Option<String> {
    let (w, g) = (serde_json::to_value(want).unwrap(), serde_json::to_value(got).unwrap());
    if want == got {
        return None;
    }
    for (k, v) in w.as_object().unwrap() {
        if &g[k] != v {
            return Some(format!("{k}: envelope carries {v}, metadata says {}", g[k]));
        }
    }
    Some("metadata differs".into())
}

pub fn plan(env: &Env) -> Plan {
    let mut p = Plan::new(
        "C02",
        "exploration",
        "(a) every library packing mode, metadata compared with the layers found by peeling the envelope with the \
         independent implementation; (b) every sequence of up to 3 (thorough 4) layers from {3 anon algorithms, auth, \
         3 signature kinds} on both curves built by the independent implementation: supported nestings must unpack \
         with exactly their layers, all others must fail or claim exactly their layers; (c) every supported nesting \
         inside 1..2 (thorough 3) forwards to the receiver",
    );
    p.namings = 4;
    p.bounds = json!({"layer_depth": if env.thorough() {4} else {3}});
    let alice = rich("alice");
    let bob = rich("bob");
    // (a)
    for m in [super::c01::modes(&alice, &bob, true), super::c01::modes_via(&alice, &bob, env.thorough())].concat() {
        let (alice, bob) = (alice.clone(), bob.clone());
        p.case(format!("own/{}", m.name()), move |rec| {
            let world = [alice.clone(), bob.clone()];
            let docs = docs_of(&world);
            let sn = Net::new(&docs, &alice.secrets());
            let rn = Net::new(&docs, &bob.secrets());
            for all in [false, true] {
                // 0 unrelated resolver views: recipient view must suffice
                let msg = simple(Some(&alice.did), Some(&bob.did), "c02");
                rec.eval(&(all, m.name()), true);
                let packed = match block_on(m.pack(&msg, &sn)) {
                    Ok(x) => x.0,
                    Err(e) => return rec.fail("pack", e.to_string()),
                };
                let peeled = match peel(&packed, &bob, &world, 0) {
                    Ok(x) => x,
                    Err(e) => return rec.fail("peel", e),
                };
                let want = expected(&peeled.layers, &peeled.texts);
                // the layers asked for are the layers made
                let asked = (m.has_anon_layer(), m.from.is_some() && m.to.is_some(), m.sign_by.is_some());
                let made = (
                    peeled.layers.iter().any(|l| matches!(l, Layer::Anon { .. })),
                    peeled.layers.iter().any(|l| matches!(l, Layer::Auth { .. })),
                    peeled.layers.iter().any(|l| matches!(l, Layer::Sign { .. })),
                );
                rec.check(asked == made && peeled.layers.len() == [made.0, made.1, made.2].iter().filter(|x| **x).count(), "layers", || {
                    format!("asked for {asked:?}, envelope is {}", stack_name(&peeled.layers))
                });
                match block_on(unpack_with(&packed, &rn, all, true)) {
                    Ok((_, md)) => {
                        if let Some(d) = md_diff(&want, &md) {
                            rec.fail(format!("md-{all}"), d);
                        }
                        rec.outcome("unpacked");
                        rec.sample(|| json!({"mode": m.name(), "layers": stack_name(&peeled.layers), "metadata": md}));
                    }
                    Err(e) => rec.fail(format!("unpack-{all}"), e.to_string()),
                }
            }
        });
    }
    // (b)
    for kt in [KT::X25519, KT::P256] {
        let f1: &[&str] = if kt == KT::X25519 { &["x2"] } else { &["p1"] };
        let f2: &[&str] = if kt == KT::X25519 { &["x3", "x1"] } else { &["p2", "p1"] };
        let mut alphabet: Vec<Layer> = ENC_ALGS.iter().map(|e| Layer::Anon { enc: e, to: kk(&bob, f2) }).collect();
        alphabet.push(Layer::Auth { from: kk(&alice, f1)[0].clone(), to: kk(&bob, f1) });
        alphabet.push(Layer::Auth { from: kk(&alice, f1)[0].clone(), to: kk(&bob, f2) });
        for s in ["e2", "s1", "k1"] {
            alphabet.push(Layer::Sign { by: kk(&alice, &[s])[0].clone() });
        }
        let depth = if env.thorough() { 4 } else { 3 };
        let mut stacks: Vec<Vec<Layer>> = vec![vec![]];
        let mut frontier = stacks.clone();
        for _ in 0..depth {
            let mut nx = vec![];
            for s in &frontier {
                for a in &alphabet {
                    let mut s = s.clone();
                    s.push(a.clone());
                    nx.push(s);
                }
            }
            stacks.extend(nx.iter().cloned());
            frontier = nx;
        }
        for st in stacks {
            if st.is_empty() && kt == KT::P256 {
                continue;
            }
            let (alice, bob) = (alice.clone(), bob.clone());
            p.case(format!("ref/{}/{}", kt.crv(), stack_name(&st)), move |rec| {
                let docs = docs_of(&[alice.clone(), bob.clone()]);
                let rn = Net::new(&docs, &bob.secrets());
                let msg = simple(Some(&alice.did), Some(&bob.did), "c02");
                let texts = build(&st, &ref_json(&msg).to_string(), &rec.case);
                let want = expected(&st, &texts);
                let kinds: Vec<u8> = st
                    .iter()
                    .map(|l| match l {
                        Layer::Anon { .. } => 0,
                        Layer::Auth { .. } => 1,
                        _ => 2,
                    })
                    .collect();
                let supported = kinds.windows(2).all(|w| w[0] < w[1]);
                rec.eval("", true);
                match block_on(unpack(texts.last().unwrap(), &rn)) {
                    Ok((m, md)) => {
                        rec.outcome("unpacked");
                        rec.check(m == msg, "message", || "another message".into());
                        if let Some(d) = md_diff(&want, &md) {
                            rec.fail("metadata", d);
                        }
                    }
                    Err(e) => {
                        rec.outcome(format!("refused {:?}", e.kind()));
                        rec.check(!supported, "supported", || format!("supported nesting refused: {e}"));
                    }
                }
            });
        }
    }
    // (c) re-wrapped: up to two forwards addressed to the receiver around every supported nesting
    for kt in [KT::X25519, KT::P256] {
        let (one, two): (&[&str], &[&str]) = if kt == KT::X25519 { (&["x2"], &["x3", "x1"]) } else { (&["p1"], &["p2", "p1"]) };
        for fwds in 1..=if env.thorough() { 3 } else { 2usize } {
            let (alice, bob) = (alice.clone(), bob.clone());
            p.case(format!("rewrapped/{}/{fwds}", kt.crv()), move |rec| {
                let docs = docs_of(&[alice.clone(), bob.clone()]);
                let rn = Net::new(&docs, &bob.secrets());
                let msg = simple(Some(&alice.did), Some(&bob.did), "c02");
                // outer layer algorithm x inner anon (none or each) x auth x signature
                for outer in ENC_ALGS {
                    for inner_anon in [None, Some(0), Some(1), Some(2)] {
                        for auth in [false, true] {
                            for sign in [None, Some("e2"), Some("s1"), Some("k1")] {
                                let mut st = vec![];
                                for i in 0..fwds {
                                    // the middle layers take turns through the algorithms
                                    let k = ENC_ALGS.iter().position(|e| *e == outer).unwrap();
                                    st.push(Layer::Anon { enc: ENC_ALGS[(k + i) % 3], to: kk(&bob, if i % 2 == 0 { two } else { one }) });
                                    st.push(Layer::Fwd { next: if i % 2 == 0 { bob.did.clone() } else { bob.kid(one[0]) } });
                                }
                                let own = st.len();
                                if let Some(a) = inner_anon {
                                    st.push(Layer::Anon { enc: ENC_ALGS[a], to: kk(&bob, one) });
                                }
                                if auth {
                                    st.push(Layer::Auth { from: kk(&alice, one)[0].clone(), to: kk(&bob, one) });
                                }
                                if let Some(s) = sign {
                                    st.push(Layer::Sign { by: kk(&alice, &[s])[0].clone() });
                                }
                                let what = stack_name(&st);
                                let texts = build(&st, &ref_json(&msg).to_string(), "c02c");
                                let mut want = expected(&st, &texts);
                                want.re_wrapped_in_forward = true;
                                rec.eval(&what, true);
                                let (m, mut md) = match block_on(unpack_with(texts.last().unwrap(), &rn, false, true)) {
                                    Ok(x) => x,
                                    Err(e) => {
                                        rec.fail(&what, e.to_string());
                                        continue;
                                    }
                                };
                                rec.check(m == msg, &what, || "another message".into());
                                // a layer of its own, if the message has one, else any layer it came in
                                let lists: Vec<Vec<String>> = st[if own < st.len() && !matches!(st[own], Layer::Sign { .. }) { own } else { 0 }..]
                                    .iter()
                                    .chain(st.iter().take(if inner_anon.is_none() { own } else { 0 }))
                                    .filter_map(|l| match l {
                                        Layer::Anon { to, .. } | Layer::Auth { to, .. } => Some(to.iter().map(|t| t.0.clone()).collect()),
                                        _ => None,
                                    })
                                    .collect();
                                rec.check(md.encrypted_to_kids.as_ref().map_or(false, |k| lists.contains(k)), &what, || format!("recipients {:?} are no layer's", md.encrypted_to_kids));
                                if inner_anon.is_none() {
                                    let algs: Vec<_> = st.iter().filter_map(|l| match l { Layer::Anon { enc, .. } => Some(Some(anon_from_enc(enc))), _ => None }).collect();
                                    rec.check(algs.contains(&md.enc_alg_anon), &what, || format!("anonymous encryption algorithm {:?} is no layer's", md.enc_alg_anon));
                                    md.enc_alg_anon = want.enc_alg_anon.clone();
                                }
                                md.encrypted_to_kids = want.encrypted_to_kids.clone();
                                // a signed message inside an attachment is JSON, whose text is not kept
                                let js = |s: &Option<String>| s.as_ref().map(|s| serde_json::from_str::<serde_json::Value>(s).ok());
                                rec.check(js(&md.signed_message) == js(&want.signed_message), &what, || "another signed message".into());
                                md.signed_message = want.signed_message.clone();
                                if let Some(d) = md_diff(&want, &md) {
                                    rec.fail(&what, d);
                                }
                                rec.outcome("re-wrapped");
                            }
                        }
                    }
                }
            });
        }
    }
    crate::many::c02(&mut p, env.thorough());
    p
}
