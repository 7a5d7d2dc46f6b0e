//! C10: unwrapping of re-wrapped forwards: a model of the unpack loop, explored explicitly, every
//! trace replayed on the real code.
use crate::engine::{Env, Plan, Rec};
use crate::keys::{Enc, KT};
use crate::layers::*;
use crate::msgs::*;
use crate::world::*;
use didcomm::error::ErrorKind;
use didcomm::UnpackMetadata;
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum L {
    /// anonymous encryption to a key the caller holds
    A,
    /// ... on the other curve, other algorithm
    P,
    /// ... to somebody else
    Z,
    /// authenticated encryption to the caller
    U,
    S,
    /// forward: next is a held key / the caller's DID / a key of the caller's DID that is not held /
    /// another DID / another DID's key / an unresolvable DID / an unresolvable DID's key
    Fk,
    Fd,
    Fn,
    Fo,
    Fq,
    Fu,
    Fx,
}
const LS: [L; 12] = [L::A, L::P, L::Z, L::U, L::S, L::Fk, L::Fd, L::Fn, L::Fo, L::Fq, L::Fu, L::Fx];

fn is_fwd(l: L) -> bool {
    matches!(l, L::Fk | L::Fd | L::Fn | L::Fo | L::Fq | L::Fu | L::Fx)
}

struct W {
    ps: Vec<Party>,
    net: Net,
}
fn world() -> W {
    let bob = rich("bob").key("gone", KT::X25519, Enc::Jwk, true, false);
    let ps = vec![rich("alice"), bob.clone(), rich("m2")];
    let mut sec = bob.secrets();
    sec.retain(|s| s.id != bob.kid("gone"));
    W { net: Net::new(&docs_of(&ps), &sec), ps }
}

fn layer(w: &W, l: L) -> Layer {
    let k = |p: usize, f: &str| (w.ps[p].kid(f), w.ps[p].get(f).key.clone());
    match l {
        L::A => Layer::Anon { enc: "XC20P", to: vec![k(1, "x1"), k(1, "x2")] },
        L::P => Layer::Anon { enc: "A256GCM", to: vec![k(1, "p1")] },
        L::Z => Layer::Anon { enc: "XC20P", to: vec![k(2, "x1")] },
        L::U => Layer::Auth { from: k(0, "x1"), to: vec![k(1, "x3")] },
        L::S => Layer::Sign { by: k(0, "e1") },
        L::Fk => Layer::Fwd { next: w.ps[1].kid("x1") },
        L::Fd => Layer::Fwd { next: w.ps[1].did.clone() },
        L::Fn => Layer::Fwd { next: w.ps[1].kid("gone") },
        L::Fo => Layer::Fwd { next: w.ps[2].did.clone() },
        L::Fq => Layer::Fwd { next: w.ps[2].kid("x1") },
        L::Fu => Layer::Fwd { next: ns("did:example:nobody").into() },
        L::Fx => Layer::Fwd { next: ns("did:example:nobody#k").into() },
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Phase {
    Anon,
    Forward,
    Auth,
    Sign,
    Plain,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum End {
    /// the text at this depth is the returned message; layers consumed since the last unwrapping start at .1
    Message { at: usize, since: usize, rewrapped: bool },
    Refused(Option<&'static str>),
    /// the next hop cannot be resolved: refusing and returning the forward are both right
    Either { at: usize, since: usize, rewrapped: bool },
}

/// The unpack loop as the property states it. Every step is reported.
fn model(st: &[L], unwrap: bool, step: &mut dyn FnMut(Phase, usize, bool)) -> End {
    let (mut ph, mut i, mut rw, mut since) = (Phase::Anon, 0, false, 0);
    let mut unresolved = false;
    loop {
        step(ph, i, rw);
        let cur = st.get(i).copied();
        match ph {
            Phase::Anon => match cur {
                Some(L::Z) => return End::Refused(Some("SecretNotFound")),
                Some(L::A | L::P) => {
                    i += 1;
                    ph = if unwrap { Phase::Forward } else { Phase::Auth };
                }
                _ => ph = Phase::Auth,
            },
            Phase::Forward => match cur {
                Some(L::Fk | L::Fd) => {
                    i += 1;
                    since = i;
                    rw = true;
                    ph = Phase::Anon;
                }
                Some(L::Fu) => {
                    unresolved = true;
                    ph = Phase::Auth;
                }
                _ => ph = Phase::Auth,
            },
            Phase::Auth => {
                if cur == Some(L::U) {
                    i += 1;
                }
                ph = Phase::Sign;
            }
            Phase::Sign => {
                if cur == Some(L::S) {
                    i += 1;
                }
                ph = Phase::Plain;
            }
            Phase::Plain => {
                return match cur {
                    Some(l) if !is_fwd(l) => End::Refused(None),
                    _ if unresolved => End::Either { at: i, since, rewrapped: rw },
                    _ => End::Message { at: i, since, rewrapped: rw },
                };
            }
        }
    }
}

fn authenticity(m: &UnpackMetadata) -> Value {
    json!([m.authenticated, m.non_repudiation, m.encrypted_from_kid, m.sign_from, m.enc_alg_auth, m.sign_alg, m.signed_message, m.from_prior, m.from_prior_issuer_kid])
}

fn replay(rec: &mut Rec, w: &W, st: &[L], base: &Value, texts: &[String], layers: &[Layer], unwrap: bool, all: bool, tag: &str) {
    let mut steps = 0;
    let case = rec.case.clone();
    let mut seen: Vec<u64> = vec![];
    let end = model(st, unwrap, &mut |ph, i, rw| {
        steps += 1;
        seen.push(crate::engine::hash64(&(ph, &st[i.min(st.len())..], rw, unwrap)));
    });
    let _ = case;
    for s in seen {
        rec.states.insert(s);
    }
    rec.transitions += steps;
    rec.traces += 1;
    let what = format!("{}{}{}{tag}", st.iter().map(|l| format!("{l:?}")).collect::<Vec<_>>().join("."), if unwrap { "+unwrap" } else { "" }, if all { "+all" } else { "" });
    rec.eval(&what, true);
    rec.begin(&what);
    let got = match rec.guarded(|| block_on(unpack_with(texts.last().unwrap(), &w.net, all, unwrap))) {
        Err(p) => return rec.fail(what, format!("panic: {p}")),
        Ok(g) => g,
    };
    let (at, since, rewrapped, either) = match end {
        End::Refused(k) => {
            rec.outcome("refused");
            match got {
                Ok((m, _)) => rec.fail(what, format!("returns a message of type {} where nothing can be returned", m.type_)),
                Err(e) => {
                    let ok = match k {
                        Some("SecretNotFound") => e.kind() == ErrorKind::SecretNotFound,
                        _ => e.kind() == ErrorKind::Malformed,
                    };
                    rec.check(ok, what, || format!("unexpected error {e}"));
                }
            }
            return;
        }
        End::Message { at, since, rewrapped } => (at, since, rewrapped, false),
        End::Either { at, since, rewrapped } => (at, since, rewrapped, true),
    };
    let (m, md) = match got {
        Err(e) => {
            rec.outcome("refused");
            rec.check(either && e.kind() == ErrorKind::DIDNotResolved, what, || format!("expected the message at depth {at}, got {e}"));
            return;
        }
        Ok(x) => x,
    };
    rec.outcome(if rewrapped { "unwrapped" } else if at < st.len() { "forward returned" } else { "message" });
    rec.check(md.re_wrapped_in_forward == rewrapped, &what, || format!("re_wrapped_in_forward = {}, expected {rewrapped}", md.re_wrapped_in_forward));
    let want: Value = if at == st.len() { base.clone() } else { serde_json::from_str(&texts[st.len() - at]).unwrap() };
    rec.check(ref_json(&m) == want, &what, || format!("returned {}, expected {want}", ref_json(&m)));
    // what the inner message yields on its own
    let inner_layers = &layers[since..at];
    let em = expected(inner_layers, &texts[st.len() - at..=st.len() - since].to_vec());
    rec.check(authenticity(&em) == authenticity(&md), &what, || format!("authenticity {} expected {}", authenticity(&md), authenticity(&em)));
    let enc = layers[..at].iter().any(|l| matches!(l, Layer::Anon { .. } | Layer::Auth { .. }));
    rec.check(md.encrypted == enc, &what, || format!("encrypted = {}", md.encrypted));
    if since > 0 {
        match block_on(unpack_with(&texts[st.len() - since], &w.net, all, unwrap)) {
            Ok((m2, md2)) => {
                rec.check(m2 == m && authenticity(&md2) == authenticity(&md), &what, || "the inner envelope alone yields something else".into());
            }
            Err(e) => rec.fail(&what, format!("the inner envelope alone is refused: {e}")),
        }
    }
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let depth = if full { 5 } else { 4 };
    let mut p = Plan::new(
        "C10",
        "model_checking",
        "every stack of up to 4 (thorough 5) layers over {anon X25519, anon P-256, anon for somebody else, auth, sign, forward to \
         own held key, own DID, own unheld key, other DID, other key, unresolvable DID, unresolvable key} over an ordinary message \
         and over look-alike forwards x unwrapping on/off (x decrypt-by-all): a model of the unpack loop explored step by step \
         (state: phase, remaining layers, flags), every trace replayed on the real unpack and compared in message, flags and \
         authenticity; plus every wallet subset x next hop, and long chains",
    );
    p.namings = 4;
    p.bounds = json!({"depth": depth, "layer_kinds": LS.len()});
    p.assumptions = vec!["after unwrapping, the metadata of the outer anonymous layers (anonymous_sender, enc_alg_anon, encrypted_to_kids) is not compared".into()];
    for first in LS {
        for second in LS {
            p.case(format!("{first:?}.{second:?}"), move |rec| {
                let w = world();
                let base_m = simple(Some(ns("did:example:alice")), Some(ns("did:example:bob")), "c10");
                let base = ref_json(&base_m);
                let mut stacks: Vec<Vec<L>> = vec![vec![first, second]];
                if second == L::A {
                    stacks.push(vec![first]);
                    if first == L::A {
                        stacks.push(vec![]);
                    }
                }
                let mut fr = vec![vec![first, second]];
                for _ in 2..depth {
                    fr = fr.iter().flat_map(|s| LS.iter().map(move |l| [&s[..], &[*l]].concat())).collect();
                    stacks.extend(fr.iter().cloned());
                }
                for st in stacks {
                    let layers: Vec<Layer> = st.iter().map(|l| layer(&w, *l)).collect();
                    let texts = build(&layers, &base.to_string(), "c10");
                    for unwrap in [true, false] {
                        replay(rec, &w, &st, &base, &texts, &layers, unwrap, false, "");
                        if st.len() <= 3 {
                            replay(rec, &w, &st, &base, &texts, &layers, unwrap, true, "");
                        }
                    }
                }
                rec.sample(|| json!({"prefix": format!("{first:?}.{second:?}"), "depth": depth}));
            });
        }
    }
    // messages that look like forwards but are not
    p.case("look-alikes", |rec| {
        let w = world();
        let own = w.ps[1].did.clone();
        let inner = json!({"id": "inner", "typ": "application/didcomm-plain+json", "type": "t", "body": {}});
        let fwd = |ty: &str, body: Value, atts: Value| json!({"id": "f", "typ": "application/didcomm-plain+json", "type": ty, "body": body, "attachments": atts});
        let good = "https://didcomm.org/routing/2.0/forward";
        let a = json!([{"data": {"json": inner}}]);
        let variants: Vec<(Value, bool)> = vec![
            (fwd(good, json!({"next": own}), a.clone()), true),
            (fwd(good, json!({"next": own, "x": 1}), json!([{"id": "1", "data": {"json": inner}}, {"data": {"base64": ""}}])), true),
            (fwd("https://didcomm.org/routing/2.0/forward/", json!({"next": own}), a.clone()), false),
            (fwd("https://didcomm.org/routing/3.0/forward", json!({"next": own}), a.clone()), false),
            (fwd("https://didcomm.org/routing/2.0/FORWARD", json!({"next": own}), a.clone()), false),
            (fwd(good, json!({"next": [own]}), a.clone()), false),
            (fwd(good, json!({"Next": own}), a.clone()), false),
            (fwd(good, json!({}), a.clone()), false),
            (fwd(good, json!(own), a.clone()), false),
            (fwd(good, json!({"next": own}), json!([])), false),
            (fwd(good, json!({"next": own}), json!([{"data": {"base64": "e30"}}])), false),
            (fwd(good, json!({"next": own}), json!([{"data": {"links": [], "hash": ""}}, {"data": {"json": inner}}])), false),
        ];
        for (i, (v, is)) in variants.iter().enumerate() {
            for carrier in 0..4 {
                for unwrap in [true, false] {
                    let st: Vec<L> = [vec![], vec![L::A], vec![L::U], vec![L::A, L::S]][carrier].clone();
                    let layers: Vec<Layer> = st.iter().map(|l| layer(&w, *l)).collect();
                    let texts = build(&layers, &v.to_string(), "c10l");
                    let what = format!("{i}/{carrier}/{unwrap}");
                    rec.eval(&what, true);
                    rec.traces += 1;
                    let inner_expected = *is && carrier == 1 && unwrap;
                    match block_on(unpack_with(texts.last().unwrap(), &w.net, false, unwrap)) {
                        Ok((m, md)) => {
                            let want = if inner_expected { inner.clone() } else { v.clone() };
                            rec.check(ref_json(&m) == want && md.re_wrapped_in_forward == inner_expected, &what, || format!("returned {} rewrapped {}", ref_json(&m), md.re_wrapped_in_forward));
                        }
                        Err(e) => rec.fail(&what, e.to_string()),
                    }
                }
            }
        }
    });
    // what counts as one's own: wallet subsets
    for mask in 0..64u32 {
        p.case(format!("wallet/{mask:06b}"), move |rec| {
            let frags = ["x1", "x2", "x3", "p1", "p2", "e1"];
            let bob = rich("bob");
            let med = Party::new(ns("did:example:bobmed")).ka("r", KT::P256);
            let ps = vec![rich("alice"), bob.clone(), med.clone(), rich("m2")];
            let mut sec = med.secrets();
            sec.extend(bob.secrets().into_iter().filter(|s| frags.iter().enumerate().any(|(i, f)| mask >> i & 1 == 1 && s.id == bob.kid(f))));
            let net = Net::new(&docs_of(&ps), &sec);
            let base_m = simple(None, Some(ns("did:example:bob")), "c10w");
            let base = ref_json(&base_m);
            let r: KK = (med.kid("r"), med.get("r").key.clone());
            let held = |k: &str| frags.iter().enumerate().any(|(i, f)| mask >> i & 1 == 1 && bob.kid(f) == k);
            for next in [ns("did:example:bob"), ns("did:example:bob#x1"), ns("did:example:bob#x3"), ns("did:example:bob#p2"), ns("did:example:bobmed"), ns("did:example:bobmed#r"), ns("did:example:m2")] {
                for inner_to in [vec!["x1"], vec!["x1", "x2", "x3"], vec!["p2"], vec![]] {
                    let mine = match next {
                        n if n == ns("did:example:bob") => mask & 0b11111 != 0,
                        n if n == ns("did:example:m2") => false,
                        n if n.starts_with(ns("did:example:bobmed")) => true,
                        n => held(n),
                    };
                    let to: Vec<KK> = inner_to.iter().map(|f| (bob.kid(f), bob.get(f).key.clone())).collect();
                    let mut layers = vec![Layer::Anon { enc: "A256CBC-HS512", to: vec![r.clone()] }, Layer::Fwd { next: next.into() }];
                    if !to.is_empty() {
                        layers.push(Layer::Anon { enc: "XC20P", to: to.clone() });
                    }
                    let texts = build(&layers, &base.to_string(), "c10w");
                    let what = format!("{next};{}", inner_to.join("+"));
                    rec.eval(&what, true);
                    rec.traces += 1;
                    rec.states.insert(crate::engine::hash64(&(mask, &what)));
                    let readable = to.is_empty() || to.iter().any(|t| held(&t.0));
                    match (block_on(unpack_with(texts.last().unwrap(), &net, false, true)), mine, readable) {
                        (Ok((m, md)), true, true) => {
                            rec.check(ref_json(&m) == base && md.re_wrapped_in_forward, &what, || "own forward not unwrapped".into());
                        }
                        (Ok((m, md)), false, _) => {
                            rec.check(m.type_ == "https://didcomm.org/routing/2.0/forward" && !md.re_wrapped_in_forward && m.body["next"] == next, &what, || "a forward for somebody else is not returned as such".into());
                        }
                        (Err(e), true, false) => {
                            rec.check(e.kind() == ErrorKind::SecretNotFound, &what, || e.to_string());
                        }
                        (r, _, _) => rec.fail(&what, format!("mine={mine} readable={readable}: {:?}", r.map(|x| x.1).map_err(|e| e.to_string()))),
                    }
                }
            }
        });
    }
    // long chains
    for n in [6usize, 10, if full { 16 } else { 13 }] {
        p.case(format!("chain/{n}"), move |rec| {
            let w = world();
            let base = ref_json(&simple(Some(ns("did:example:alice")), Some(ns("did:example:bob")), "c10c"));
            for tail in [vec![], vec![L::A], vec![L::U], vec![L::P, L::U, L::S], vec![L::S], vec![L::A, L::Fo], vec![L::Z]] {
                let mut st: Vec<L> = vec![];
                for i in 0..n {
                    st.push(if i % 3 == 1 { L::P } else { L::A });
                    st.push(if i % 2 == 0 { L::Fk } else { L::Fd });
                }
                st.extend(tail);
                let layers: Vec<Layer> = st.iter().map(|l| layer(&w, *l)).collect();
                let texts = build(&layers, &base.to_string(), "c10c");
                for unwrap in [true, false] {
                    replay(rec, &w, &st, &base, &texts, &layers, unwrap, false, "");
                }
            }
        });
    }
    crate::near::c10(&mut p, env.thorough());
    p
}
