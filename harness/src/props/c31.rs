//! C31: the resolvers are asked about the parties of the operation and about nobody else.
use super::c01::{modes, modes_via};
use crate::engine::{Env, Plan, Rec};
use crate::keys::KT;
use crate::layers::*;
use crate::msgs::*;
use crate::ops::*;
use crate::refjose::*;
use crate::world::*;
use didcomm::protocols::routing::wrap_in_forward;
use didcomm::{Attachment, FromPrior, Message, UnpackOptions};
use serde_json::{json, Value};
use std::collections::BTreeSet;

/// Whom an operation may ask about.
#[derive(Default, Debug, Clone)]
struct May {
    dids: BTreeSet<String>,
    secrets: BTreeSet<String>,
}
fn did_of(s: &str) -> String {
    s.split('#').next().unwrap_or("").to_string()
}
impl May {
    fn did(&mut self, s: &str) -> &mut May {
        self.dids.insert(did_of(s));
        self
    }
    fn secret(&mut self, ids: impl IntoIterator<Item = String>) -> &mut May {
        self.secrets.extend(ids);
        self
    }
}

/// The ids of a query, which may contain commas themselves; `None` if there is one that is not known.
fn ids(arg: &str, known: &BTreeSet<String>) -> Option<Vec<String>> {
    if arg.is_empty() {
        return Some(vec![]);
    }
    known.iter().filter_map(|k| arg.strip_prefix(k.as_str()).map(|r| (k, r))).find_map(|(k, r)| {
        let rest = if r.is_empty() { Some(vec![]) } else { r.strip_prefix(',').filter(|r| !r.is_empty()).and_then(|r| ids(r, known)) };
        rest.map(|v| [vec![k.clone()], v].concat())
    })
}

fn judge(rec: &mut Rec, what: &str, calls: &[String], may: &May) {
    for c in calls {
        let (op, arg) = c.split_once(' ').unwrap_or((c, ""));
        let ok = match op {
            "resolve" => may.dids.contains(arg),
            "get_secret" => may.secrets.contains(arg),
            _ => ids(arg, &may.secrets).is_some(),
        };
        rec.check(ok, what, || format!("asked {c:?}; the parties are {:?}, their keys {:?}", may.dids, may.secrets));
    }
}

fn spy(i: usize) -> String {
    nm(&format!("did:example:spy{i}"))
}
/// A message that mentions other DIDs wherever it can.
fn gossip(from: &str, to: &str) -> Message {
    let mut m = simple(Some(from), Some(to), "gossip");
    m.to.as_mut().unwrap().push(spy(0));
    m.to.as_mut().unwrap().insert(0, spy(1));
    m.thid = Some(spy(2));
    m.pthid = Some(format!("{}#key", spy(3)));
    m.body = json!({"next": spy(4), "did": spy(5), "routing_keys": [format!("{}#x", spy(6))], "to": spy(6)});
    for (i, k) in ["next", "skid", "kid", "routing_did", "service", "return_route", "mediator"].iter().enumerate() {
        m.extra_headers.insert(k.to_string(), json!(spy(7 + i)));
    }
    m.attachments = Some(vec![
        Attachment::json(json!({"next": spy(15), "recipients": [{"header": {"kid": format!("{}#k", spy(16))}}]})).finalize(),
        Attachment::links(vec![spy(17), format!("https://x/{}", spy(18))], "h".into()).id(spy(19)).finalize(),
    ]);
    m
}

struct W {
    alice: Party,
    bob: Party,
    carol: Party,
    spies: Vec<Party>,
}
impl W {
    fn new() -> W {
        let mut bob = rich("bob");
        bob.services = vec![
            service(&format!("{}#old", bob.did), &spy(20), Some(vec!["didcomm/aip1"]), &[spy(21)]),
        ];
        // everybody mentioned exists and lists more of them
        let spies = (0..24)
            .map(|i| {
                Party::new(&spy(i))
                    .ka("x", KT::X25519)
                    .auth("e", KT::Ed25519)
                    .service(service(&format!("{}#s", spy(i)), &spy((i + 1) % 24), None, &[spy((i + 2) % 24)]))
            })
            .collect();
        W { alice: rich("alice"), bob, carol: rich("carol"), spies }
    }
    fn world(&self) -> Vec<Party> {
        [self.alice.clone(), self.bob.clone(), self.carol.clone()].into_iter().chain(self.spies.clone()).collect()
    }
    /// `who`'s view; everybody's secrets are there, to see that they are not asked for
    fn net(&self, who: &Party, all: bool) -> Net {
        let w = self.world();
        let s: Vec<_> = if all { w.iter().flat_map(|p| p.secrets()).collect() } else { who.secrets() };
        Net::new(&docs_of(&w), &s)
    }
}

fn kas(p: &Party) -> Vec<String> {
    p.keys.iter().filter(|k| k.ka).map(|k| k.kid.clone()).collect()
}
fn auths(p: &Party) -> Vec<String> {
    p.keys.iter().filter(|k| k.auth).map(|k| k.kid.clone()).collect()
}
fn keys_named(arg: &str, all: Vec<String>) -> Vec<String> {
    if arg.contains('#') {
        vec![arg.to_string()]
    } else {
        all
    }
}

fn token(w: &W) -> String {
    let fp = FromPrior::build(w.carol.did.clone(), w.alice.did.clone()).aud(spy(22)).jti(spy(23)).finalize();
    block_on(fp.pack(None, &w.net(&w.carol, false), &w.net(&w.carol, false))).expect("token").0
}

/// What packing in this mode may ask.
fn packing(w: &W, m: &Mode, with_token: bool) -> May {
    let mut may = May::default();
    if let Some(s) = &m.sign_by {
        may.did(s).secret(keys_named(s, auths(&w.alice)));
    }
    if let Some(to) = &m.to {
        may.did(to);
        if let Some(f) = &m.from {
            may.did(f).secret(keys_named(f, kas(&w.alice)));
        }
        let r1 = nm("did:example:relay1");
        let r2 = nm("did:example:relay2");
        match m.via {
            Via::One => drop(may.did(&r1)),
            Via::Two | Via::Endpoint => drop(may.did(&r1).did(&r2)),
            _ => {}
        }
    }
    if with_token {
        may.did(&w.carol.did);
    }
    may
}

/// What unpacking this text may ask, walking the layers the holder of `secrets` can open.
fn unpacking(w: &[Party], text: &str, held: &dyn Fn(&str) -> bool, unwrap: bool, may: &mut May) {
    let look = lookup(w);
    let Ok(v) = serde_json::from_str::<Value>(text) else { return };
    if v.get("ciphertext").is_some() {
        let kids: Vec<String> =
            v["recipients"].as_array().into_iter().flatten().filter_map(|r| r["header"]["kid"].as_str()).map(|s| s.to_string()).collect();
        may.secret(kids.clone());
        let prot: Value = b64u_dec(v["protected"].as_str().unwrap_or("")).and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
        if let Some(s) = prot["skid"].as_str() {
            may.did(s);
        }
        let Some(kid) = kids.iter().find(|k| held(k)) else { return };
        let Some(key) = look(kid) else { return };
        if let Ok(o) = open_jwe(text, kid, &key, &|k| look(k)) {
            unpacking(w, std::str::from_utf8(&o.pt).unwrap_or(""), held, unwrap, may);
        }
    } else if v.get("signatures").is_some() {
        for s in v["signatures"].as_array().into_iter().flatten() {
            if let Some(k) = s["header"]["kid"].as_str() {
                may.did(k);
            }
        }
        if let Ok((_, _, p)) = open_jws(text, &|k| look(k)) {
            unpacking(w, std::str::from_utf8(&p).unwrap_or(""), held, unwrap, may);
        }
    } else {
        if v["type"] == "https://didcomm.org/routing/2.0/forward" && unwrap {
            if let Some(next) = v["body"]["next"].as_str() {
                let ids = if next.contains('#') {
                    vec![next.to_string()]
                } else {
                    may.did(next);
                    w.iter().find(|p| p.did == next).map(kas).unwrap_or_default()
                };
                may.secret(ids.clone());
                if ids.iter().any(|k| held(k)) {
                    unpacking(w, &v["attachments"][0]["data"]["json"].to_string(), held, unwrap, may);
                }
            }
        }
        if let Some(t) = v["from_prior"].as_str() {
            let h: Value = t.split('.').next().and_then(b64u_dec).and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
            if let Some(k) = h["kid"].as_str() {
                may.did(k);
            }
        }
    }
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C31",
        "exploration",
        "every packing mode in every delivery environment, tokens, wrapping, and every stack of up to 3 (thorough 4) layers over \
         {anon for me / for several of my keys / for somebody else, auth, sign, broken signature, forward to me by DID and key / to \
         others} unpacked by holders of all, some and none of the keys under all options, on messages that mention other DIDs \
         wherever text can stand, with every resolver call failing or finding nothing: each question must be about a party of the \
         operation (a DID for the DID resolver, key ids of the layer or of the acting party for the secrets resolver)",
    );
    p.namings = if full { 3 } else { 2 };
    p.bounds = json!({"layers": if full { 4 } else { 3 }});
    // packing
    {
        let w = W::new();
        let all: Vec<Mode> = modes(&w.alice, &w.bob, full).into_iter().chain(modes_via(&w.alice, &w.bob, full)).collect();
        for (i, chunk) in all.chunks(40).enumerate() {
            let chunk = chunk.to_vec();
            p.case(format!("pack/{i}"), move |rec| {
                let w = W::new();
                let plain = gossip(&w.alice.did, &w.bob.did);
                let mut rotated = plain.clone();
                rotated.from_prior = Some(token(&w));
                for m in &chunk {
                    for (t, msg) in [(false, &plain), (true, &rotated)] {
                        let may = packing(&w, m, t);
                        let mut faults: Vec<Option<(usize, Fault)>> = vec![None];
                        let mut k = 0;
                        while k < faults.len() {
                            let what = format!("{}-{t}-{:?}", m.name(), faults[k]);
                            rec.begin(&what);
                            let mut net = w.net(&w.alice, true);
                            if let Some((i, f)) = faults[k] {
                                if m.via != Via::Off {
                                    break; // (the delivery environment has a view of its own)
                                }
                                net.faults.insert(i, f);
                            }
                            let r = block_on(m.pack(msg, &net));
                            let calls = net.calls();
                            rec.eval(&what, !calls.is_empty());
                            rec.outcome(r.as_ref().map(|_| "packed".to_string()).unwrap_or_else(|e| format!("{:?}", e.kind())));
                            if k == 0 {
                                rec.check(r.is_ok(), &what, || format!("{:?}", r.as_ref().err()));
                                if full || i % 3 == 0 {
                                    for j in 0..calls.len() {
                                        faults.extend([Some((j, Fault::None)), Some((j, Fault::Err(ErrorKind2(0))))]);
                                    }
                                }
                            }
                            judge(rec, &what, &calls, &may);
                            k += 1;
                        }
                    }
                }
            });
        }
    }
    // tokens and wrapping
    p.case("tokens", |rec| {
        let w = W::new();
        for kid in std::iter::once(None).chain(auths(&w.carol).into_iter().map(Some)) {
            let fp = FromPrior::build(w.carol.did.clone(), spy(0)).aud(spy(1)).jti(spy(2)).finalize();
            let net = w.net(&w.carol, true);
            let r = block_on(fp.pack(kid.as_deref(), &net, &net));
            let mut may = May::default();
            may.did(&w.carol.did).secret(kid.clone().map(|k| vec![k]).unwrap_or(auths(&w.carol)));
            rec.eval(&kid, true);
            judge(rec, &format!("pack-{kid:?}"), &net.calls(), &may);
            let Ok((t, _)) = r else {
                rec.fail(format!("pack-{kid:?}"), "refused");
                continue;
            };
            let net = w.net(&w.bob, true);
            let r = block_on(FromPrior::unpack(&t, &net));
            rec.check(r.is_ok(), "unpack", || format!("{:?}", r.err()));
            let mut may = May::default();
            may.did(&w.carol.did);
            judge(rec, &format!("unpack-{kid:?}"), &net.calls(), &may);
        }
        // claims of others
        let k = w.carol.get("e1");
        for iss in [spy(3), spy(4), w.bob.did.clone(), String::new(), format!("{}#e", spy(5))] {
            for kid in [k.kid.clone(), w.carol.did.clone(), format!("{}#zz", w.carol.did), spy(6)] {
                let t = ref_jwt(&k.key, &json!({"typ": "JWT", "alg": "EdDSA", "kid": kid}), &json!({"iss": iss, "sub": spy(7), "aud": spy(8)}));
                let net = w.net(&w.bob, true);
                let r = block_on(FromPrior::unpack(&t, &net));
                let what = format!("foreign-{iss}-{kid}");
                rec.eval(&what, true);
                rec.check(r.is_err(), &what, || "accepted".into());
                let mut may = May::default();
                may.did(&kid).did(&iss);
                judge(rec, &what, &net.calls(), &may);
            }
        }
    });
    p.case("wrapping", |rec| {
        let w = W::new();
        let inner = ref_json(&gossip(&w.alice.did, &w.bob.did)).to_string();
        let hops = [w.bob.did.clone(), w.bob.kid("x1"), w.carol.did.clone(), w.carol.kid("p1"), spy(9)];
        for to in [w.bob.did.clone(), w.bob.kid("x1"), spy(10), format!("{}#x", spy(11))] {
            let mut lists: Vec<Vec<String>> = vec![vec![]];
            for n in 0..3 {
                let l = lists.clone();
                lists.extend(l.iter().filter(|x| x.len() == n).flat_map(|x| hops.iter().map(|h| [x.clone(), vec![h.clone()]].concat())));
            }
            for keys in lists {
                for a in &ANON {
                    let net = w.net(&w.alice, true);
                    let h = [("x".to_string(), json!(spy(12)))].into_iter().collect();
                    let r = block_on(wrap_in_forward(&inner, Some(&h), &to, &keys, a, &net));
                    let what = format!("{to}-{}", keys.join("+"));
                    rec.eval(&(&what, anon_enc_name(a)), !keys.is_empty());
                    rec.outcome(if r.is_ok() { "wrapped" } else { "refused" });
                    let mut may = May::default();
                    for k in &keys {
                        may.did(k);
                    }
                    judge(rec, &what, &net.calls(), &may);
                }
            }
        }
    });
    // unpacking
    let kinds = 12;
    for first in 0..kinds {
        p.case(format!("unpack/{first}"), move |rec| {
            let w = W::new();
            let world = w.world();
            let kk = |p: &Party, f: &str| (p.kid(f), p.get(f).key.clone());
            let signer = kk(&w.alice, "e1");
            let layer = |i: usize| -> Layer {
                match i {
                    0 => Layer::Anon { enc: "A256CBC-HS512", to: vec![kk(&w.bob, "x1")] },
                    1 => Layer::Anon { enc: "XC20P", to: vec![kk(&w.bob, "p1"), kk(&w.bob, "p2")] },
                    2 => Layer::Anon { enc: "A256GCM", to: vec![kk(&w.carol, "x1")] },
                    3 => Layer::Auth { from: kk(&w.alice, "x1"), to: vec![kk(&w.bob, "x1"), kk(&w.bob, "x2")] },
                    4 => Layer::Auth { from: kk(&w.alice, "x1"), to: vec![kk(&w.carol, "x1")] },
                    5 => Layer::Sign { by: signer.clone() },
                    // claims another key than the one that signed
                    6 => Layer::Sign { by: (w.alice.kid("e1"), w.carol.get("e1").key.clone()) },
                    7 => Layer::Fwd { next: w.bob.did.clone() },
                    8 => Layer::Fwd { next: w.bob.kid("x1") },
                    9 => Layer::Fwd { next: w.carol.did.clone() },
                    10 => Layer::Fwd { next: spy(13) },
                    _ => Layer::Fwd { next: format!("{}#x", spy(14)) },
                }
            };
            let mut stacks: Vec<Vec<usize>> = vec![vec![first]];
            let mut from = 0;
            for _ in 1..if full { 4 } else { 3 } {
                let to = stacks.len();
                for s in from..to {
                    for i in 0..kinds {
                        stacks.push([stacks[s].clone(), vec![i]].concat());
                    }
                }
                from = to;
            }
            let tok = token(&w);
            let g = ref_json(&gossip(&w.alice.did, &w.bob.did));
            let mut rot = g.clone();
            rot["from_prior"] = json!(tok);
            let foreign = ref_jwt(&w.carol.get("e1").key, &json!({"typ": "JWT", "alg": "EdDSA", "kid": w.carol.kid("e1")}), &json!({"iss": spy(3), "sub": spy(7)}));
            let mut bad = g.clone();
            bad["from_prior"] = json!(foreign);
            let half: Vec<String> = vec![w.bob.kid("x2"), w.bob.kid("p2")];
            for st in &stacks {
                for (pn, plain) in [("plain", &g), ("token", &rot), ("foreign", &bad)] {
                    let ls: Vec<Layer> = st.iter().map(|i| layer(*i)).collect();
                    let texts = build(&ls, &plain.to_string(), &format!("{st:?}"));
                    let text = texts.last().unwrap();
                    for holder in ["bob", "half", "nobody"] {
                        for opt in 0..4 {
                            let (all, unwrap) = (opt & 1 == 1, opt & 2 == 2);
                            if !full && st.len() == 3 && (pn == "foreign" || all) && holder != "bob" {
                                continue;
                            }
                            let secrets: Vec<_> = match holder {
                                "bob" => w.bob.secrets(),
                                "half" => w.bob.secrets().into_iter().filter(|s| half.contains(&s.id)).collect(),
                                _ => vec![],
                            };
                            let ids: BTreeSet<String> = secrets.iter().map(|s| s.id.clone()).collect();
                            let mut may = May::default();
                            unpacking(&world, text, &|k| ids.contains(k), unwrap, &mut may);
                            let net = Net::new(&docs_of(&world), &secrets);
                            let what = format!("{st:?}-{pn}-{holder}-{opt}");
                            rec.begin(&what);
                            let o = UnpackOptions { expect_decrypt_by_all_keys: all, unwrap_re_wrapping_forward: unwrap };
                            let r = block_on(Message::unpack(text, &net, &net, &o));
                            let calls = net.calls();
                            rec.eval(&what, !calls.is_empty());
                            rec.outcome(r.map(|_| "unpacked".to_string()).unwrap_or_else(|e| format!("{:?}", e.kind())));
                            judge(rec, &what, &calls, &may);
                        }
                    }
                }
            }
            rec.sample(|| json!({"stacks": stacks.len()}));
        });
    }
    // every operation, every call failing
    p.case("failing", |rec| {
        let world = stage();
        for s in scenarios(&world) {
            let n = net_of(&world, s.who);
            let _ = run(&s.op, &n);
            let usual: BTreeSet<String> = n.calls().into_iter().collect();
            let held: BTreeSet<String> = world.iter().flat_map(|p| p.keys.iter().map(|k| k.kid.clone())).collect();
            let mut may = May::default();
            for c in &usual {
                let (op, arg) = c.split_once(' ').unwrap_or((c, ""));
                match op {
                    "resolve" => drop(may.did(arg)),
                    _ => drop(may.secret(ids(arg, &held).unwrap_or_else(|| arg.split(',').map(|x| x.to_string()).collect()))),
                }
            }
            let mut todo: Vec<Vec<(usize, Fault)>> = (0..n.calls().len()).flat_map(|i| [vec![(i, Fault::None)], vec![(i, Fault::Err(ErrorKind2(0)))], vec![(i, Fault::Err(ErrorKind2(3)))]]).collect();
            while let Some(f) = todo.pop() {
                let mut n = net_of(&world, s.who);
                n.faults = f.iter().copied().collect();
                let what = format!("{}-{f:?}", s.name);
                rec.begin(&what);
                let _ = run(&s.op, &n);
                rec.eval(&what, true);
                judge(rec, &what, &n.calls(), &may);
                if f.len() < 2 {
                    for i in f[0].0 + 1..n.calls().len() {
                        todo.push([f.clone(), vec![(i, Fault::Err(ErrorKind2(0)))]].concat());
                    }
                }
            }
        }
    });
    p
}
