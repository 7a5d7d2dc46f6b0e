//! C09: forward onions.
use super::c05::{find_in, names_id, visible};
use crate::engine::{Env, Plan, Rec};
use crate::keys::KT;
use crate::layers::*;
use crate::msgs::*;
use crate::onion::*;
use crate::world::*;
use didcomm::algorithms::AnonCryptAlg;
use didcomm::error::ErrorKind;
use didcomm::protocols::routing::{try_parse_forward, wrap_in_forward};
use didcomm::{Attachment, Message, PackEncryptedOptions};
use serde_json::{json, Map, Value};
use std::collections::HashMap;

fn headers(i: usize) -> Map<String, Value> {
    match i {
        0 => Map::new(),
        _ => json!({"x": {"k": [1, "two", null, {"z": "\u{1F600}\"\\"}]}, "": null, "next": ns("did:example:evil"), "lang": "en", "data": {"json": {}}, "please_ack": [""]})
            .as_object()
            .unwrap()
            .clone(),
    }
}
fn hash(m: &Map<String, Value>) -> HashMap<String, Value> {
    m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}

fn world(mediator: bool, rk: &[String], reverse_keys: bool) -> Vec<Party> {
    let mut m1 = rich("m1");
    m1.services = vec![service(ns("did:example:m1#s"), "http://m1", None, &[ns("did:example:m3#p1").to_string()])];
    // a mediator whose first key is on P-256
    let m4 = Party::new(ns("did:example:m4")).ka("pa", KT::P256).ka("xa", KT::X25519).ka("pb", KT::P256);
    let mut bob = rich("bob");
    bob.services = vec![service(ns("did:example:bob#s"), if mediator { ns("did:example:m1") } else { "http://bob" }, None, rk)];
    let mut v = vec![rich("alice"), bob, m1, rich("m2"), rich("m3"), m4];
    if reverse_keys {
        for p in &mut v[2..] {
            p.keys.reverse();
        }
    }
    v
}

#[derive(Clone)]
struct Cfg {
    mediator: bool,
    rk: Vec<String>,
    rev: bool,
}

fn one(rec: &mut Rec, cfg: &Cfg, mode: &Mode, hdr: usize) {
    let ps = world(cfg.mediator, &cfg.rk, cfg.rev);
    let docs = docs_of(&ps);
    let (alice, bob) = (&ps[0], &ps[1]);
    let sn = Net::new(&docs, &alice.secrets());
    let what = format!("{};h{hdr}{}", mode.name(), if cfg.rev { ";rev" } else { "" });
    rec.eval(&what, true);
    let to = mode.to.clone().unwrap();
    let h = headers(hdr);
    let msg = simple(Some(&alice.did), Some(&bob.did), "content-c09-marker");
    let opts = PackEncryptedOptions { forward: true, forward_headers: if hdr == 0 { None } else { Some(hash(&h)) }, ..mode.opts() };
    let r = rec.guarded(|| block_on(msg.pack_encrypted(&to, mode.from.as_deref(), mode.sign_by.as_deref(), &sn, &sn, &opts)));
    let (text, md) = match r {
        Err(p) => return rec.fail(what, format!("panic: {p}")),
        Ok(Err(e)) => return rec.fail(what, format!("refused: {e}")),
        Ok(Ok(x)) => x,
    };
    let mut keys = cfg.rk.clone();
    if cfg.mediator {
        keys.insert(0, ns("did:example:m1").into());
    }
    let enc = anon_enc_name(&mode.anon);
    let (hops, inner) = match peel_onion(&text, &keys, &to, &h, enc, &ps) {
        Err(e) => return rec.fail(what, e),
        Ok(x) => x,
    };
    rec.outcome(format!("{} hops", hops.len()));
    // the service reported
    let want = if keys.is_empty() { None } else { Some((ns("did:example:bob#s").to_string(), if cfg.mediator { "http://m1".to_string() } else { "http://bob".into() })) };
    let got = md.messaging_service.map(|m| (m.id, m.service_endpoint));
    rec.check(got == want, &what, || format!("service {got:?}, expected {want:?}"));
    // what each hop may see: not the content, not hops after the next, not a hidden sender
    for (i, hop) in hops.iter().enumerate() {
        let mut seen = vec![];
        visible(&hop.plain, 3, &mut seen);
        rec.check(!find_in(&seen, "content-c09-marker"), &what, || format!("hop {i} can read the content"));
        if mode.from.is_none() || mode.protect {
            rec.check(!names_id(&seen, ns("did:example:alice")), &what, || format!("hop {i} can see the sender"));
        }
        let own = keys[i].split('#').next().unwrap();
        let next = hop.next.split('#').next().unwrap();
        for later in keys.iter().skip(i + 2).map(|s| s.as_str()).chain(if i + 1 < keys.len() { Some(ns("did:example:bob")) } else { None }) {
            let later = later.split('#').next().unwrap();
            if later != own && later != next {
                rec.check(!names_id(&seen, later), &what, || format!("hop {i} can see the later hop {later}"));
            }
        }
        // and before opening: only its own keys
        let mut sealed = vec![];
        visible(&hop.sealed, 3, &mut sealed);
        for p in &ps {
            if p.did != own {
                rec.check(!names_id(&sealed, &p.did), &what, || format!("the layer for hop {i} names {}", p.did));
            }
        }
        // a real mediator using the library
        let p = ps.iter().find(|p| p.did == own).unwrap();
        let mn = Net::new(&docs, &p.secrets());
        for unwrap in [false, true] {
            // a hop forwarding to itself would be unwrapped further
            if unwrap && next == own {
                continue;
            }
            match block_on(unpack_with(&hop.sealed, &mn, true, unwrap)) {
                Err(e) => rec.fail(&what, format!("mediator {i} cannot unpack: {e}")),
                Ok((m, md)) => {
                    let f = try_parse_forward(&m);
                    let want: Value = serde_json::from_str(&hop.plain).unwrap();
                    rec.check(f.as_ref().map(|f| f.next == hop.next && f.forwarded_msg == want["attachments"][0]["data"]["json"]) == Some(true), &what, || {
                        format!("mediator {i} parses {:?}", f.map(|f| f.next))
                    });
                    rec.check(ref_json(&m) == want, &what, || format!("mediator {i} reads another message"));
                    rec.check(md.anonymous_sender && md.encrypted && !md.authenticated && !md.non_repudiation && !md.re_wrapped_in_forward, &what, || format!("mediator metadata {md:?}"));
                }
            }
        }
    }
    // the addressee
    let bn = Net::new(&docs, &bob.secrets());
    match block_on(unpack(&inner, &bn)) {
        Ok((m, md)) => {
            rec.check(m == msg && !md.re_wrapped_in_forward, &what, || "the addressee gets another message".into());
        }
        Err(e) => rec.fail(&what, format!("the addressee cannot unpack: {e}")),
    }
    // the same envelope as without forwarding
    match peel(&inner, bob, &ps, 0) {
        Ok(p) => {
            let n = mode.has_anon_layer() as usize + mode.from.is_some() as usize + mode.sign_by.is_some() as usize;
            rec.check(p.layers.len() == n && p.plain == ref_json(&msg), &what, || stack_name(&p.layers));
        }
        Err(e) => rec.fail(&what, format!("inner envelope: {e}")),
    }
}

/// Reference reading of a forward message.
fn ref_forward(m: &Value) -> Option<(String, Value)> {
    if m["type"] != "https://didcomm.org/routing/2.0/forward" {
        return None;
    }
    let next = m["body"]["next"].as_str()?;
    let d = m["attachments"].as_array()?.first()?["data"].as_object()?;
    Some((next.into(), d.get("json")?.clone()))
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C09",
        "exploration",
        "every routing-key list of length 0..2 (plus length 3, thorough also 4) over {X25519 key id, P-256 key id, DID, DID whose first key is P-256} x \
         endpoint {URL, mediator DID} x recipient {DID, X25519 key id, P-256 key id} x content algorithms x packing modes x extra headers: \
         every layer opened with every one of its keys by the independent implementation and by a library mediator; \
         public wrap_in_forward and try_parse_forward over all small inputs against a reference",
    );
    p.namings = if full { 4 } else { 2 };
    let alphabet = [ns("did:example:m2#x1"), ns("did:example:m2#p2"), ns("did:example:m3"), ns("did:example:m4")];
    let max = if full { 4 } else { 3 };
    p.bounds = json!({"routing_keys": max, "mediator": 1});
    let mut lists: Vec<Vec<String>> = vec![vec![]];
    let mut fr = lists.clone();
    for _ in 0..max {
        fr = fr.iter().flat_map(|l: &Vec<String>| alphabet.iter().map(move |a| [&l[..], &[a.to_string()]].concat())).collect();
        lists.extend(fr.iter().cloned());
    }
    let al = ns("did:example:alice");
    for rk in lists {
        for mediator in [false, true] {
            let rk = rk.clone();
            let key = format!("onion/{}{}", if mediator { "m1>" } else { "" }, rk.iter().map(|s| s.replace("did:example:", "")).collect::<Vec<_>>().join(">"));
            p.case(key, move |rec| {
                let cfg = Cfg { mediator, rk: rk.clone(), rev: false };
                for to in [ns("did:example:bob"), ns("did:example:bob#x2"), ns("did:example:bob#p1")] {
                    for a in &ANON {
                        let big = rk.len() >= 3 && !full;
                        for (from, sign, protect) in [(None, None, false), (Some(al), None, false), (Some(al), Some(al), true), (None, Some(ns("did:example:alice#k1")), false), (Some(al), None, true)] {
                            if big && (protect || sign.is_some()) && *a != ANON[1] {
                                continue;
                            }
                            let m = Mode::enc(to, from, sign, protect, a);
                            for hdr in [0, 1] {
                                if big && hdr == 0 && to != ns("did:example:bob") {
                                    continue;
                                }
                                one(rec, &cfg, &m, hdr);
                            }
                        }
                    }
                }
                let cfg = Cfg { rev: true, ..cfg };
                one(rec, &cfg, &Mode::enc(ns("did:example:bob"), Some(al), None, false, &ANON[2]), 1);
                rec.sample(|| json!({"routing_keys": rk, "mediator": mediator}));
            });
        }
    }
    // two packings share no forward ids
    p.case("fresh-ids", |rec| {
        let ps = world(true, &[ns("did:example:m2#x1").into(), ns("did:example:m3").into()], false);
        let sn = Net::new(&docs_of(&ps), &ps[0].secrets());
        let mut ids = std::collections::HashSet::new();
        for i in 0..50 {
            rec.eval(&i, true);
            let m = Mode { forward: true, ..Mode::enc(ns("did:example:bob"), None, None, false, &ANON[1]) };
            let (t, _) = block_on(m.pack(&simple(None, None, "x"), &sn)).unwrap();
            match peel_onion(&t, &[ns("did:example:m1").into(), ns("did:example:m2#x1").into(), ns("did:example:m3").into()], ns("did:example:bob"), &Map::new(), "XC20P", &ps) {
                Ok((h, _)) => {
                    for x in h {
                        rec.check(ids.insert(x.id.clone()), "", || format!("forward id {} repeats", x.id));
                    }
                }
                Err(e) => rec.fail("", e),
            }
        }
    });
    // public wrap_in_forward
    for (mi, m) in ["{\"a\":[1,\"x\"]}", "[]", "\"s\"", "7", "null", "{}", "{\"ciphertext\":\"x\"}", "{ \"b\" : true , \"a\":\"\\u00e9\" }", "", "{", "not json", "{\"a\":1}x"].into_iter().enumerate() {
        p.case(format!("wrap/{mi}"), move |rec| {
            let ps = world(false, &[], false);
            let net = Net::new(&docs_of(&ps), &[]);
            let valid: Option<Value> = serde_json::from_str(m).ok();
            let bad: [(&str, ErrorKind); 4] = [
                (ns("did:example:nobody"), ErrorKind::DIDNotResolved),
                (ns("did:example:m2#nope"), ErrorKind::DIDUrlNotFound),
                (ns("did:example:m2#e1"), ErrorKind::DIDUrlNotFound),
                ("", ErrorKind::DIDNotResolved),
            ];
            let good = [ns("did:example:m2#x1"), ns("did:example:m2#p2"), ns("did:example:m3")];
            let mut lists: Vec<(Vec<String>, Option<ErrorKind>)> = vec![(vec![], None)];
            let all: Vec<(&str, Option<ErrorKind>)> = good.iter().map(|g| (*g, None)).chain(bad.iter().map(|(b, k)| (*b, Some(*k)))).collect();
            for (a, ka) in &all {
                lists.push((vec![a.to_string()], *ka));
                for (b, kb) in &all {
                    // wrapping starts with the last key
                    lists.push((vec![a.to_string(), b.to_string()], kb.or(*ka)));
                }
            }
            lists.push((good.iter().map(|s| s.to_string()).collect(), None));
            for (rk, err) in &lists {
                for to in [ns("did:example:bob"), ns("did:example:bob#x1"), "anything \u{1F600}\"", ""] {
                    for (ai, a) in ANON.iter().enumerate() {
                        for hdr in 0..3 {
                            let h = headers(hdr);
                            let what = format!("{}>{to};{ai};{hdr}", rk.join(">"));
                            rec.eval(&what, true);
                            let hh = hash(&h);
                            let a: &AnonCryptAlg = a;
                            let r = rec.guarded(|| block_on(wrap_in_forward(m, if hdr == 0 { None } else { Some(&hh) }, to, rk, a, &net)));
                            match r {
                                Err(p) => rec.fail(&what, format!("panic: {p}")),
                                Ok(Err(e)) => {
                                    let want = if rk.is_empty() { None } else if valid.is_none() { Some(ErrorKind::Malformed) } else { *err };
                                    rec.outcome(format!("{:?}", e.kind()));
                                    // an invalid message and an invalid key: either may be reported
                                    let alt = if valid.is_none() { *err } else { None };
                                    rec.check(want == Some(e.kind()) || alt == Some(e.kind()) || rk.is_empty() && valid.is_none(), &what, || format!("expected {want:?}, got {e}"));
                                }
                                Ok(Ok(t)) => {
                                    rec.outcome("wrapped");
                                    if rk.is_empty() {
                                        rec.check(t == m, &what, || "no hop, yet the message changed".into());
                                        continue;
                                    }
                                    if !rec.check(err.is_none() && valid.is_some(), &what, || format!("expected an error ({err:?})")) {
                                        continue;
                                    }
                                    match peel_onion(&t, rk, to, &h, anon_enc_name(a), &ps) {
                                        Err(e) => rec.fail(&what, e),
                                        Ok((_, inner)) => {
                                            rec.check(serde_json::from_str::<Value>(&inner).ok() == valid, &what, || format!("inner message became {inner}"));
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        });
    }
    // try_parse_forward against the reference reading
    p.case("parse", |rec| {
        let types = ["https://didcomm.org/routing/2.0/forward", "https://didcomm.org/routing/2.0/forward/", "https://didcomm.org/routing/2.0/Forward", "https://didcomm.org/routing/1.0/forward", "forward", "", "http://didcomm.org/routing/2.0/forward", "https://didcomm.org/routing/2.0/forward#"];
        let bodies = [json!({"next": ns("did:example:bob")}), json!({"next": ""}), json!({"next": 1}), json!({"next": null}), json!({"next": ["x"]}), json!({"Next": "x"}), json!({}), json!([]), json!("next"), json!({"next": "x", "more": 1}), json!(null), json!({"body": {"next": "x"}})];
        let j = |v: Value| Attachment::json(v).finalize();
        let b = || Attachment::base64("e30".into()).finalize();
        let l = || Attachment::links(vec!["u".into()], "h".into()).finalize();
        let atts: Vec<Option<Vec<Attachment>>> = vec![
            None,
            Some(vec![]),
            Some(vec![j(json!({"a": 1}))]),
            Some(vec![j(json!(null))]),
            Some(vec![j(json!("s"))]),
            Some(vec![b()]),
            Some(vec![l()]),
            Some(vec![b(), j(json!({"a": 1}))]),
            Some(vec![j(json!({"a": 1})), b()]),
            Some(vec![j(json!({"a": 1})), j(json!({"a": 2}))]),
            Some(vec![l(), j(json!({"a": 2}))]),
        ];
        for t in types {
            for body in &bodies {
                for (i, at) in atts.iter().enumerate() {
                    for extra in [false, true] {
                        let mut m = Message::build("i".into(), t.into(), body.clone());
                        if let Some(a) = at {
                            m = m.attachments(a.clone());
                        }
                        if extra {
                            m = m.from(ns("did:example:x").into()).header("next".into(), json!("h")).thid("t".into());
                        }
                        let m = m.finalize();
                        let what = format!("{t};{body};{i};{extra}");
                        rec.eval(&what, true);
                        let want = ref_forward(&ref_json(&m));
                        let got = try_parse_forward(&m);
                        rec.outcome(if want.is_some() { "forward" } else { "other" });
                        rec.check(got.as_ref().map(|f| (f.next.clone(), f.forwarded_msg.clone())) == want && got.as_ref().map(|f| f.msg == &m) != Some(false), &what, || {
                            format!("reads {:?}, expected {want:?}", got.as_ref().map(|f| (&f.next, &f.forwarded_msg)))
                        });
                    }
                }
            }
        }
    });
    crate::many::c09(&mut p, env.thorough());
    p
}
