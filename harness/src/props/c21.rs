//! C21: messaging service selection against a reference model.
use crate::engine::{Env, Plan, Rec};
use crate::keys::KT;
use crate::msgs::*;
use crate::onion::*;
use crate::layers::peel;
use crate::world::*;
use didcomm::did::{Service, ServiceKind};
use didcomm::error::ErrorKind;
use didcomm::PackEncryptedOptions;
use serde_json::{json, Map};

/// A service description: (name, DIDComm?, uri, accept, routing keys)
#[derive(Clone, Copy, Debug)]
struct S {
    n: &'static str,
    didcomm: bool,
    uri: &'static str,
    accept: Option<&'static [&'static str]>,
    rk: &'static [&'static str],
}
const fn s(n: &'static str, uri: &'static str, accept: Option<&'static [&'static str]>, rk: &'static [&'static str]) -> S {
    S { n, didcomm: true, uri, accept, rk }
}
const M2X: &str = "did:example:m2#x1";
const M2P: &str = "did:example:m2#p2";
const M3: &str = "did:example:m3";
const V2: &[&str] = &["didcomm/v2"];

const KINDS_: [S; 22] = [
    s("plain", "http://a", None, &[]),
    s("empty-rk", "http://b", Some(&[]), &[M2X]),
    s("v2-rk2", "http://c", Some(V2), &[M2P, M3]),
    s("v1-rk", "http://d", Some(&["didcomm/aip2;env=rfc587"]), &[M2X]),
    S { n: "other", didcomm: false, uri: "http://e", accept: None, rk: &[] },
    s("med", "did:example:m1", Some(&["x", "didcomm/v2"]), &[]),
    s("med-rk", "did:example:m1", None, &[M3]),
    s("med-rec", "did:example:mrec", None, &[]),
    s("med-none", "did:example:mnone", None, &[M2X]),
    s("med-unres", "did:example:munres", None, &[]),
    s("med-multi", "did:example:mmulti", None, &[M2P]),
    s("v2-variants", "http://f", Some(&["didcomm/v2 ", "DIDComm/v2", "didcomm/v", "didcomm/v2;x"]), &[M2X]),
    s("empty-uri", "", None, &[]),
    s("not-did", "did:example", None, &[]),
    s("rk-unres", "http://g", None, &["did:example:nobody#x"]),
    s("rk-nokey", "http://h", None, &["did:example:m2#nope"]),
    s("rk-garbage", "http://i", None, &["garbage"]),
    s("med-v1", "did:example:mv1", None, &[]),
    s("med-self", "did:example:bob", None, &[]),
    s("rk-twice", "http://j", None, &[M2X, M2X]),
    s("med-wrapv1", "did:example:m1", Some(&["didcomm/aip1"]), &[]),
    s("rk-auth-only", "http://k", None, &["did:example:m2#e1"]),
];

fn to_service(id: &str, k: &S) -> Service {
    if k.didcomm {
        let rk: Vec<String> = k.rk.iter().map(|s| nm(s)).collect();
        service(id, &nm(k.uri), k.accept.map(|a| a.to_vec()), &rk)
    } else {
        Service { id: id.into(), service_endpoint: ServiceKind::Other { value: json!({"endpoint": k.uri}) } }
    }
}

fn accepts(k: &S) -> bool {
    k.didcomm && k.accept.map(|a| a.is_empty() || a.contains(&"didcomm/v2")).unwrap_or(true)
}

/// the services of the mediator DIDs
fn med_services(did: &str) -> Option<Vec<S>> {
    Some(match did {
        "did:example:m1" => vec![s("m1", "http://m1", None, &["did:example:m3#p1"])],
        "did:example:mrec" => vec![s("mrec", "did:example:m1", None, &[])],
        "did:example:mnone" => vec![S { n: "o", didcomm: false, uri: "x", accept: None, rk: &[] }],
        "did:example:mmulti" => vec![
            S { n: "o", didcomm: false, uri: "x", accept: None, rk: &[] },
            s("v1", "http://no", Some(&["v1"]), &[]),
            s("ok", "ws://mm", Some(V2), &[]),
            s("late", "http://late", Some(V2), &[]),
        ],
        "did:example:mv1" => vec![s("v1", "http://no", Some(&["v1"]), &[])],
        _ => return None,
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ask {
    None,
    Nth(usize),
    Unknown,
    Mediators,
}

/// None: not wrapped; Some(id, endpoint, keys)
fn model(list: &[S], ask: Ask, forward: bool) -> Result<Option<(String, String, Vec<String>)>, ErrorKind> {
    if !forward {
        return Ok(None);
    }
    let i = match ask {
        Ask::None => match list.iter().position(accepts) {
            None => return Ok(None),
            Some(i) => i,
        },
        Ask::Nth(i) if accepts(&list[i]) => i,
        _ => return Err(ErrorKind::IllegalArgument),
    };
    let sv = &list[i];
    let isdid = |u: &str| u.starts_with("did:") && u.split(':').count() >= 3;
    let mut keys: Vec<String> = vec![];
    let mut endpoint = sv.uri.to_string();
    if isdid(sv.uri) {
        let ms = if sv.uri == "did:example:bob" {
            list.to_vec()
        } else {
            med_services(sv.uri).ok_or(ErrorKind::DIDNotResolved)?
        };
        let m = ms.iter().find(|m| accepts(m)).ok_or(ErrorKind::InvalidState)?;
        if isdid(m.uri) {
            return Err(ErrorKind::InvalidState);
        }
        keys.push(sv.uri.to_string());
        endpoint = m.uri.to_string();
    }
    keys.extend(sv.rk.iter().map(|s| s.to_string()));
    if keys.is_empty() {
        return Ok(None);
    }
    // encryption goes from the innermost hop outwards
    for k in keys.iter().rev() {
        match k.as_str() {
            "did:example:nobody#x" | "garbage" => return Err(ErrorKind::DIDNotResolved),
            "did:example:m2#nope" | "did:example:m2#e1" => return Err(ErrorKind::DIDUrlNotFound),
            _ => {}
        }
    }
    Ok(Some((nm(&format!("did:example:bob#s{i}")), nm(&endpoint), keys.iter().map(|k| nm(k)).collect())))
}

fn parties(list: &[S]) -> Vec<Party> {
    let mut v = vec![];
    for n in ["alice", "m1", "m2", "m3", "mrec", "mnone", "mmulti", "mv1"] {
        let mut p = rich(n);
        if let Some(ss) = med_services(&format!("did:example:{n}")) {
            p.services = ss.iter().enumerate().map(|(i, k)| to_service(&nm(&format!("did:example:{n}#s{i}")), k)).collect();
        }
        v.push(p);
    }
    let mut bob = Party::new(ns("did:example:bob")).ka("x", KT::X25519).ka("p", KT::P256);
    bob.services = list.iter().enumerate().map(|(i, k)| to_service(&nm(&format!("did:example:bob#s{i}")), k)).collect();
    v.push(bob);
    v
}

fn one(rec: &mut Rec, ps: &[Party], list: &[S], ask: Ask, forward: bool, auth: bool, to: &str) {
    let net = Net::new(&docs_of(ps), &ps[0].secrets());
    let what = format!("ask={ask:?};fwd={forward};auth={auth};{to}");
    let to = ns(to);
    rec.eval(&what, forward);
    let msg = simple(Some(ns("did:example:alice")), Some(ns("did:example:bob")), "c21");
    let opts = PackEncryptedOptions {
        forward,
        messaging_service: match ask {
            Ask::None => None,
            Ask::Nth(i) => Some(nm(&format!("did:example:bob#s{i}"))),
            Ask::Unknown => Some(nm("did:example:bob#none")),
            Ask::Mediators => Some(nm("did:example:m1#s0")),
        },
        enc_alg_anon: ANON[1].clone(),
        ..PackEncryptedOptions::default()
    };
    let from = if auth { Some(ns("did:example:alice")) } else { None };
    let got = match rec.guarded(|| block_on(msg.pack_encrypted(to, from, None, &net, &net, &opts))) {
        Err(p) => return rec.fail(what, format!("panic: {p}")),
        Ok(g) => g,
    };
    let calls = net.calls();
    if !forward {
        rec.check(!calls.iter().any(|c| c.starts_with("resolve ") && ![ns("did:example:alice"), ns("did:example:bob")].contains(&&c[8..])), &what, || format!("forwarding disabled, yet {calls:?}"));
    }
    match (model(list, ask, forward), got) {
        (Err(k), Err(e)) => {
            rec.outcome(format!("{k:?}"));
            rec.check(e.kind() == k, &what, || format!("expected {k:?}, got {e}"));
        }
        (Err(k), Ok((_, md))) => rec.fail(&what, format!("expected {k:?}, packed with {:?}", md.messaging_service)),
        (Ok(w), Err(e)) => rec.fail(&what, format!("expected {w:?}, got {e}")),
        (Ok(w), Ok((text, md))) => {
            let got = md.messaging_service.map(|m| (m.id, m.service_endpoint));
            let want = w.as_ref().map(|(a, b, _)| (a.clone(), b.clone()));
            rec.check(got == want, &what, || format!("reports service {got:?}, expected {want:?}"));
            let keys = w.map(|x| x.2).unwrap_or_default();
            rec.outcome(format!("{} hops", keys.len()));
            match peel_onion(&text, &keys, to, &Map::new(), "XC20P", ps) {
                Err(e) => rec.fail(&what, e),
                Ok((_, inner)) => {
                    let r = peel(&inner, ps.last().unwrap(), ps, 0);
                    rec.check(matches!(&r, Ok(p) if p.plain == crate::layers::ref_json(&msg)), &what, || format!("innermost: {:?}", r.map(|p| p.plain)));
                }
            }
        }
    }
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C21",
        "exploration",
        "every list of 0..2 services (plus length 3 over a sub-alphabet; thorough: all length-3 lists) over 22 service descriptions \
         (accept absent/empty/v2/mixed/other/near-miss, other type, endpoint URL/DID/non-DID, mediator ordinary/recursive/without \
         service/unresolvable/several services, routing keys resolvable or not) x requested service {none, each, unknown, mediator's} \
         x forwarding on/off x anon/auth x addressing; error kind, reported service, hop order and inner envelope vs a reference model",
    );
    p.namings = if full { 4 } else { 2 };
    p.bounds = json!({"services": 3, "descriptions": KINDS_.len()});
    let mut lists: Vec<Vec<S>> = vec![vec![]];
    for a in KINDS_ {
        lists.push(vec![a]);
        for b in KINDS_ {
            lists.push(vec![a, b]);
            for c in KINDS_ {
                let sub = ["other", "v1-rk", "v2-rk2", "med", "plain", "med-none"];
                if full || [a, b, c].iter().all(|x| sub.contains(&x.n)) {
                    lists.push(vec![a, b, c]);
                }
            }
        }
    }
    for l in lists {
        let key = format!("{}", l.iter().map(|x| x.n).collect::<Vec<_>>().join("+"));
        p.case(if key.is_empty() { "none".into() } else { key }, move |rec| {
            let ps = parties(&l);
            let mut asks = vec![Ask::None, Ask::Unknown, Ask::Mediators];
            asks.extend((0..l.len()).map(Ask::Nth));
            for ask in asks {
                for forward in [true, false] {
                    for auth in [false, true] {
                        let tos: &[&str] = if auth || !forward { &["did:example:bob"] } else { &["did:example:bob", "did:example:bob#p"] };
                        for to in tos {
                            one(rec, &ps, &l, ask, forward, auth, to);
                        }
                    }
                }
            }
            rec.sample(|| json!({"services": l.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>()}));
        });
    }
    crate::many::c21(&mut p, env.thorough());
    crate::near::c21(&mut p, env.thorough());
    crate::vals::c21(&mut p);
    p
}
