//! C32: delivery through mediators that run the library: an explicit exploration of the network.
use crate::engine::{Env, Plan, Rec};
use crate::keys::{Enc, KT};
use crate::layers::ref_json;
use crate::msgs::*;
use crate::world::*;
use didcomm::algorithms::AnonCryptAlg;
use didcomm::error::ErrorKind;
use didcomm::protocols::routing::{try_parse_forward, wrap_in_forward};
use didcomm::{Message, PackEncryptedOptions, UnpackMetadata, UnpackOptions};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};

/// How a node treats what it relays and what it receives.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Habit {
    /// wraps again for the next node, so many times
    wraps: u8,
    /// addresses that wrapping to the key ids the forward names rather than to DIDs
    unwrap: bool,
}

struct Site {
    ps: Vec<Party>,
}
const ALICE: usize = 0;
const BOB: usize = 1;

fn site(endpoint: usize, keys: &[String]) -> Site {
    let alice = rich("alice");
    let mut bob = rich("bob");
    let m = mediators();
    bob.services = vec![service(
        &format!("{}#inbox", bob.did),
        match endpoint {
            0 => "https://bob.example",
            1 => &m[0].did,
            _ => &m[2].did,
        },
        Some(vec!["didcomm/v2"]),
        keys,
    )];
    Site { ps: [alice, bob].into_iter().chain(m).collect() }
}
fn mediators() -> Vec<Party> {
    vec![
        Party::new(&nm("did:example:m1"))
            .key("x1", KT::X25519, Enc::Jwk, true, false)
            .key("x2", KT::X25519, Enc::B58, true, false)
            .service(service("m1#s", "https://m1.example", None, &[])),
        Party::new(&nm("did:example:m2")).key("p1", KT::P256, Enc::Jwk, true, false).key("x1", KT::X25519, Enc::Mb, true, false),
        Party::new(&nm("did:example:m3"))
            .key("p1", KT::P256, Enc::Jwk, true, false)
            .service(service("m3#s", "https://m3.example", Some(vec!["didcomm/v2"]), &[])),
    ]
}
impl Site {
    fn net(&self, who: usize) -> Net {
        Net::new(&docs_of(&self.ps), &self.ps[who].secrets())
    }
    fn owner(&self, next: &str) -> Option<usize> {
        let d = next.split('#').next().unwrap_or("");
        self.ps.iter().position(|p| p.did == d)
    }
}

enum Got {
    Message(Box<Message>, Box<UnpackMetadata>),
    Relay(usize, String, String),
    Err(ErrorKind, String),
}

/// One delivery: the node's program over the library.
fn deliver(s: &Site, at: usize, text: &str, h: Habit, alg: &AnonCryptAlg) -> Got {
    let net = s.net(at);
    let o = UnpackOptions { expect_decrypt_by_all_keys: false, unwrap_re_wrapping_forward: h.unwrap };
    let (m, md) = match block_on(Message::unpack(text, &net, &net, &o)) {
        Ok(x) => x,
        Err(e) => return Got::Err(e.kind(), e.to_string()),
    };
    let Some(f) = try_parse_forward(&m) else { return Got::Message(Box::new(m), Box::new(md)) };
    let next = f.next.clone();
    let Some(to) = s.owner(&next) else { return Got::Err(ErrorKind::IoError, format!("nobody is {next}")) };
    let mut t = serde_json::to_string(&f.forwarded_msg).unwrap();
    // (a forward to itself is just opened again)
    if to != at {
        let mut next = next.clone();
        for _ in 0..h.wraps {
            match block_on(wrap_in_forward(&t, None, &next, &vec![s.ps[to].did.clone()], alg, &net)) {
                Ok(x) => t = x,
                Err(e) => return Got::Err(e.kind(), format!("wrapping again: {e}")),
            }
            next = s.ps[to].did.clone();
        }
    }
    Got::Relay(to, next, t)
}

fn facts(m: &UnpackMetadata, whole: bool) -> Value {
    let mut v = json!({"encrypted": m.encrypted, "authenticated": m.authenticated, "non_repudiation": m.non_repudiation,
        "from": m.encrypted_from_kid, "sign_from": m.sign_from, "alg_auth": format!("{:?}", m.enc_alg_auth),
        "sign_alg": format!("{:?}", m.sign_alg), "signed": m.signed_message.is_some(), "prior": m.from_prior.is_some()});
    if whole {
        v["anonymous"] = json!(m.anonymous_sender);
        v["alg_anon"] = json!(format!("{:?}", m.enc_alg_anon));
        v["to"] = json!(m.encrypted_to_kids);
        v["rewrapped"] = json!(m.re_wrapped_in_forward);
    }
    v
}

#[derive(Clone)]
struct Cfg {
    endpoint: usize,
    keys: Vec<String>,
    to: String,
    from: Option<String>,
    sign: Option<String>,
    protect: bool,
    alg: AnonCryptAlg,
    headers: bool,
}
impl Cfg {
    fn opts(&self, forward: bool) -> PackEncryptedOptions {
        PackEncryptedOptions {
            protect_sender: self.protect,
            forward,
            forward_headers: self.headers.then(|| HashMap::from([("expires_time".to_string(), json!(99)), ("x".to_string(), json!({"a": []}))])),
            messaging_service: None,
            enc_alg_auth: Default::default(),
            enc_alg_anon: self.alg.clone(),
        }
    }
}

fn explore(rec: &mut Rec, c: &Cfg, habits: &[Vec<Habit>], lost: bool) {
    let s = site(c.endpoint, &c.keys);
    let msg = simple(Some(&s.ps[ALICE].did), Some(&s.ps[BOB].did), "end to end");
    let net = s.net(ALICE);
    let name = format!("{}-{}-{:?}-{:?}-{}-{}", c.endpoint, c.keys.join("+"), c.to, c.from, c.sign.is_some(), c.protect).replace("did:example:", "");
    rec.begin(&name);
    let packed = block_on(msg.pack_encrypted(&c.to, c.from.as_deref(), c.sign.as_deref(), &net, &net, &c.opts(true)));
    let (text, md) = match packed {
        Ok(x) => x,
        Err(e) => return rec.fail(&name, format!("packing: {e}")),
    };
    // the same message handed over directly
    let direct = block_on(msg.pack_encrypted(&c.to, c.from.as_deref(), c.sign.as_deref(), &net, &net, &c.opts(false))).expect("direct").0;
    let bobs = s.net(BOB);
    let (dm, dmd) = block_on(Message::unpack(&direct, &bobs, &bobs, &UnpackOptions::default())).expect("direct");
    // where the metadata says to send it, and the nodes it must pass
    let mut route: Vec<usize> = match c.endpoint {
        0 => vec![],
        1 => vec![2],
        _ => vec![4],
    };
    route.extend(c.keys.iter().map(|k| s.owner(k).unwrap()));
    route.push(BOB);
    let uri = md.messaging_service.as_ref().map(|m| m.service_endpoint.clone());
    let want_uri = match c.endpoint {
        1 => "https://m1.example",
        2 => "https://m3.example",
        _ => "https://bob.example",
    };
    let want_uri = (c.endpoint > 0 || !c.keys.is_empty()).then_some(want_uri);
    rec.check(uri.as_deref() == want_uri, &name, || format!("to be sent to {uri:?}, the service says {want_uri:?}"));

    for hs in habits {
        let what = format!("{name}-{}", hs.iter().map(|h| format!("{}{}", h.wraps, if h.unwrap { "u" } else { "-" })).collect::<Vec<_>>().join(""));
        rec.begin(&what);
        rec.eval(&what, true);
        rec.traces += 1;
        let rewraps = hs.iter().any(|h| h.wraps > 0);
        // the network: what is in flight, each with the nodes it has passed; a message may also be delivered twice
        let mut flight: Vec<(usize, String, Vec<usize>, bool)> = vec![(route[0], text.clone(), vec![], false)];
        let mut arrived = 0;
        let mut seen = BTreeSet::new();
        while let Some((at, t, path, again)) = flight.pop() {
            rec.transitions += 1;
            if path.len() > 40 {
                rec.fail(&what, format!("goes round: {path:?}"));
                break;
            }
            let mut path = path;
            path.push(at);
            rec.state(&(&what, &path, t.len()));
            match deliver(&s, at, &t, hs[at], &c.alg) {
                Got::Err(k, e) => rec.fail(&what, format!("{} fails after {path:?}: {k:?} {e}", s.ps[at].did)),
                Got::Relay(to, _, t2) => {
                    rec.check(at != BOB || to == BOB, &what, || "the addressee relays it".into());
                    flight.push((to, t2.clone(), path.clone(), again));
                    // delivered twice, once on the way
                    if !again && seen.insert(path.clone()) && hs.iter().all(|h| h.wraps == hs[0].wraps) {
                        flight.push((to, t2, path, true));
                        arrived -= 1;
                    }
                }
                Got::Message(m, d) => {
                    arrived += 1;
                    let (mut went, mut short) = (path.clone(), route.clone());
                    // nodes that open exactly one layer at a time pass one node per layer
                    if rewraps || hs.iter().enumerate().any(|(i, h)| i != BOB && h.unwrap && route.contains(&i)) {
                        went.dedup();
                        short.dedup();
                    }
                    rec.check(at == BOB && went == short, &what, || format!("opened at {} after {went:?}, the route is {short:?}", s.ps[at].did));
                    rec.check(ref_json(&m) == ref_json(&dm), &what, || format!("arrives as {}", ref_json(&m)));
                    let w = !rewraps;
                    rec.check(facts(&d, w) == facts(&dmd, w), &what, || format!("reported {}\n directly it is {}", facts(&d, w), facts(&dmd, w)));
                    if hs[BOB].unwrap && hs[route[route.len().saturating_sub(2)]].wraps > 0 && route.len() > 1 {
                        rec.check(d.re_wrapped_in_forward, &what, || "re-wrapped, but not reported".into());
                    }
                }
            }
        }
        rec.outcome(if arrived == 1 { "arrives" } else { "does not arrive once" });
        rec.check(arrived == 1, &what, || format!("arrived {arrived} times more or less than it was sent"));
    }
    if lost {
        // given to any node that is not the next one, it is not opened and goes nowhere
        for at in 0..s.ps.len() {
            if at == route[0] {
                continue;
            }
            rec.transitions += 1;
            let r = deliver(&s, at, &text, Habit { wraps: 0, unwrap: true }, &c.alg);
            rec.eval(&(&name, at), true);
            let ok = matches!(&r, Got::Err(ErrorKind::SecretNotFound, _));
            rec.check(ok, format!("{name}-stray-{at}"), || match r {
                Got::Err(k, e) => format!("{k:?} {e}"),
                Got::Relay(..) => "relayed".into(),
                Got::Message(..) => "opened".into(),
            });
        }
    }
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C32",
        "model_checking",
        "a network in which every node runs the library (unpack, parse the forward, hand on, possibly wrapped again once or twice): \
         routing-key lists up to length 2 (3) over DIDs and key ids of three mediators with different kinds of keys x endpoint (an \
         address, or either of two mediators' DIDs) x recipient as DID and each kind of key id x protection x content algorithm x \
         every assignment of re-wrapping habits and unwrapping options to the nodes x one duplicated delivery at every point: what \
         arrives equals the message handed over directly, passes exactly the nodes of the route, and opens nowhere else. State: \
         (configuration, path, text)",
    );
    p.namings = if full { 3 } else { 2 };
    p.bounds = json!({"routing keys": if full { 3 } else { 2 }, "mediators": 3, "re-wraps": 2});
    let m = mediators();
    let hops = [m[0].did.clone(), m[0].kid("x2"), m[1].did.clone(), m[1].kid("x1"), m[2].kid("p1")];
    let mut lists: Vec<Vec<String>> = vec![vec![]];
    let mut a = 0;
    for _ in 0..if full { 3 } else { 2 } {
        let b = lists.len();
        for i in a..b {
            for h in &hops {
                lists.push([lists[i].clone(), vec![h.clone()]].concat());
            }
        }
        a = b;
    }
    for endpoint in 0..3 {
        for (li, keys) in lists.iter().enumerate() {
            let keys = keys.clone();
            p.case(format!("route/{endpoint}/{li}"), move |rec| {
                // (names differ between the repetitions of the exploration)
                let s = site(endpoint, &[]);
                let (alice, bob) = (&s.ps[ALICE], &s.ps[BOB]);
                // every node its own habit while few nodes matter, common habits otherwise
                let on_route: BTreeSet<usize> = keys.iter().filter_map(|k| s.owner(k)).chain([[BOB, 2, 4][endpoint], BOB]).collect();
                let choices = [(0, true), (1, true), (2, false), (0, false)].map(|(wraps, unwrap)| Habit { wraps, unwrap });
                let mut habits: Vec<Vec<Habit>> = vec![vec![choices[0]; s.ps.len()]];
                for n in &on_route {
                    let c = if *n == BOB { vec![choices[0], choices[3]] } else { choices.to_vec() };
                    habits = habits
                        .iter()
                        .flat_map(|h| {
                            c.iter().map(|x| {
                                let mut h = h.clone();
                                h[*n] = *x;
                                h
                            })
                        })
                        .collect();
                }
                let mut i = 0;
                for to in [bob.did.clone(), bob.kid("x2"), bob.kid("p1")] {
                    for (from, sign, protect) in [(0, 0, false), (1, 0, false), (1, 0, true), (0, 1, false), (1, 1, true)] {
                        let from = match (from, to.ends_with(&nfrag("p1"))) {
                            (0, _) => None,
                            (_, false) => Some(alice.did.clone()),
                            (_, true) => Some(alice.kid("p1")),
                        };
                        let c = Cfg {
                            endpoint,
                            keys: keys.clone(),
                            to: to.clone(),
                            from,
                            sign: (sign == 1).then(|| alice.did.clone()),
                            protect,
                            alg: ANON[i % 3].clone(),
                            headers: i % 2 == 1,
                        };
                        i += 1;
                        let some: Vec<Vec<Habit>> =
                            if full && keys.len() < 3 { habits.clone() } else { habits.iter().enumerate().filter(|(k, _)| (k + i) % 4 == 0 || *k == 0).map(|x| x.1.clone()).collect() };
                        explore(rec, &c, &some, true);
                    }
                }
                rec.sample(|| json!({"routing_keys": keys, "habits": habits.len()}));
            });
        }
    }
    p
}
