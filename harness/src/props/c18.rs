//! C18: packing refuses invalid or contradictory addressing before doing anything, and nothing else.
use crate::engine::{Env, Plan, Rec};
use crate::keys::*;
use crate::msgs::*;
use crate::ops::{run, Op, Out};
use crate::world::*;
use didcomm::error::ErrorKind;
use didcomm::{Message, PackEncryptedOptions};
use serde_json::json;
use std::sync::Arc;

/// What the argument is: Some(true) a DID or DID URL, Some(false) neither, None: not specified.
#[derive(Clone)]
struct Arg {
    s: String,
    did: Option<bool>,
}
fn args(full: bool) -> Vec<Arg> {
    let a = |s: &str, did| Arg { s: s.into(), did };
    let mut v = vec![
        a("did:example:alice", Some(true)),
        a("did:example:alice#k", Some(true)),
        a("did:example:bob", Some(true)),
        a("did:example:bob#k", Some(true)),
        a("did:example:carol", Some(true)),
        a("did:example:nobody", Some(true)),
        a("did:web:a.b:path:more", Some(true)),
        a("did:example:bo", Some(true)),
        a("did:example:bobx#k", Some(true)),
        a("", Some(false)),
        a("bob", Some(false)),
        a("did", Some(false)),
        a("did:example", Some(false)),
        a("example:example:bob", Some(false)),
        a("http://example.com:80/x", Some(false)),
        a("#k", Some(false)),
    ];
    if full {
        v.extend(vec![
            a("did:x:y", Some(true)),
            a("did:example:alice#other", Some(true)),
            a("did:peer:2.Ez6LSbysY2xFMRpGMhb7tFTLMpeuPRaqaWM1yECx2AtzE3KCc.Vz6#1", Some(true)),
            a(":::", Some(false)),
            a("xdid:example:bob", Some(false)),
            a("diddy:example:bob", Some(false)),
            a("mailto:did:example", Some(false)),
            a("\u{0}", Some(false)),
            a("did::", None),
            a("did:example:", None),
            a("DID:example:bob", None),
            a(" did:example:bob", None),
            a("did:example:bob ", None),
            a("did:a#b:c", None),
            a("did:example:bob#", None),
        ]);
    }
    v
}
fn did(s: &str) -> &str {
    s.split('#').next().unwrap()
}

fn world() -> Vec<Party> {
    ["alice", "bob", "carol"].iter().map(|n| Party::new(&format!("did:example:{n}")).key("k", KT::X25519, Enc::Jwk, true, false).key("s", KT::Ed25519, Enc::Jwk, false, true)).collect()
}

/// The rule of the property.
fn rule(to: &Arg, from: Option<&Arg>, by: Option<&Arg>, m: &Message) -> Option<bool> {
    let all: Vec<Option<bool>> = [Some(to), from, by].into_iter().flatten().map(|a| a.did).collect();
    if all.contains(&Some(false)) {
        return Some(false);
    }
    let mut sure = !all.contains(&None);
    if let Some(l) = &m.to {
        if l.is_empty() {
            sure = false; // "when it has some"
        } else if !l.iter().any(|x| x == did(&to.s)) {
            // an addressee written as a key id is not specified
            if l.iter().any(|x| x.contains('#')) || to.did.is_none() {
                sure = false;
            } else {
                return Some(false);
            }
        }
    }
    if let (Some(f), Some(mf)) = (from, &m.from) {
        if did(&f.s) != mf {
            if mf.contains('#') || f.did.is_none() {
                sure = false;
            } else {
                return Some(false);
            }
        }
    }
    sure.then_some(true)
}

fn judge(rec: &mut Rec, what: &str, want: Option<bool>, o: &Out, calls: &[String]) {
    rec.outcome(format!("{want:?} {}", o.label()));
    let refused = o.kind() == Some(ErrorKind::IllegalArgument);
    match want {
        Some(false) => {
            rec.check(refused, what, || format!("not refused as an illegal argument: {o:?}"));
        }
        Some(true) => {
            rec.check(!refused, what, || "refused although nothing contradicts".to_string());
        }
        None => {}
    }
    if refused {
        rec.check(calls.is_empty(), what, || format!("refused after lookups {calls:?}"));
    }
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C18",
        "exploration",
        "recipient x sender x signer arguments from a list of DIDs, DID URLs, and strings that are neither, x message addressee \
         lists x message senders x options, against the rule; every lookup is recorded. Non-trivial: the rule refuses, or some \
         argument or header is present beyond the recipient",
    );
    p.assumptions = vec![
        "strings that resemble a DID (empty parts, capitals, blanks) may be accepted or refused".into(),
        "an empty addressee list, and addressees written as key ids, may be either".into(),
    ];
    let w = Arc::new(world());
    let aa = Arc::new(args(full));
    let tos: Arc<Vec<Option<Vec<&str>>>> = Arc::new(vec![
        None,
        Some(vec![]),
        Some(vec!["did:example:bob"]),
        Some(vec!["did:example:alice"]),
        Some(vec!["did:example:alice", "did:example:bob"]),
        Some(vec!["did:example:bob", "did:example:carol", "did:example:nobody"]),
        Some(vec!["did:example:bobx", "did:example:bo"]),
        Some(vec!["did:example:bob#k"]),
        Some(vec!["did:web:a.b:path:more", "did:x:y"]),
        Some(vec![""]),
        Some(vec!["DID:EXAMPLE:BOB"]),
        Some(vec!["did:example:carol", "did:example:bob", "did:example:bob"]),
    ]);
    let froms: Arc<Vec<Option<&str>>> = Arc::new(vec![
        None,
        Some("did:example:alice"),
        Some("did:example:bob"),
        Some("did:example:alice#k"),
        Some("did:example:al"),
        Some(""),
        Some("did:example:Alice"),
        Some("did:example:alice "),
    ]);
    for ti in 0..aa.len() {
        for fi in 0..=aa.len() {
            let (w, aa, tos, froms) = (w.clone(), aa.clone(), tos.clone(), froms.clone());
            let fname = if fi == aa.len() { "none".to_string() } else { fi.to_string() };
            p.case(format!("enc/{ti}/{fname}"), move |rec| {
                let docs = docs_of(&w);
                let secrets: Vec<_> = w.iter().flat_map(|p| p.secrets()).collect();
                let net = Net::new(&docs, &secrets);
                let to = &aa[ti];
                let from = aa.get(fi);
                for bi in 0..=aa.len() {
                    let by = aa.get(bi);
                    for (i, mt) in tos.iter().enumerate() {
                        for (j, mf) in froms.iter().enumerate() {
                            let mut m = simple(None, None, "a");
                            m.to = mt.as_ref().map(|l| l.iter().map(|s| s.to_string()).collect());
                            m.from = mf.map(|s| s.to_string());
                            let want = rule(to, from, by, &m);
                            // accepted ones differ only in what they look up: spread the options over them
                            for k in if want == Some(false) { 0..4 } else { (i + j) % 4..(i + j) % 4 + 1 } {
                                let opts = PackEncryptedOptions {
                                    protect_sender: k & 1 == 1,
                                    forward: k & 2 == 2,
                                    messaging_service: (k == 3).then(|| "did:example:bob#none".to_string()),
                                    ..Default::default()
                                };
                                let what = format!("{bi}.{i}.{j}.{k}");
                                rec.eval(&what, want == Some(false) || from.is_some() || by.is_some() || mt.is_some());
                                let op = Op::Enc { msg: m.clone(), to: to.s.clone(), from: from.map(|a| a.s.clone()), sign: by.map(|a| a.s.clone()), opts: opts.clone() };
                                net.log.borrow_mut().clear();
                                let o = run(&op, &net);
                                let calls = net.calls();
                                if k == 3 && want == Some(true) && o.kind() == Some(ErrorKind::IllegalArgument) {
                                    // the unknown service id is what is illegal
                                    rec.outcome("unknown service");
                                    continue;
                                }
                                judge(rec, &what, want, &o, &calls);
                                // everybody known and able: it must really succeed
                                let known = |s: &str| ["did:example:alice", "did:example:bob", "did:example:carol"].contains(&did(s));
                                let kid_ok = |s: &str, k: &str| !s.contains('#') || s.ends_with(k) && s.matches('#').count() == 1;
                                if want == Some(true)
                                    && k != 3
                                    && known(&to.s) && kid_ok(&to.s, "#k")
                                    && from.map_or(true, |f| known(&f.s) && kid_ok(&f.s, "#k"))
                                    && by.map_or(true, |b| known(&b.s) && !b.s.contains('#'))
                                {
                                    rec.check(matches!(o, Out::Packed(..)), &what, || format!("valid addressing fails: {o:?}"));
                                }
                            }
                            rec.sample(|| json!({"to": to.s, "from": from.map(|a| &a.s), "sign_by": by.map(|a| &a.s), "message.to": m.to, "message.from": m.from, "accept": want}));
                        }
                    }
                }
            });
        }
    }
    let (w1, a1, tos1, froms1) = (w.clone(), aa.clone(), tos.clone(), froms.clone());
    p.case("signed", move |rec| {
        let docs = docs_of(&w1);
        let secrets: Vec<_> = w1.iter().flat_map(|p| p.secrets()).collect();
        let net = Net::new(&docs, &secrets);
        for (bi, by) in a1.iter().enumerate() {
            for (i, mt) in tos1.iter().enumerate() {
                for (j, mf) in froms1.iter().enumerate() {
                    let mut m = simple(None, None, "a");
                    m.to = mt.as_ref().map(|l| l.iter().map(|s| s.to_string()).collect());
                    m.from = mf.map(|s| s.to_string());
                    let what = format!("{bi}.{i}.{j}");
                    rec.eval(&what, true);
                    net.log.borrow_mut().clear();
                    let o = run(&Op::Signed { msg: m, by: by.s.clone() }, &net);
                    let calls = net.calls();
                    judge(rec, &what, by.did, &o, &calls);
                    if ["did:example:alice", "did:example:bob", "did:example:carol"].contains(&by.s.as_str()) {
                        rec.check(matches!(o, Out::Packed(..)), &what, || format!("valid signer fails: {o:?}"));
                    }
                }
            }
        }
    });
    p.bounds = json!({"arguments": aa.len(), "addressee lists": tos.len(), "message senders": froms.len()});
    crate::near::c18(&mut p, env.thorough());
    p
}
