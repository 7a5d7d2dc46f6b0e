//! C06: key negotiation against a reference model, over all small documents.
use crate::engine::{Env, Plan, Rec};
use crate::keys::{Enc, Key, KT};
use crate::layers::*;
use crate::msgs::*;
use crate::world::*;
use didcomm::did::{DIDDoc, VerificationMethodType};
use didcomm::error::ErrorKind;
use didcomm::secrets::Secret;
use serde_json::json;

/// Kinds of key-agreement entries.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum K {
    X,
    P,
    /// known key types that cannot agree keys
    E,
    S,
    /// unknown method type
    U,
    /// no verification method in the document
    M,
}
const ALL: [K; 6] = [K::X, K::P, K::E, K::S, K::U, K::M];

#[derive(Clone)]
struct Side {
    did: String,
    ks: Vec<K>,
    party: Party,
    doc: DIDDoc,
    secrets: Vec<Secret>,
}

fn side(name: &str, ks: &[K]) -> Side {
    let mut p = Party::new(&nm(&format!("did:example:{name}")));
    for (i, k) in ks.iter().enumerate() {
        let kt = match k {
            K::X | K::U | K::M => KT::X25519,
            K::P => KT::P256,
            K::E => KT::Ed25519,
            K::S => KT::K256,
        };
        // alternate encodings so that types, not encodings, decide
        let enc = if kt == KT::X25519 && i == 1 { Enc::Mb } else if kt == KT::X25519 && i == 2 { Enc::B58 } else { Enc::Jwk };
        p = p.key(&format!("k{i}"), kt, enc, true, false);
    }
    // keys of both types that are not for key agreement must never be used
    p = p.key("sigx", KT::X25519, Enc::Jwk, false, true).key("sigp", KT::P256, Enc::Jwk, false, true);
    let mut doc = p.doc();
    let secrets = p.secrets();
    for (i, k) in ks.iter().enumerate() {
        let kid = p.kid(&format!("k{i}"));
        match k {
            K::U => doc.verification_method.iter_mut().find(|v| v.id == kid).unwrap().type_ = VerificationMethodType::Other,
            K::M => doc.verification_method.retain(|v| v.id != kid),
            _ => {}
        }
    }
    doc.verification_method.reverse(); // position must not matter
    Side { did: p.did.clone(), ks: ks.to_vec(), party: p, doc, secrets }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Addr {
    Did,
    Key(usize),
    Unknown,
    /// listed for authentication only
    AuthOnly,
}
fn addr(s: &Side, a: Addr) -> String {
    match a {
        Addr::Did => s.did.clone(),
        Addr::Key(i) => s.party.kid(&format!("k{i}")),
        Addr::Unknown => format!("{}#nope", s.did),
        Addr::AuthOnly => s.party.kid("sigx"),
    }
}
fn pick(s: &Side, a: Addr) -> Vec<usize> {
    match a {
        Addr::Did => (0..s.ks.len()).collect(),
        Addr::Key(i) => vec![i],
        _ => vec![],
    }
}

/// The documented negotiation: (from kid index, to kid indices) or an error kind.
fn model(from: Option<(&Side, Addr, u32)>, to: (&Side, Addr)) -> Result<(Option<usize>, Vec<usize>), ErrorKind> {
    let rk = pick(to.0, to.1);
    if let Some((f, fa, held)) = from {
        let mut fk = pick(f, fa);
        if fk.is_empty() {
            return Err(ErrorKind::DIDUrlNotFound);
        }
        fk.retain(|i| held >> i & 1 == 1);
        if fk.is_empty() {
            return Err(ErrorKind::SecretNotFound);
        }
        if fk.iter().any(|i| f.ks[*i] == K::M) {
            return Err(ErrorKind::Malformed);
        }
        if rk.is_empty() {
            return Err(ErrorKind::DIDUrlNotFound);
        }
        if rk.iter().any(|i| to.0.ks[*i] == K::M) {
            return Err(ErrorKind::Malformed);
        }
        let c = fk
            .iter()
            .find(|i| f.ks[**i] != K::U && rk.iter().any(|r| to.0.ks[*r] == f.ks[**i]))
            .ok_or(ErrorKind::NoCompatibleCrypto)?;
        let k = f.ks[*c];
        if !matches!(k, K::X | K::P) {
            return Err(ErrorKind::Unsupported);
        }
        Ok((Some(*c), rk.into_iter().filter(|r| to.0.ks[*r] == k).collect()))
    } else {
        if rk.is_empty() {
            return Err(ErrorKind::DIDUrlNotFound);
        }
        if rk.iter().any(|i| to.0.ks[*i] == K::M) {
            return Err(ErrorKind::Unsupported);
        }
        let k = rk.iter().map(|i| to.0.ks[*i]).find(|k| *k != K::U).ok_or(ErrorKind::InvalidState)?;
        if !matches!(k, K::X | K::P) {
            return Err(ErrorKind::InvalidState);
        }
        Ok((None, rk.into_iter().filter(|r| to.0.ks[*r] == k).collect()))
    }
}

fn one(rec: &mut Rec, f: &Side, fa: Option<(Addr, u32)>, t: &Side, ta: Addr, protect: bool) {
    one_via(rec, f, fa, t, ta, protect, Via::Off)
}

fn one_via(rec: &mut Rec, f: &Side, fa: Option<(Addr, u32)>, t: &Side, ta: Addr, protect: bool, via: Via) {
    let held = fa.map(|x| x.1).unwrap_or(u32::MAX);
    let secrets: Vec<Secret> = f
        .secrets
        .iter()
        .filter(|s| !(0..f.ks.len()).any(|i| s.id == f.party.kid(&format!("k{i}")) && held >> i & 1 == 0))
        .cloned()
        .collect();
    let net = Net::new(&[f.doc.clone(), t.doc.clone()], &secrets);
    let m = Mode::enc(&addr(t, ta), fa.map(|x| addr(f, x.0)).as_deref(), None, protect, &ANON[protect as usize]).via(via);
    let want = model(fa.map(|(a, h)| (f, a, h)), (t, ta));
    let what = format!("{:?}/{}/held{:b}", f.ks, m.name(), held & 7).replace(' ', "");
    rec.eval(&what, true);
    let msg = simple(None, None, "c06");
    let got = match rec.guarded(|| block_on(m.pack(&msg, &net))) {
        Ok(g) => g,
        Err(p) => return rec.fail(what, format!("panic: {p}")),
    };
    match (want, got) {
        (Err(k), Err(e)) => {
            rec.outcome(format!("{k:?}"));
            rec.check(e.kind() == k, &what, || format!("expected error {k:?}, got {e}"));
        }
        (Err(k), Ok((_, md))) => rec.fail(what, format!("expected error {k:?}, got an envelope for {:?}", md.map(|m| m.to_kids))),
        (Ok(w), Err(e)) => rec.fail(what, format!("expected keys {w:?}, got {e}")),
        (Ok((wf, wt)), Ok((text, md))) => {
            rec.outcome("packed");
            let md = md.unwrap();
            let wf = wf.map(|i| f.party.kid(&format!("k{i}")));
            let wt: Vec<String> = wt.iter().map(|i| t.party.kid(&format!("k{i}"))).collect();
            rec.check(md.from_kid == wf && md.to_kids == wt, &what, || {
                format!("metadata reports {:?} -> {:?}, expected {wf:?} -> {wt:?}", md.from_kid, md.to_kids)
            });
            // what the envelope really uses
            match peel(&text, &t.party, &[f.party.clone(), t.party.clone()], 0) {
                Err(e) => rec.fail(&what, format!("independent opening failed: {e}")),
                Ok(p) => {
                    for l in &p.layers {
                        let to = match l {
                            Layer::Auth { from, to } => {
                                rec.check(Some(&from.0) == wf.as_ref(), &what, || format!("envelope made with {}", from.0));
                                to
                            }
                            Layer::Anon { to, .. } => to,
                            _ => continue,
                        };
                        let to: Vec<String> = to.iter().map(|x| x.0.clone()).collect();
                        rec.check(to == wt, &what, || format!("envelope addresses {to:?}, expected {wt:?}"));
                    }
                    let n = 1 + (wf.is_some() && protect) as usize;
                    rec.check(p.layers.len() == n && p.layers.iter().any(|l| matches!(l, Layer::Auth { .. })) == wf.is_some(), &what, || {
                        format!("layers {}", stack_name(&p.layers))
                    });
                }
            }
        }
    }
}

fn seqs(al: &[K], max: usize) -> Vec<Vec<K>> {
    let mut out = vec![vec![]];
    let mut fr = out.clone();
    for _ in 0..max {
        fr = fr.iter().flat_map(|s: &Vec<K>| al.iter().map(move |k| [&s[..], &[*k]].concat())).collect();
        out.extend(fr.iter().cloned());
    }
    out
}

pub fn plan(env: &Env) -> Plan {
    let mut p = Plan::new(
        "C06",
        "exploration",
        "every recipient and sender key-agreement list of length 0..2 (plus length-3 lists over {X25519, P-256, unsupported}) over \
         {X25519, P-256, Ed25519, secp256k1, unknown type, missing method} x every held subset of sender secrets x recipient and \
         sender addressed as DID, each key id, an unknown id, an authentication-only id; outcome, metadata and the keys really used \
         (independent opener) compared with a reference model of the negotiation",
    );
    p.namings = 4;
    let full = env.thorough();
    p.bounds = json!({"list_len": if full {3} else {2}, "kinds": 6});
    let small = seqs(&ALL, 2);
    let long: Vec<Vec<K>> = seqs(if full { &ALL[..] } else { &[K::X, K::P, K::U] }, 3).into_iter().filter(|s| s.len() == 3).collect();
    let addrs = move |n: usize| {
        let mut v = vec![Addr::Did];
        v.extend((0..n).map(Addr::Key));
        v.push(Addr::Unknown);
        v.push(Addr::AuthOnly);
        v
    };
    for r in small.iter().chain(&long) {
        let r = r.clone();
        let longs = long.clone();
        let smalls = small.clone();
        p.case(format!("to/{r:?}").replace(' ', ""), move |rec| {
            let t = side("bob", &r);
            let dummy = side("alice", &[]);
            for ta in addrs(r.len()) {
                one(rec, &dummy, None, &t, ta, false);
            }
            let senders: Vec<Vec<K>> = if r.len() <= 2 { smalls.iter().chain(if full || r.len() == 2 { &longs[..] } else { &[] }).cloned().collect() }
                else { smalls.clone() };
            for s in &senders {
                let f = side("alice", s);
                let big = s.len() == 3 || r.len() == 3;
                for held in 0..1u32 << s.len() {
                    if big && !full && held != (1 << s.len()) - 1 && held != 6 {
                        continue;
                    }
                    for fa in addrs(s.len()) {
                        if big && fa != Addr::Did && !full {
                            continue;
                        }
                        for ta in addrs(r.len()) {
                            if (big && ta != Addr::Did && !full) || (matches!(ta, Addr::Unknown | Addr::AuthOnly) && held + 1 != 1 << s.len()) {
                                continue;
                            }
                            one(rec, &f, Some((fa, held)), &t, ta, false);
                            if fa == Addr::Did && ta == Addr::Did {
                                one(rec, &f, Some((fa, held)), &t, ta, true);
                            }
                        }
                    }
                }
            }
            rec.sample(|| json!({"recipient_keys": format!("{r:?}"), "sender_lists": senders.len()}));
        });
    }
    // the same with forwarding enabled: the mediators' keys take no part in the negotiation
    for via in VIAS {
        for r in seqs(if full { &[K::X, K::P, K::E, K::U] } else { &[K::X, K::P, K::U] }, 2) {
            p.case(format!("via/{via:?}/{r:?}").replace(' ', ""), move |rec| {
                let t = side("bob", &r);
                let dummy = side("alice", &[]);
                for ta in addrs(r.len()) {
                    one_via(rec, &dummy, None, &t, ta, false, via);
                }
                for s in seqs(if full { &[K::X, K::P, K::U] } else { &[K::X, K::P] }, 2) {
                    let f = side("alice", &s);
                    for held in 0..1u32 << s.len() {
                        for (fa, ta) in addrs(s.len()).into_iter().flat_map(|a| addrs(r.len()).into_iter().map(move |b| (a, b))) {
                            for protect in [false, true] {
                                if full || fa == Addr::Did || ta == Addr::Did {
                                    one_via(rec, &f, Some((fa, held)), &t, ta, protect, via);
                                }
                            }
                        }
                    }
                }
            });
        }
    }
    // unresolvable DIDs
    p.case("unresolved", |rec| {
        let (f, t) = (side("alice", &[K::X]), side("bob", &[K::X]));
        for (docs, from) in [
            (vec![f.doc.clone()], None),
            (vec![f.doc.clone()], Some(f.did.as_str())),
            (vec![t.doc.clone()], Some(f.did.as_str())),
            (vec![], Some(f.did.as_str())),
        ] {
            let net = Net::new(&docs, &f.secrets);
            for to in [t.did.clone(), t.party.kid("k0")] {
                rec.eval(&(docs.len(), from, &to), true);
                let r = block_on(Mode::enc(&to, from, None, false, &ANON[0]).pack(&simple(None, None, "x"), &net));
                rec.check(matches!(&r, Err(e) if e.kind() == ErrorKind::DIDNotResolved), "", || format!("{:?}", r.map(|x| x.1)));
            }
        }
    });
    let _ = Key::derive;
    crate::many::c06(&mut p, env.thorough());
    crate::near::c06(&mut p, env.thorough());
    crate::near::c06_roles(&mut p);
    p
}
