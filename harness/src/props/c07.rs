//! C07: which key signs, over all small authentication lists, against a reference model.
use crate::engine::{Env, Plan, Rec};
use crate::keys::{Enc, KT};
use crate::layers::*;
use crate::msgs::*;
use crate::refjose::*;
use crate::world::*;
use didcomm::error::ErrorKind;
use didcomm::secrets::{Secret, SecretMaterial, SecretType};
use didcomm::FromPrior;
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum K {
    /// Ed25519 in the encoding given by position
    E,
    P,
    S,
    /// a key that cannot sign
    X,
    /// a secret of unknown type
    U,
}
const ALL: [K; 5] = [K::E, K::P, K::S, K::X, K::U];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Addr {
    Did,
    Key(usize),
    Unknown,
    /// key-agreement list only, although it can sign
    KaOnly,
    /// a method of the document that no list names
    Unlisted,
    /// another DID's held authentication key
    Foreign,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Signed,
    Anon,
    Auth,
    Token,
    /// encrypted and delivered in this environment
    AnonVia(Via),
    AuthVia(Via),
}

struct W {
    ks: Vec<K>,
    alice: Party,
    bob: Party,
    other: Party,
    secrets: Vec<Secret>,
}

fn world(ks: &[K]) -> W {
    let mut a = Party::new(ns("did:example:alice")).key("ka-ed", KT::Ed25519, Enc::Jwk, true, false).ka("kax", KT::X25519).key(
        "none-ed",
        KT::Ed25519,
        Enc::Jwk,
        false,
        false,
    );
    for (i, k) in ks.iter().enumerate() {
        let kt = match k {
            K::E | K::U => KT::Ed25519,
            K::P => KT::P256,
            K::S => KT::K256,
            K::X => KT::X25519,
        };
        let enc = if kt.okp() { [Enc::Jwk, Enc::Mb, Enc::B58, Enc::Jwk][i] } else { Enc::Jwk };
        a = a.key(&format!("k{i}"), kt, enc, false, true);
    }
    let mut secrets = a.secrets();
    for (i, k) in ks.iter().enumerate() {
        if *k == K::U {
            let s = secrets.iter_mut().find(|s| s.id == a.kid(&format!("k{i}"))).unwrap();
            s.type_ = SecretType::Other;
            s.secret_material = SecretMaterial::Base58 { private_key_base58: "abc".into() };
        }
    }
    let bob = Party::new(ns("did:example:bob")).ka("x", KT::X25519);
    let other = Party::new(ns("did:example:other")).auth("e", KT::Ed25519);
    // the order in which the wallet holds its secrets must not matter
    secrets.extend(other.secrets());
    secrets.reverse();
    W { ks: ks.to_vec(), alice: a, bob, other, secrets }
}

fn addr(w: &W, a: Addr) -> String {
    match a {
        Addr::Did => w.alice.did.clone(),
        Addr::Key(i) => w.alice.kid(&format!("k{i}")),
        Addr::Unknown => w.alice.kid("nope"),
        Addr::KaOnly => w.alice.kid("ka-ed"),
        Addr::Unlisted => w.alice.kid("none-ed"),
        Addr::Foreign => format!("{}?x=1#k0", w.alice.did),
    }
}

fn model(w: &W, a: Addr, held: u32) -> Result<usize, ErrorKind> {
    let cand: Vec<usize> = match a {
        Addr::Did => (0..w.ks.len()).collect(),
        Addr::Key(i) => vec![i],
        // a DID with a query is another (here unresolvable) DID
        Addr::Foreign => return Err(ErrorKind::DIDNotResolved),
        _ => return Err(ErrorKind::DIDUrlNotFound),
    };
    let i = cand.into_iter().find(|i| held >> i & 1 == 1).ok_or(ErrorKind::SecretNotFound)?;
    match w.ks[i] {
        K::X | K::U => Err(ErrorKind::Unsupported),
        _ => Ok(i),
    }
}

fn one(rec: &mut Rec, w: &W, op: Op, a: Addr, held: u32) {
    let secrets: Vec<Secret> = w
        .secrets
        .iter()
        .filter(|s| !(0..w.ks.len()).any(|i| s.id == w.alice.kid(&format!("k{i}")) && held >> i & 1 == 0))
        .cloned()
        .collect();
    let parties = [w.alice.clone(), w.bob.clone(), w.other.clone()];
    let net = Net::new(&docs_of(&parties), &secrets);
    let by = addr(w, a);
    let what = format!("{op:?}/{a:?}/held{held:b}");
    let mut want = model(w, a, held);
    let msg = simple(Some(&w.alice.did), Some(&w.bob.did), "c07");
    let look = lookup(&parties);
    rec.eval(&what, true);
    let run = rec.guarded(|| -> Result<Result<(String, String, Option<(String, Vec<u8>)>), didcomm::error::Error>, String> {
        Ok(match op {
            Op::Signed => match block_on(msg.pack_signed(&by, &net, &net)) {
                Err(e) => Err(e),
                Ok((t, md)) => {
                    let (kid, _, pl) = open_jws(&t, &|k| look(k))?;
                    Ok((md.sign_by_kid, t, Some((kid, pl))))
                }
            },
            Op::Anon | Op::Auth | Op::AnonVia(_) | Op::AuthVia(_) => {
                let from = if matches!(op, Op::Auth | Op::AuthVia(_)) { Some(w.alice.did.as_str()) } else { None };
                let via = if let Op::AnonVia(v) | Op::AuthVia(v) = op { v } else { Via::Off };
                match block_on(Mode::enc(&w.bob.did, from, Some(&by), via == Via::Two, &ANON[1]).via(via).pack(&msg, &net)) {
                    Err(e) => Err(e),
                    Ok((t, md)) => {
                        let p = peel(&t, &w.bob, &parties, 0)?;
                        let s = match p.layers.last() {
                            Some(Layer::Sign { by }) => Some((by.0.clone(), p.texts[0].clone().into_bytes())),
                            _ => None,
                        };
                        Ok((md.unwrap().sign_by_kid.ok_or("no sign_by_kid in the metadata")?, t, s))
                    }
                }
            }
            Op::Token => {
                let fp = FromPrior::build(w.alice.did.clone(), w.bob.did.clone()).exp(7).finalize();
                let k = if a == Addr::Did { None } else { Some(by.as_str()) };
                match block_on(fp.pack(k, &net, &net)) {
                    Err(e) => Err(e),
                    Ok((t, kid)) => {
                        let (k, c) = open_jwt(&t, &|k| look(k))?;
                        if c != json!({"iss": w.alice.did, "sub": w.bob.did, "exp": 7}) {
                            return Err(format!("claims {c}"));
                        }
                        Ok((kid, t, Some((k, ref_json(&msg).to_string().into_bytes()))))
                    }
                }
            }
        })
    });
    if op == Op::Token && a == Addr::Foreign {
        want = Err(ErrorKind::IllegalArgument);
    }
    let got = match run {
        Err(p) => return rec.fail(what, format!("panic: {p}")),
        Ok(Err(e)) => return rec.fail(what, format!("independent opening failed: {e}")),
        Ok(Ok(g)) => g,
    };
    match (want, got) {
        (Err(k), Err(e)) => {
            rec.outcome(format!("{k:?}"));
            rec.check(e.kind() == k, &what, || format!("expected error {k:?}, got {e}"));
        }
        (Err(k), Ok((kid, ..))) => rec.fail(what, format!("expected error {k:?}, signed with {kid}")),
        (Ok(i), Err(e)) => rec.fail(what, format!("expected a signature by k{i}, got {e}")),
        (Ok(i), Ok((reported, _, real))) => {
            rec.outcome("signed");
            let want = w.alice.kid(&format!("k{i}"));
            let Some((real, payload)) = real else { return rec.fail(what, "the packed message carries no signature") };
            rec.check(real == want, &what, || format!("signed with {real}, expected {want}"));
            rec.check(reported == want, &what, || format!("reports {reported}, expected {want}"));
            let pl: Value = serde_json::from_slice(&payload).unwrap_or(Value::Null);
            rec.check(pl == ref_json(&msg), &what, || "the signed payload is not the message".into());
        }
    }
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let n = if full { 4 } else { 3 };
    let mut p = Plan::new(
        "C07",
        "exploration",
        "every authentication list of length 0..3 (thorough 4) over {Ed25519, P-256, secp256k1, a key that cannot sign, a secret of \
         unknown type} x every subset of held secrets x addressing {DID, each key id, unknown id, key-agreement-only id, unlisted \
         method, DID URL with query} x {pack_signed, anoncrypt+sign, authcrypt+sign, rotation token}; the key that really signed \
         (independent verifier), the reported key and the error kind compared with a reference model",
    );
    p.namings = 4;
    p.bounds = json!({"list_len": n, "kinds": 5, "held_subsets": "all"});
    let mut lists: Vec<Vec<K>> = vec![vec![]];
    let mut fr = lists.clone();
    for _ in 0..n {
        fr = fr.iter().flat_map(|s: &Vec<K>| ALL.iter().map(move |k| [&s[..], &[*k]].concat())).collect();
        lists.extend(fr.iter().cloned());
    }
    for l in lists {
        p.case(format!("{l:?}").replace(' ', ""), move |rec| {
            let w = world(&l);
            let ops: &[Op] = &[Op::Signed, Op::Token, Op::Anon, Op::Auth];
            let vias: Vec<Op> = VIAS.iter().flat_map(|v| [Op::AnonVia(*v), Op::AuthVia(*v)]).collect();
            for op in ops.iter().chain(if full || l.len() < 3 { &vias[..] } else { &[] }) {
                for held in 0..1u32 << l.len() {
                    let mut as_ = vec![Addr::Did];
                    as_.extend((0..l.len()).map(Addr::Key));
                    if held + 1 == 1 << l.len() {
                        as_.extend([Addr::Unknown, Addr::KaOnly, Addr::Unlisted, Addr::Foreign]);
                    }
                    for a in as_ {
                        one(rec, &w, *op, a, held);
                    }
                }
            }
            rec.sample(|| json!({"authentication": format!("{l:?}"), "wallets": 1 << l.len()}));
        });
    }
    // every signing key signs for itself although other parties and unlisted keys are held as well
    p.case("unresolved", |rec| {
        let w = world(&[K::E]);
        let net = Net::new(&[w.bob.doc()], &w.secrets);
        for by in [w.alice.did.clone(), w.alice.kid("k0")] {
            rec.eval(&by, true);
            let r = block_on(simple(None, None, "x").pack_signed(&by, &net, &net));
            rec.check(matches!(&r, Err(e) if e.kind() == ErrorKind::DIDNotResolved), "signed", || format!("{r:?}"));
            let fp = FromPrior::build(w.alice.did.clone(), w.bob.did.clone()).finalize();
            let r = block_on(fp.pack(if by.contains('#') { Some(&by) } else { None }, &net, &net));
            rec.check(matches!(&r, Err(e) if e.kind() == ErrorKind::DIDNotResolved), "token", || format!("{r:?}"));
        }
    });
    crate::many::c07(&mut p, env.thorough());
    crate::near::c07(&mut p, env.thorough());
    crate::near::c07_roles(&mut p);
    p
}
