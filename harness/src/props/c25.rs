//! C25: several recipient keys of one DID: every pattern of held keys and of entries that do not decrypt.
use crate::engine::{Env, Plan, Rec};
use crate::keys::{Enc, Key, KT};
use crate::layers::*;
use crate::msgs::simple;
use crate::refjose::*;
use crate::world::*;
use didcomm::error::ErrorKind;
use didcomm::secrets::{SecretMaterial, SecretType};
use didcomm::{Message, UnpackOptions};
use serde_json::{json, Value};

/// What is wrong with one recipient key.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Bad {
    Good,
    /// one bit of its entry flipped
    Flip,
    /// its entry carries another content key, properly wrapped
    Cek,
    /// its entry carries the next key's value
    Next,
    /// not base64
    Text,
    Empty,
    /// the wallet holds other material under its id
    Secret,
    /// the wallet holds a key of another curve under its id
    Curve,
    /// the wallet holds a secret of a type the library does not know
    Kind,
}
use Bad::*;
const ALL: [Bad; 9] = [Good, Flip, Cek, Next, Text, Empty, Secret, Curve, Kind];

/// What is sent: layers from the outside.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Shape {
    Anon(&'static str),
    Auth,
    AnonAuth,
    AnonSign,
    /// a mediator's forward for bob himself around an authcrypt or anoncrypt message
    FwdAuth,
    FwdAnon,
}
const SHAPES: [Shape; 8] = [
    Shape::Anon("A256CBC-HS512"),
    Shape::Anon("XC20P"),
    Shape::Anon("A256GCM"),
    Shape::Auth,
    Shape::AnonAuth,
    Shape::AnonSign,
    Shape::FwdAuth,
    Shape::FwdAnon,
];
impl Shape {
    fn two(self) -> bool {
        matches!(self, Shape::AnonAuth | Shape::FwdAuth | Shape::FwdAnon)
    }
}

struct W {
    kt: KT,
    alice: Party,
    bob: Party,
}
fn other(kt: KT) -> KT {
    if kt == KT::X25519 {
        KT::P256
    } else {
        KT::X25519
    }
}
fn world(kt: KT, n: usize) -> W {
    let alice = Party::new(&nm("did:example:alice")).ka("x1", kt).auth("e1", KT::Ed25519);
    // the listed order is not the sorted one
    let mut bob = Party::new(&nm("did:example:bob"));
    for i in [2usize, 0, 3, 1].into_iter().filter(|i| *i < n) {
        bob = bob.key(&format!("x{i}"), kt, if kt.okp() { [Enc::Jwk, Enc::Mb, Enc::B58, Enc::Jwk][i] } else { Enc::Jwk }, true, false);
    }
    W { kt, alice, bob }
}

/// An envelope for every key of bob with the listed entries spoiled.
fn envelope(w: &W, label: &str, enc: &str, auth: bool, pt: &str, bad: &[Bad]) -> String {
    let to: Vec<(&str, &Key)> = w.bob.keys.iter().map(|k| (k.kid.as_str(), &k.key)).collect();
    let ax = w.alice.get("x1");
    let s = Seal::new(label, enc, if auth { Some((&ax.kid, &ax.key)) } else { None }, &to, pt.as_bytes());
    let mut v = s.build();
    let orig: Vec<Value> = v["recipients"].as_array().unwrap().iter().map(|r| r["encrypted_key"].clone()).collect();
    for (i, b) in bad.iter().enumerate() {
        let e = &mut v["recipients"][i]["encrypted_key"];
        let mut raw = b64u_dec(orig[i].as_str().unwrap()).unwrap();
        match b {
            Good | Secret | Curve | Kind => {}
            Flip => {
                let n = raw.len() / 2;
                raw[n] ^= 1;
                *e = json!(b64u(&raw));
            }
            Next if bad.len() > 1 => *e = orig[(i + 1) % bad.len()].clone(),
            Next => *e = json!(b64u(&raw[..raw.len() - 8])),
            Text => *e = json!("!!not base64!!"),
            Empty => *e = json!(""),
            Cek => {
                let epk = Key::derive(s.epk_kt, &format!("epk/{label}"));
                let k = to[i].1;
                let mut z = ecdh(k.kt, &epk.sk, &k.pk).unwrap();
                if auth {
                    z.extend(ecdh(k.kt, &ax.key.sk, &k.pk).unwrap());
                }
                let kids: Vec<&str> = to.iter().map(|t| t.0).collect();
                let tag = b64u_dec(v["tag"].as_str().unwrap()).unwrap();
                let kek = kek(&z, s.alg, s.apu.as_deref().unwrap_or(&[]), &apv_of(&kids), if auth { Some(&tag) } else { None });
                let mut o = prf("another content key", sizes(enc).0);
                assert!(askar_crypto::cipher::kw_wrap(&kek, &mut o));
                v["recipients"][i]["encrypted_key"] = json!(b64u(&o));
            }
        }
    }
    v.to_string()
}

/// The text, what it must report, and whether key i decrypts all of it.
fn send(w: &W, shape: Shape, bad: &[Bad], wher: u8) -> (String, Message, didcomm::UnpackMetadata) {
    let m = simple(Some(&w.alice.did), Some(&w.bob.did), "c25");
    let plain = ref_json(&m).to_string();
    let to: Vec<KK> = w.bob.keys.iter().map(|k| (k.kid.clone(), k.key.clone())).collect();
    let x1 = (w.alice.kid("x1"), w.alice.get("x1").key.clone());
    let e1 = (w.alice.kid("e1"), w.alice.get("e1").key.clone());
    let none = vec![Good; bad.len()];
    let (outer, inner) = (if wher & 1 != 0 { bad } else { &none }, if wher & 2 != 0 { bad } else { &none });
    const HS: &str = "A256CBC-HS512";
    let (t, layers) = match shape {
        Shape::Anon(enc) => (envelope(w, "o", enc, false, &plain, outer), vec![Layer::Anon { enc, to }]),
        Shape::Auth => (envelope(w, "o", HS, true, &plain, outer), vec![Layer::Auth { from: x1, to }]),
        Shape::AnonAuth => (
            envelope(w, "o", "XC20P", false, &envelope(w, "i", HS, true, &plain, inner), outer),
            vec![Layer::Anon { enc: "XC20P", to: to.clone() }, Layer::Auth { from: x1, to }],
        ),
        Shape::AnonSign => (
            envelope(w, "o", "A256GCM", false, &ref_sign(&e1.1, &e1.0, plain.as_bytes()).to_string(), outer),
            vec![Layer::Anon { enc: "A256GCM", to }, Layer::Sign { by: e1 }],
        ),
        Shape::FwdAuth => (
            envelope(w, "o", HS, false, &fwd_json("f", &w.bob.did, &envelope(w, "i", HS, true, &plain, inner)), outer),
            vec![Layer::Anon { enc: HS, to: to.clone() }, Layer::Auth { from: x1, to }],
        ),
        Shape::FwdAnon => (
            envelope(w, "o", "XC20P", false, &fwd_json("f", &w.bob.did, &envelope(w, "i", "A256GCM", false, &plain, inner)), outer),
            vec![Layer::Anon { enc: "A256GCM", to: to.clone() }],
        ),
    };
    let mut md = match layers.last() {
        // the signed text is part of what is reported
        Some(Layer::Sign { by }) => expected(&layers, &[plain.clone(), ref_sign(&by.1, &by.0, plain.as_bytes()).to_string(), t.clone()]),
        _ => expected(&layers, &vec![String::new(); layers.len() + 1]),
    };
    md.re_wrapped_in_forward = matches!(shape, Shape::FwdAuth | Shape::FwdAnon);
    (t, m, md)
}

fn one(rec: &mut Rec, w: &W, shape: Shape, bad: &[Bad], wher: u8, held: u32, t: &str, m: &Message, md: &didcomm::UnpackMetadata) {
    let mut secrets = vec![];
    for (i, k) in w.bob.keys.iter().enumerate() {
        if held >> i & 1 == 0 {
            continue;
        }
        let mut s = k.key.secret(&k.kid, k.enc);
        match bad[i] {
            Secret => s = Key::derive(w.kt, "stranger").secret(&k.kid, Enc::Jwk),
            Curve => s = Key::derive(other(w.kt), "stranger").secret(&k.kid, Enc::Jwk),
            Kind => {
                s.type_ = SecretType::Other;
                s.secret_material = SecretMaterial::Base58 { private_key_base58: "abc".into() };
            }
            _ => {}
        }
        secrets.push(s);
    }
    let net = Net::new(&docs_of(&[w.alice.clone(), w.bob.clone()]), &secrets);
    let n_held = held.count_ones() as usize;
    let n_bad = (0..bad.len()).filter(|i| held >> i & 1 == 1 && bad[*i] != Good).count();
    for all in [false, true] {
        let what = format!("{shape:?}/{bad:?}@{wher}/held{held:b}/{}", if all { "all" } else { "any" }).replace(' ', "");
        rec.eval(&what, n_bad > 0 || n_held < bad.len());
        rec.begin(&what);
        let o = UnpackOptions { expect_decrypt_by_all_keys: all, unwrap_re_wrapping_forward: true };
        let r = match rec.guarded(|| block_on(Message::unpack(t, &net, &net, &o))) {
            Err(p) => {
                rec.fail(what, format!("panic: {p}"));
                continue;
            }
            Ok(r) => r,
        };
        match r {
            Err(e) => {
                rec.outcome(format!("refused {:?}", e.kind()));
                if n_held == 0 {
                    rec.check(e.kind() == ErrorKind::SecretNotFound, &what, || format!("no key held: expected SecretNotFound, got {e}"));
                } else {
                    rec.check(n_bad > 0, &what, || format!("every held key decrypts, but: {e}"));
                }
            }
            Ok((got, gmd)) => {
                rec.outcome(if n_bad == 0 { "read" } else { "read although a key fails" });
                rec.check(n_held > n_bad, &what, || "unpacked although no held key decrypts it".into());
                rec.check(!all || n_bad == 0, &what, || format!("every held key must decrypt, {n_bad} of {n_held} do not, and the message is unpacked"));
                rec.check(ref_json(&got) == ref_json(m), &what, || format!("other content: {}", ref_json(&got)));
                rec.check(same_md(&gmd, md), &what, || format!("reports {gmd:?}, expected {md:?}"));
            }
        }
    }
}

fn same_md(a: &didcomm::UnpackMetadata, b: &didcomm::UnpackMetadata) -> bool {
    format!("{a:?}") == format!("{b:?}")
}

fn tuples(n: usize, over: &[Bad]) -> Vec<Vec<Bad>> {
    (0..n).fold(vec![vec![]], |acc, _| acc.iter().flat_map(|v: &Vec<Bad>| over.iter().map(move |b| [&v[..], &[*b]].concat())).collect())
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C25",
        "exploration",
        "messages for 1..3 (thorough 4) recipient keys of one DID x {X25519, P-256} x {anoncrypt with each content algorithm, \
         authcrypt, authcrypt in anoncrypt, signed in anoncrypt, re-wrapped in a forward} x every subset of keys held x every \
         assignment of {decrypts, entry bit-flipped, entry with another content key, entry of the next key, not base64, empty, \
         other secret held, other curve held, unknown secret type} to the keys (two-layer messages: in the outer, inner or both \
         layers) x expect_decrypt_by_all_keys off and on",
    );
    p.namings = 2;
    p.bounds = json!({"keys": if full { 4 } else { 3 }, "kinds_of_damage": 8, "held_subsets": "all"});
    for kt in [KT::X25519, KT::P256] {
        for n in 1..=(if full { 4 } else { 3 }) {
            // with more keys, the kinds that take different paths through the code
            let kinds: &[Bad] = match (n, full) {
                (1 | 2, _) => &ALL,
                (3, true) => &ALL,
                (3, false) => &[Good, Flip, Cek, Next, Secret],
                _ => &[Good, Flip, Cek, Curve],
            };
            for shape in SHAPES {
                for first in kinds.iter().copied() {
                    p.case(format!("{kt:?}/{n}/{shape:?}/{first:?}"), move |rec| {
                        let w = world(kt, n);
                        for rest in tuples(n - 1, kinds) {
                            let bad = [&[first][..], &rest].concat();
                            let clean = bad.iter().all(|b| *b == Good);
                            // damage to the wallet has no place in the message
                            let wheres: &[u8] = if shape.two() && !clean { &[1, 2, 3] } else { &[1] };
                            for wher in wheres {
                                let (t, m, md) = send(&w, shape, &bad, *wher);
                                for held in 0..1u32 << n {
                                    one(rec, &w, shape, &bad, *wher, held, &t, &m, &md);
                                }
                            }
                        }
                        rec.sample(|| json!({"shape": format!("{shape:?}"), "keys": n, "first": format!("{first:?}")}));
                    });
                }
            }
        }
    }
    crate::many::c25(&mut p, env.thorough());
    p
}
