//! Operations of the public API as data, and canonical (randomness-free) forms of their results.
use crate::keys::Key;
use crate::msgs::anon_enc_name;
use crate::refjose::*;
use crate::world::*;
use didcomm::algorithms::AnonCryptAlg;
use didcomm::error::ErrorKind;
use didcomm::protocols::routing::wrap_in_forward;
use didcomm::{FromPrior, Message, PackEncryptedOptions, UnpackOptions};
use serde_json::{json, Value};
use std::collections::HashMap;

#[derive(Clone)]
pub enum Op {
    Plain { msg: Message },
    Signed { msg: Message, by: String },
    Enc { msg: Message, to: String, from: Option<String>, sign: Option<String>, opts: PackEncryptedOptions },
    Unpack { text: String, all: bool, unwrap: bool },
    FpPack { fp: FromPrior, kid: Option<String> },
    FpUnpack { jwt: String },
    Wrap { text: String, headers: Option<HashMap<String, Value>>, to: String, keys: Vec<String>, alg: AnonCryptAlg },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    /// text and metadata (as debug text)
    Packed(String, String),
    Unpacked(Box<Message>, String),
    Fp(FromPrior, String),
    Err(ErrorKind),
}
impl Out {
    pub fn kind(&self) -> Option<ErrorKind> {
        match self {
            Out::Err(k) => Some(*k),
            _ => None,
        }
    }
    pub fn label(&self) -> String {
        match self {
            Out::Packed(..) => "packed".into(),
            Out::Unpacked(..) => "unpacked".into(),
            Out::Fp(..) => "token".into(),
            Out::Err(k) => format!("{k:?}"),
        }
    }
}

impl Op {
    pub fn unpack(text: &str) -> Op {
        Op::Unpack { text: text.into(), all: false, unwrap: true }
    }
    pub async fn run(&self, net: &Net) -> Out {
        let r = match self {
            Op::Plain { msg } => msg.pack_plaintext(net).await.map(|t| Out::Packed(t, String::new())),
            Op::Signed { msg, by } => {
                msg.pack_signed(by, net, net).await.map(|(t, m)| Out::Packed(t, format!("{m:?}")))
            }
            Op::Enc { msg, to, from, sign, opts } => msg
                .pack_encrypted(to, from.as_deref(), sign.as_deref(), net, net, opts)
                .await
                .map(|(t, m)| Out::Packed(t, format!("{m:?}"))),
            Op::Unpack { text, all, unwrap } => {
                let o = UnpackOptions { expect_decrypt_by_all_keys: *all, unwrap_re_wrapping_forward: *unwrap };
                Message::unpack(text, net, net, &o).await.map(|(m, d)| Out::Unpacked(Box::new(m), format!("{d:?}")))
            }
            Op::FpPack { fp, kid } => fp.pack(kid.as_deref(), net, net).await.map(|(t, k)| Out::Packed(t, k)),
            Op::FpUnpack { jwt } => FromPrior::unpack(jwt, net).await.map(|(f, k)| Out::Fp(f, k)),
            Op::Wrap { text, headers, to, keys, alg } => {
                wrap_in_forward(text, headers.as_ref(), to, keys, alg, net).await.map(|t| Out::Packed(t, String::new()))
            }
        };
        r.unwrap_or_else(|e| Out::Err(e.kind()))
    }
    /// The inputs, to check that they are not modified.
    pub fn inputs(&self) -> String {
        match self {
            Op::Plain { msg } => format!("{:?}", sorted(msg)),
            Op::Signed { msg, by } => format!("{:?}{by}", sorted(msg)),
            Op::Enc { msg, to, from, sign, .. } => format!("{:?}{to}{from:?}{sign:?}", sorted(msg)),
            Op::Unpack { text, .. } => text.clone(),
            Op::FpPack { fp, kid } => format!("{fp:?}{kid:?}"),
            Op::FpUnpack { jwt } => jwt.clone(),
            Op::Wrap { text, to, keys, alg, .. } => format!("{text}{to}{keys:?}{}", anon_enc_name(alg)),
        }
    }
}
fn sorted(m: &Message) -> Value {
    crate::layers::ref_json(m)
}

/// Opens every layer with whatever keys anybody has and lists what is inside, leaving out
/// everything random (ids, signatures, ciphertexts).
pub fn canon(text: &str, world: &[Party]) -> Result<Value, String> {
    let look = lookup(world);
    let v: Value = match serde_json::from_str(text) {
        Ok(v) => v,
        Err(_) => {
            // a rotation token
            let (kid, claims) = open_jwt(text, &|k| look(k))?;
            return Ok(json!({"jwt": kid, "claims": claims}));
        }
    };
    if v.get("ciphertext").is_some() {
        let kid = v["recipients"][0]["header"]["kid"].as_str().ok_or("no recipient")?.to_string();
        let key: Key = look(&kid).ok_or_else(|| format!("unknown recipient {kid}"))?;
        let o = open_jwe(text, &kid, &key, &|k| look(k))?;
        let inner = canon(std::str::from_utf8(&o.pt).map_err(|e| e.to_string())?, world)?;
        Ok(json!({"alg": o.alg, "enc": o.enc, "skid": o.skid, "to": o.kids, "inner": inner}))
    } else if v.get("signatures").is_some() {
        let (kid, alg, p) = open_jws(text, &|k| look(k))?;
        let inner = canon(std::str::from_utf8(&p).map_err(|e| e.to_string())?, world)?;
        Ok(json!({"by": kid, "alg": alg, "inner": inner}))
    } else if v["type"] == "https://didcomm.org/routing/2.0/forward" {
        let mut w = v.clone();
        w.as_object_mut().unwrap().remove("id");
        let inner = canon(&v["attachments"][0]["data"]["json"].to_string(), world)?;
        w["attachments"] = json!([{ "data": { "json": inner } }]);
        Ok(w)
    } else {
        Ok(v)
    }
}

/// Canonical form of an outcome.
pub fn canon_out(o: &Out, world: &[Party]) -> Result<String, String> {
    Ok(match o {
        Out::Packed(t, m) => format!("{} {m}", canon(t, world)?),
        Out::Unpacked(m, md) => format!("{} {md}", sorted(m)),
        o => format!("{o:?}"),
    })
}

/// Runs one operation to completion.
pub fn run(op: &Op, net: &Net) -> Out {
    block_on(op.run(net))
}

pub struct Scenario {
    pub name: &'static str,
    /// who runs it
    pub who: usize,
    pub op: Op,
}

/// Parties 0 alice, 1 bob (routed through mediators), 2 m1, 3 m2, 4 carol (alice's prior DID).
pub fn stage() -> Vec<Party> {
    use crate::keys::{Enc, KT};
    let alice = Party::new(&nm("did:example:alice"))
        .key("p1", KT::P256, Enc::Jwk, true, false)
        .key("x1", KT::X25519, Enc::Jwk, true, false)
        .key("e1", KT::Ed25519, Enc::Mb, false, true)
        .key("k1", KT::K256, Enc::Jwk, false, true);
    let m1 = Party::new(&nm("did:example:m1"))
        .key("x1", KT::X25519, Enc::B58, true, false)
        .key("x2", KT::X25519, Enc::Jwk, true, false)
        .service(service(&nm("did:example:m1#s"), "http://m1", Some(vec!["didcomm/v2"]), &[]));
    let m2 = Party::new(&nm("did:example:m2")).key("p1", KT::P256, Enc::Jwk, true, false);
    let bob = Party::new(&nm("did:example:bob"))
        .key("x1", KT::X25519, Enc::Jwk, true, false)
        .key("x2", KT::X25519, Enc::Mb, true, false)
        .key("p1", KT::P256, Enc::Jwk, true, false)
        .key("e1", KT::Ed25519, Enc::Jwk, false, true)
        .service(service(&nm("did:example:bob#s"), &nm("did:example:m1"), Some(vec!["didcomm/v2"]), &[nm("did:example:m2#p1")]));
    let carol = Party::new(&nm("did:example:carol"))
        .key("e1", KT::Ed25519, Enc::B58, false, true)
        .key("s1", KT::P256, Enc::Jwk, false, true);
    vec![alice, bob, m1, m2, carol]
}
pub const ALICE: usize = 0;
pub const BOB: usize = 1;
pub const M1: usize = 2;
pub const M2: usize = 3;
pub const CAROL: usize = 4;

pub fn net_of(world: &[Party], who: usize) -> Net {
    Net::new(&docs_of(world), &world[who].secrets())
}

/// Every kind of operation, on inputs that need as many lookups as possible.
pub fn scenarios(world: &[Party]) -> Vec<Scenario> {
    use crate::msgs::simple;
    let a = world[ALICE].did.clone();
    let b = world[BOB].did.clone();
    let m = simple(Some(&a), Some(&b), "stage");
    let fp = FromPrior::build(world[CAROL].did.clone(), a.clone()).aud(b.clone()).exp(7).finalize();
    let jwt = match run(&Op::FpPack { fp: fp.clone(), kid: None }, &net_of(world, CAROL)) {
        Out::Packed(t, _) => t,
        o => panic!("stage token: {o:?}"),
    };
    let mut mf = m.clone();
    mf.from_prior = Some(jwt.clone());
    let o = |protect: bool, forward: bool| PackEncryptedOptions {
        protect_sender: protect,
        forward,
        forward_headers: None,
        messaging_service: None,
        enc_alg_auth: Default::default(),
        enc_alg_anon: Default::default(),
    };
    let enc = |msg: &Message, to: &str, from: Option<&str>, sign: Option<&str>, opts: PackEncryptedOptions| Op::Enc {
        msg: msg.clone(),
        to: to.into(),
        from: from.map(|s| s.into()),
        sign: sign.map(|s| s.into()),
        opts,
    };
    let bx = world[BOB].kid("x2");
    let ae = world[ALICE].kid("k1");
    let mut v = vec![
        Scenario { name: "pack-plain", who: ALICE, op: Op::Plain { msg: m.clone() } },
        Scenario { name: "pack-plain-rotated", who: ALICE, op: Op::Plain { msg: mf.clone() } },
        Scenario { name: "pack-signed-did", who: ALICE, op: Op::Signed { msg: m.clone(), by: a.clone() } },
        Scenario { name: "pack-signed-kid-rotated", who: ALICE, op: Op::Signed { msg: mf.clone(), by: ae.clone() } },
        Scenario { name: "pack-anon", who: ALICE, op: enc(&m, &b, None, None, o(false, false)) },
        Scenario { name: "pack-anon-kid", who: ALICE, op: enc(&m, &bx, None, None, o(false, false)) },
        Scenario { name: "pack-anon-signed", who: ALICE, op: enc(&m, &b, None, Some(&a), o(false, false)) },
        Scenario { name: "pack-auth", who: ALICE, op: enc(&m, &b, Some(&a), None, o(false, false)) },
        Scenario { name: "pack-auth-kid", who: ALICE, op: enc(&m, &bx, Some(&world[ALICE].kid("x1")), None, o(false, false)) },
        Scenario { name: "pack-protect-signed-rotated", who: ALICE, op: enc(&mf, &b, Some(&a), Some(&ae), o(true, false)) },
        Scenario { name: "pack-auth-forward", who: ALICE, op: enc(&m, &b, Some(&a), None, o(false, true)) },
        Scenario { name: "pack-anon-forward", who: ALICE, op: enc(&m, &bx, None, None, o(false, true)) },
        Scenario { name: "token-pack", who: CAROL, op: Op::FpPack { fp: fp.clone(), kid: None } },
        Scenario { name: "token-pack-kid", who: CAROL, op: Op::FpPack { fp, kid: Some(world[CAROL].kid("s1")) } },
        Scenario { name: "token-unpack", who: BOB, op: Op::FpUnpack { jwt } },
    ];
    // what those produce, unpacked by its recipient
    let mut un = vec![];
    for (name, src) in [
        ("unpack-plain-rotated", "pack-plain-rotated"),
        ("unpack-signed", "pack-signed-did"),
        ("unpack-signed-rotated", "pack-signed-kid-rotated"),
        ("unpack-anon", "pack-anon"),
        ("unpack-anon-signed", "pack-anon-signed"),
        ("unpack-auth", "pack-auth"),
        ("unpack-protect-signed-rotated", "pack-protect-signed-rotated"),
    ] {
        let s = v.iter().find(|s| s.name == src).unwrap();
        let Out::Packed(text, _) = run(&s.op, &net_of(world, s.who)) else { panic!("stage {src}") };
        un.push(Scenario { name, who: BOB, op: Op::unpack(&text) });
        if name == "unpack-auth" || name == "unpack-anon" || name == "unpack-protect-signed-rotated" {
            let n = match name {
                "unpack-auth" => "unpack-auth-all",
                "unpack-anon" => "unpack-anon-all",
                _ => "unpack-protect-signed-rotated-all",
            };
            un.push(Scenario { name: n, who: BOB, op: Op::Unpack { text: text.clone(), all: true, unwrap: true } });
        }
        if name == "unpack-auth" {
            // the mediator re-wraps for bob himself, by DID and by key id
            for (n, next) in [("unpack-rewrapped-did", b.clone()), ("unpack-rewrapped-kid", bx.clone())] {
                let w = Op::Wrap { text: text.clone(), headers: None, to: next, keys: vec![b.clone()], alg: Default::default() };
                let Out::Packed(t, _) = run(&w, &net_of(world, M1)) else { panic!("stage wrap") };
                un.push(Scenario { name: n, who: BOB, op: Op::unpack(&t) });
                // as a mediator would
                if n == "unpack-rewrapped-did" {
                    un.push(Scenario { name: "wrap", who: M1, op: w });
                }
            }
            let w = Op::Wrap { text, headers: None, to: b.clone(), keys: vec![world[M1].did.clone()], alg: Default::default() };
            let Out::Packed(t, _) = run(&w, &net_of(world, ALICE)) else { panic!("stage wrap") };
            un.push(Scenario { name: "unpack-forward-to-mediator", who: M1, op: Op::unpack(&t) });
        }
    }
    v.extend(un);
    v
}
