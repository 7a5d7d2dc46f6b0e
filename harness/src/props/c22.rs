//! C22: an active network attacker (Dolev-Yao): everything it can derive from honest traffic within a
//! number of steps, concretised with the reference cryptography and given to honest parties.
use crate::engine::{Env, Plan, Rec};
use crate::keys::{Enc, Key, KT};
use crate::layers::{fwd_json, ref_json};
use crate::msgs::{simple, Mode, ANON};
use crate::ops::{run, Op, Out};
use crate::refjose::*;
use crate::world::*;
use didcomm::protocols::routing::try_parse_forward;
use didcomm::{FromPrior, Message, UnpackMetadata, UnpackOptions};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

/// The attacker besides being a DID holder on the network: nothing more; one of two keys a message
/// to bob is encrypted for; keys of alice and carol that are withdrawn or serve one purpose only.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Att {
    Outsider,
    Insider,
    Thief,
}

const A: usize = 0;
const B: usize = 1;
const D: usize = 2;
const MED: usize = 3;
const C: usize = 4;
const M: usize = 5;

fn world(att: Att) -> Vec<Party> {
    let mut alice = Party::new(&nm("did:example:alice"))
        .key("x1", KT::X25519, Enc::Jwk, true, false)
        .key("p1", KT::P256, Enc::Jwk, true, false)
        .key("e1", KT::Ed25519, Enc::Jwk, false, true)
        .key("s1", KT::P256, Enc::Jwk, false, true);
    let bob = Party::new(&nm("did:example:bob"))
        .key("x1", KT::X25519, Enc::Jwk, true, false)
        .key("x2", KT::X25519, Enc::Mb, true, false)
        .key("p1", KT::P256, Enc::Jwk, true, false)
        .key("e1", KT::Ed25519, Enc::Jwk, false, true);
    let med = Party::new(&nm("did:example:med")).key("x1", KT::X25519, Enc::Jwk, true, false);
    let dave = Party::new(&nm("did:example:dave"))
        .key("x1", KT::X25519, Enc::B58, true, false)
        .service(service(&nm("did:example:dave#s"), "http://dave", Some(vec!["didcomm/v2"]), &[nm("did:example:med")]));
    let mut carol = Party::new(&nm("did:example:carol"))
        .key("e1", KT::Ed25519, Enc::Jwk, false, true)
        .key("s1", KT::P256, Enc::Jwk, false, true);
    if att == Att::Thief {
        // Keys the thief has got hold of: some no longer in any role, some in a single role.
        alice = alice
            .key("xo", KT::X25519, Enc::Jwk, false, false)
            .key("po", KT::P256, Enc::Jwk, false, false)
            .key("eo", KT::Ed25519, Enc::Jwk, false, false)
            .key("ko", KT::K256, Enc::Jwk, false, false)
            .key("pk", KT::P256, Enc::Jwk, true, false)
            .key("sk", KT::P256, Enc::Jwk, false, true);
        carol = carol
            .key("eo", KT::Ed25519, Enc::Mb, false, false)
            .key("po", KT::P256, Enc::Jwk, false, false)
            .key("pk", KT::P256, Enc::Jwk, true, false);
    }
    let mut mallory = Party::new(&nm("did:example:mallory"))
        .key("x1", KT::X25519, Enc::Jwk, true, false)
        .key("p1", KT::P256, Enc::Jwk, true, false)
        .key("e1", KT::Ed25519, Enc::Jwk, false, true)
        .key("s1", KT::P256, Enc::Jwk, false, true)
        .service(service(&nm("did:example:mallory#s"), "http://mallory", Some(vec!["didcomm/v2"]), &[nm("did:example:bob#x1")]));
    // Its own document: alice's and carol's public keys under ids of its own, and its own keys under ids of theirs.
    for (frag, of) in [("ae", (&alice, "e1")), ("as", (&alice, "s1")), ("ce", (&carol, "e1"))] {
        let mut k = of.0.get(of.1).clone();
        k.kid = mallory.kid(frag);
        mallory.keys.push(k);
    }
    let mut k = alice.get("x1").clone();
    k.kid = mallory.kid("ax");
    mallory.keys.push(k);
    for (mine, theirs) in [("x1", alice.kid("x1")), ("e1", alice.kid("e1")), ("e1", carol.kid("e1")), ("s1", alice.kid("s1"))] {
        let mut k = mallory.get(mine).clone();
        k.kid = theirs;
        mallory.keys.push(k);
    }
    vec![alice, bob, dave, med, carol, mallory]
}

/// What an honest party sent, and how.
#[derive(Clone)]
struct Sent {
    name: &'static str,
    content: Value,
    auth: Option<String>,
    sign: Option<String>,
    to: usize,
    /// a text that only appears in the content
    mark: String,
    /// keys that may read it (empty: everybody)
    readers: Vec<String>,
}
#[derive(Clone)]
struct Know {
    name: String,
    text: String,
}
struct Ctx {
    world: Vec<Party>,
    att: Att,
    sent: Vec<Sent>,
    tokens: Vec<(String, Value, String)>,
    known: Vec<Know>,
    opened: Vec<(String, Opened)>,
}

fn own(att: Att, world: &[Party]) -> Vec<(String, Key)> {
    let m = &world[M];
    let mut v: Vec<(String, Key)> = ["x1", "p1", "e1", "s1"].iter().map(|f| (m.kid(f), m.get(f).key.clone())).collect();
    if att == Att::Insider {
        v.push((world[B].kid("x2"), world[B].get("x2").key.clone()));
    }
    if att == Att::Thief {
        v.extend(["xo", "po", "pk", "sk"].map(|f| (world[A].kid(f), world[A].get(f).key.clone())));
    }
    v
}

fn evil(from: Option<&str>, to: Option<&str>, token: Option<&str>) -> String {
    let mut v = json!({"id": "evil", "typ": "application/didcomm-plain+json", "type": "x", "body": {"evil": true}});
    if let Some(f) = from {
        v["from"] = json!(f);
    }
    if let Some(t) = to {
        v["to"] = json!([t]);
    }
    if let Some(t) = token {
        v["from_prior"] = json!(t);
    }
    v.to_string()
}

fn honest_traffic(att: Att) -> Ctx {
    let w = world(att);
    let docs = docs_of(&w);
    let net = |p: usize| Net::new(&docs, &w[p].secrets());
    let (a, b, d, m) = (w[A].did.clone(), w[B].did.clone(), w[D].did.clone(), w[M].did.clone());
    let mut ctx = Ctx { world: w.clone(), att, sent: vec![], tokens: vec![], known: vec![], opened: vec![] };
    // rotation: carol became alice; bob was once carol too (another token, other audience)
    let mut tok = vec![];
    for (kid, aud, exp) in [("e1", &b, 11), ("s1", &m, 12)] {
        let fp = FromPrior::build(w[C].did.clone(), a.clone()).aud(aud.clone()).exp(exp).finalize();
        match run(&Op::FpPack { fp: fp.clone(), kid: Some(w[C].kid(kid)) }, &net(C)) {
            Out::Packed(t, k) => {
                ctx.tokens.push((k, serde_json::to_value(&fp).unwrap(), t.clone()));
                tok.push(t);
            }
            o => panic!("token: {o:?}"),
        }
    }
    let mut put = |ctx: &mut Ctx, name: &'static str, who: usize, to: usize, mode: Mode, edit: &dyn Fn(&mut Message)| {
        let mark = format!("content-of-{name}.");
        let mut msg = simple(Some(&w[who].did), Some(&w[to].did), &mark);
        edit(&mut msg);
        let (text, _) = block_on(mode.pack(&msg, &net(who))).unwrap_or_else(|e| panic!("{name}: {e:?}"));
        let sign = mode.sign_by.as_ref().map(|s| if s.contains('#') { s.clone() } else { w[who].kid("e1") });
        let auth = mode.from.as_ref().filter(|_| mode.to.is_some()).map(|f| if f.contains('#') { f.clone() } else { w[who].kid("x1") });
        let readers: Vec<String> = match &mode.to {
            None => vec![],
            Some(t) if t.contains('#') => vec![t.clone()],
            Some(_) => w[to].ka_kids(KT::X25519),
        };
        let enc = mode.to.is_some();
        ctx.sent.push(Sent { name, content: ref_json(&msg), auth, sign, to, mark, readers: if enc { readers } else { vec![] } });
        ctx.known.push(Know { name: name.into(), text });
    };
    let al = &ANON[0];
    let none = |_: &mut Message| {};
    let af = |to: &str, from: bool, sign: Option<&str>, protect: bool| Mode::enc(to, from.then_some(a.as_str()), sign, protect, al);
    put(&mut ctx, "ab-plain", A, B, Mode::plain(), &none);
    put(&mut ctx, "ab-anon", A, B, af(&b, false, None, false), &none);
    put(&mut ctx, "ab-auth", A, B, af(&b, true, None, false), &none);
    put(&mut ctx, "ab-auth-sign", A, B, af(&b, true, Some(&a), false), &none);
    put(&mut ctx, "ab-protect", A, B, af(&b, true, None, true), &none);
    put(&mut ctx, "ab-protect-sign", A, B, af(&b, true, Some(&a), true), &none);
    put(&mut ctx, "ab-anon-sign", A, B, af(&b, false, Some(&w[A].kid("s1")), false), &none);
    put(&mut ctx, "ab-sign", A, B, Mode::signed(&a), &none);
    put(&mut ctx, "ab-auth-p", A, B, Mode::enc(&w[B].kid("p1"), Some(&w[A].kid("p1")), None, false, &ANON[1]), &none);
    put(&mut ctx, "ab-auth-token", A, B, af(&b, true, None, false), &|x| x.from_prior = Some(tok[0].clone()));
    put(&mut ctx, "ab-sign-claims", A, B, Mode::signed(&w[A].kid("s1")), &|x| {
        x.extra_headers.insert("iss".into(), json!(a));
        x.extra_headers.insert("sub".into(), json!(m));
        x.extra_headers.insert("aud".into(), json!(b));
    });
    put(&mut ctx, "am-auth", A, M, af(&m, true, None, false), &none);
    put(&mut ctx, "am-auth-sign", A, M, af(&m, true, Some(&a), false), &none);
    put(&mut ctx, "am-anon-sign", A, M, af(&m, false, Some(&w[A].kid("s1")), false), &none);
    put(&mut ctx, "am-protect-sign", A, M, af(&m, true, Some(&a), true), &none);
    put(&mut ctx, "am-auth-token", A, M, af(&m, true, None, false), &|x| x.from_prior = Some(tok[1].clone()));
    put(&mut ctx, "ba-auth", B, A, Mode::enc(&a, Some(&b), None, false, al), &none);
    put(&mut ctx, "ba-sign", B, A, Mode::signed(&b), &none);
    put(&mut ctx, "bm-auth-sign", B, M, Mode::enc(&m, Some(&b), Some(&b), false, al), &none);
    for (name, to) in [("ad-forward", &d), ("am-forward", &m)] {
        let mut md = Mode::enc(to, Some(&a), None, false, al);
        md.forward = true;
        put(&mut ctx, name, A, if to == &d { D } else { M }, md, &none);
    }
    drop(put);
    // analysis: open, take apart, and let honest parties forward, until nothing new comes out
    let keys = own(att, &w);
    let look = lookup_first(&w);
    let mut i = 0;
    while i < ctx.known.len() {
        let k = ctx.known[i].clone();
        i += 1;
        let mut new: Vec<(String, String)> = vec![];
        if let Ok(v) = serde_json::from_str::<Value>(&k.text) {
            if v.get("ciphertext").is_some() {
                for (kid, key) in &keys {
                    if let Ok(o) = open_jwe(&k.text, kid, key, &look) {
                        new.push((format!("open({})", k.name), String::from_utf8_lossy(&o.pt).into_owned()));
                        ctx.opened.push((k.text.clone(), o));
                        break;
                    }
                }
            }
            if let Some(p) = v.get("payload").and_then(|p| p.as_str()).and_then(b64u_dec) {
                new.push((format!("payload({})", k.name), String::from_utf8_lossy(&p).into_owned()));
            }
            if let Some(x) = v["attachments"][0]["data"].get("json") {
                new.push((format!("attached({})", k.name), x.to_string()));
            }
            for p in [A, B, D, MED] {
                if let Some(t) = relay(&k.text, &net_for(&ctx, p)) {
                    new.push((format!("relay{p}({})", k.name), t));
                }
            }
        }
        for (name, text) in new {
            if !ctx.known.iter().any(|x| x.text == text) {
                ctx.known.push(Know { name, text });
            }
        }
    }
    ctx
}

/// Key ids of honest parties come first in the list of parties, so their own documents decide.
fn lookup_first(w: &[Party]) -> impl Fn(&str) -> Option<Key> + '_ {
    move |kid| {
        let did = kid.split('#').next().unwrap();
        w.iter().find(|p| p.did == did)?.keys.iter().find(|k| k.kid == kid).map(|k| k.key.clone())
    }
}

fn net_for(ctx: &Ctx, p: usize) -> Net {
    let mut s = ctx.world[p].secrets();
    if ctx.att == Att::Insider {
        let lost = ctx.world[B].kid("x2");
        s.retain(|x| x.id != lost);
    }
    Net::new(&docs_of(&ctx.world), &s)
}

/// What an honest party, acting as a mediator, passes on.
fn relay(text: &str, net: &Net) -> Option<String> {
    let (m, _) = block_on(Message::unpack(text, net, net, &UnpackOptions { expect_decrypt_by_all_keys: false, unwrap_re_wrapping_forward: false })).ok()?;
    try_parse_forward(&m).map(|f| f.forwarded_msg.to_string())
}

impl Ctx {
    fn attackers(&self, kid: &str) -> bool {
        kid.split('#').next() == Some(self.world[M].did.as_str())
            || (self.att == Att::Insider && kid == self.world[B].kid("x2"))
    }
    /// Keys the thief can rightfully use in one role.
    fn stolen(&self, kid: &str, frag: &str) -> bool {
        self.att == Att::Thief && kid == self.world[A].kid(frag)
    }
    /// Whether everything the receiver is told is true.
    fn truth(&self, me: usize, m: &Message, md: &UnpackMetadata) -> Result<&'static str, String> {
        let c = ref_json(m);
        let auth = md.encrypted_from_kid.as_ref().filter(|k| !self.attackers(k) && !self.stolen(k, "pk"));
        let sign = md.sign_from.as_ref().filter(|k| !self.attackers(k) && !self.stolen(k, "sk"));
        if md.authenticated && md.encrypted_from_kid.is_none() && md.sign_from.is_none() {
            return Err("authenticated by nobody".into());
        }
        if md.non_repudiation != md.sign_from.is_some() || md.sign_from.is_some() != md.signed_message.is_some() {
            return Err("non-repudiation without a signature".into());
        }
        if auth.is_some() || sign.is_some() {
            let ok = self.sent.iter().any(|s| {
                s.content == c
                    && auth.map(|k| s.auth.as_ref() == Some(k) && s.to == me).unwrap_or(true)
                    && sign.map(|k| s.sign.as_ref() == Some(k)).unwrap_or(true)
            });
            if !ok {
                return Err(format!("believes sender {auth:?} signer {sign:?} of {c}, which they never sent like that"));
            }
        }
        if let (Some(_), Some(t)) = (sign, &md.signed_message) {
            let (k, _, p) = open_jws(t, &lookup_first(&self.world)).map_err(|e| format!("kept signature: {e}"))?;
            let same = serde_json::from_slice::<Value>(&p).ok() == Some(c.clone());
            if Some(&k) != md.sign_from.as_ref() || !same {
                return Err(format!("the kept signed message is {k} over something else"));
            }
        }
        let mut tok = false;
        match (&md.from_prior, &md.from_prior_issuer_kid) {
            (None, None) => {}
            (Some(f), Some(k)) => {
                let f = serde_json::to_value(f).unwrap();
                let issuer = f["iss"].as_str().unwrap_or("");
                let honest_iss = issuer != self.world[M].did;
                if (honest_iss || !self.attackers(k)) && !self.tokens.iter().any(|t| t.0 == *k && t.1 == f) {
                    return Err(format!("believes rotation token {f} of {k}, never issued"));
                }
                tok = true;
            }
            x => return Err(format!("half a rotation token: {x:?}")),
        }
        Ok(match (auth.is_some(), sign.is_some(), tok) {
            (true, true, _) => "honest sender and signer",
            (true, ..) => "honest sender",
            (_, true, _) => "honest signer",
            (_, _, true) => "honest token",
            _ => "no honest claim",
        })
    }
    /// Gives a text to every honest party under both settings.
    fn submit(&self, rec: &mut Rec, nets: &[(usize, Net)], name: &str, text: &str) {
        rec.begin(name);
        if !rec.state(text) {
            return;
        }
        for (p, net) in nets {
            for all in [false, true] {
                if all && *p != B {
                    continue;
                }
                let o = UnpackOptions { expect_decrypt_by_all_keys: all, unwrap_re_wrapping_forward: true };
                rec.evals += 1;
                rec.traces += 1;
                match block_on(Message::unpack(text, net, net, &o)) {
                    Err(e) => rec.outcome(format!("refused {:?}", e.kind())),
                    Ok((m, md)) => match self.truth(*p, &m, &md) {
                        Ok(l) => rec.outcome(l),
                        Err(e) => rec.fail(format!("{name}@{p}"), e),
                    },
                }
            }
        }
    }
    fn nets(&self) -> Vec<(usize, Net)> {
        [A, B, D].iter().map(|p| (*p, net_for(self, *p))).collect()
    }
    /// Texts the attacker starts from: all it has seen or taken apart, and messages of its own.
    fn roots(&self) -> Vec<Know> {
        let mut v = self.known.clone();
        let (a, b, m, c) = (&self.world[A].did, &self.world[B].did, &self.world[M].did, &self.world[C].did);
        let k = |n: &str, t: String| Know { name: n.into(), text: t };
        v.push(k("evil-a", evil(Some(a), Some(b), None)));
        v.push(k("evil-m", evil(Some(m), Some(b), None)));
        v.push(k("evil-c", evil(Some(c), Some(b), None)));
        v.push(k("evil-anon", evil(None, None, None)));
        for (i, t) in self.all_tokens().iter().enumerate() {
            v.push(k(&format!("evil-token-{}", t.0), evil(Some(if i % 2 == 0 { a } else { m }), Some(b), Some(&t.1))));
        }
        v
    }
    /// Rotation tokens, genuine and forged.
    fn all_tokens(&self) -> Vec<(String, String)> {
        let (a, m, c) = (&self.world[A], &self.world[M], &self.world[C]);
        let mut v: Vec<(String, String)> = self.tokens.iter().enumerate().map(|(i, t)| (format!("real{i}"), t.2.clone())).collect();
        let me = m.get("e1").key.clone();
        let ms = m.get("s1").key.clone();
        let signers = [("me", &me, "EdDSA"), ("ms", &ms, "ES256")];
        for (sn, key, alg) in signers {
            for (kn, kid) in [("own", m.kid("e1")), ("owns", m.kid("s1")), ("carol", c.kid("e1")), ("carols", c.kid("s1")), ("alice", a.kid("e1")), ("borrowed", m.kid("ce"))] {
                for (cn, iss, sub) in [("c-m", &c.did, &m.did), ("a-m", &a.did, &m.did), ("m-a", &m.did, &a.did)] {
                    v.push((
                        format!("{sn}-{kn}-{cn}"),
                        ref_jwt(key, &json!({"typ":"JWT","alg":alg,"kid":kid}), &json!({"iss":iss,"sub":sub})),
                    ));
                }
            }
        }
        if self.att == Att::Thief {
            for (n, k, who) in [("eo", "eo", c), ("po", "po", c), ("pk", "pk", c), ("aeo", "eo", a), ("apk", "pk", a)] {
                let (key, alg) = (&who.get(k).key, if who.get(k).key.kt == KT::Ed25519 { "EdDSA" } else { "ES256" });
                for (cn, iss, sub) in [("c-m", &c.did, &m.did), ("a-m", &a.did, &m.did)] {
                    v.push((
                        format!("thief-{n}-{cn}"),
                        ref_jwt(key, &json!({"typ":"JWT","alg":alg,"kid":who.kid(k)}), &json!({"iss":iss,"sub":sub})),
                    ));
                }
            }
        }
        // parts of the genuine tokens mixed, and with forged ones
        let parts = |t: &str| t.split('.').map(|s| s.to_string()).collect::<Vec<_>>();
        let (x, y) = (parts(&self.tokens[0].2), parts(&self.tokens[1].2));
        let f = parts(&v.iter().find(|t| t.0 == "me-carol-c-m").unwrap().1.clone());
        for (n, p, q) in [("01", &x, &y), ("10", &y, &x), ("0f", &x, &f), ("1f", &y, &f)] {
            for mask in 1..7 {
                let t: Vec<String> = (0..3).map(|i| if mask >> i & 1 == 1 { p[i].clone() } else { q[i].clone() }).collect();
                v.push((format!("mix{n}-{mask}"), t.join(".")));
            }
        }
        for alg in ["none", "HS256", ""] {
            let h = b64u(json!({"typ":"JWT","alg":alg,"kid":c.kid("e1")}).to_string().as_bytes());
            for s in ["", "AA", x[2].as_str()] {
                v.push((format!("alg-{alg}-{}", s.len()), format!("{h}.{}.{s}", f[1])));
            }
        }
        // signed messages of alice presented as tokens
        for k in &self.known {
            if let Some((pr, pl, sig, kid)) = jws_parts(&k.text) {
                v.push((format!("jws-{}", k.name), format!("{pr}.{pl}.{sig}")));
                let h = b64u(json!({"typ":"JWT","alg":"ES256","kid":kid}).to_string().as_bytes());
                v.push((format!("jwsh-{}", k.name), format!("{h}.{pl}.{sig}")));
            }
        }
        v
    }
    /// The attacker's constructive steps on one text.
    fn steps(&self, t: &str, label: &str) -> Vec<(&'static str, String)> {
        let w = &self.world;
        let (a, b, m) = (&w[A], &w[B], &w[M]);
        let k = |p: &Party, f: &str| (p.kid(f), p.get(f).key.clone());
        let (bx1, bx2, bp, mx, mp, me, ms) = (k(b, "x1"), k(b, "x2"), k(b, "p1"), k(m, "x1"), k(m, "p1"), k(m, "e1"), k(m, "s1"));
        let bx = [(bx1.0.as_str(), &bx1.1), (bx2.0.as_str(), &bx2.1)];
        let bpp = [(bp.0.as_str(), &bp.1)];
        let mut v: Vec<(&'static str, String)> = vec![];
        let p = t.as_bytes();
        v.push(("s", ref_sign(&me.1, &me.0, p).to_string()));
        v.push(("s@a", ref_sign(&me.1, &a.kid("e1"), p).to_string()));
        v.push(("s@as", ref_sign(&ms.1, &a.kid("s1"), p).to_string()));
        v.push(("s@ae", ref_sign(&me.1, &m.kid("ae"), p).to_string()));
        let stolen = self.known.iter().find_map(|k| serde_json::from_str::<Value>(&k.text).ok().filter(|v| v.get("signatures").is_some()));
        if let Some(s) = stolen {
            let mut two = ref_sign(&me.1, &me.0, p);
            two["signatures"].as_array_mut().unwrap().push(s["signatures"][0].clone());
            v.push(("s+a", two.to_string()));
            two["signatures"].as_array_mut().unwrap().reverse();
            v.push(("a+s", two.to_string()));
            two["signatures"].as_array_mut().unwrap().truncate(1);
            v.push(("a-only", two.to_string()));
        }
        v.push(("s-none", json!({"payload": b64u(p), "signatures": []}).to_string()));
        let lab = |s: &str| format!("{label}/{s}");
        if self.att == Att::Thief {
            for (n, f) in [("s-eo", "eo"), ("s-ko", "ko"), ("s-po", "po"), ("s-pk", "pk"), ("s-sk", "sk")] {
                v.push((n, ref_sign(&a.get(f).key, &a.kid(f), p).to_string()));
            }
            for (n, f, to) in [("u-xo", "xo", &bx[..]), ("u-po", "po", &bpp[..]), ("u-pk", "pk", &bpp[..]), ("u-sk", "sk", &bpp[..])] {
                let kid = a.kid(f);
                v.push((n, Seal::new(&lab(n), "A256CBC-HS512", Some((&kid, &a.get(f).key)), to, p).build().to_string()));
            }
            v.push(("n", Seal::new(&lab("n"), "XC20P", None, &bx, p).build().to_string()));
            let f = fwd_json("evil-f", &b.did, if serde_json::from_str::<Value>(t).is_ok() { t } else { "{}" });
            v.push(("f", Seal::new(&lab("f"), "XC20P", None, &bx, f.as_bytes()).build().to_string()));
            return v;
        }
        v.push(("n", Seal::new(&lab("n"), "XC20P", None, &bx, p).build().to_string()));
        v.push(("n-p", Seal::new(&lab("np"), "A256GCM", None, &bpp, p).build().to_string()));
        let pu = "A256CBC-HS512";
        v.push(("u", Seal::new(&lab("u"), pu, Some((&mx.0, &mx.1)), &bx, p).build().to_string()));
        let ax = a.kid("x1");
        let ap = a.kid("p1");
        v.push(("u@a", Seal::new(&lab("ua"), pu, Some((&ax, &mx.1)), &bx, p).build().to_string()));
        v.push(("u@ap", Seal::new(&lab("uap"), pu, Some((&ap, &mp.1)), &bpp, p).build().to_string()));
        // sender id and party info disagree
        let mut s = Seal::new(&lab("us"), pu, Some((&mx.0, &mx.1)), &bx, p);
        s.extra_protected = vec![("skid".into(), json!(ax))];
        v.push(("u-skid", s.build().to_string()));
        let mut s = Seal::new(&lab("uu"), pu, Some((&mx.0, &mx.1)), &bx, p);
        s.apu = Some(ax.as_bytes().to_vec());
        v.push(("u-apu", s.build().to_string()));
        let mut s = Seal::new(&lab("uus"), pu, Some((&mx.0, &mx.1)), &bx, p);
        s.apu = Some(ax.as_bytes().to_vec());
        s.with_skid = false;
        v.push(("u-apu-only", s.build().to_string()));
        // anonymous encryption dressed up as authenticated
        for (n, alg) in [("n@a", ES), ("n-pu", PU)] {
            let mut s = Seal::new(&lab(n), pu, None, &bx, p);
            s.apu = Some(ax.as_bytes().to_vec());
            s.extra_protected = vec![("skid".into(), json!(ax)), ("alg".into(), json!(alg))];
            v.push((n, s.build().to_string()));
        }
        // key agreement without alice's key: other shared secrets the attacker can compute
        for (n, which) in [("z-e", 0), ("z-ee", 1), ("z-0", 2), ("z-es", 3)] {
            v.push((n, self.forge(&lab(n), &ax, &bx1, p, which)));
        }
        for (n, next) in [("f", b.did.clone()), ("f-k", bx1.0.clone()), ("f-m", m.did.clone())] {
            let f = fwd_json("evil-f", &next, if serde_json::from_str::<Value>(t).is_ok() { t } else { "{}" });
            v.push((n, Seal::new(&lab(n), "XC20P", None, &bx, f.as_bytes()).build().to_string()));
        }
        v
    }
    /// ECDH-1PU naming `skid` as sender, with a shared secret that needs no key of the sender.
    fn forge(&self, label: &str, skid: &str, to: &(String, Key), pt: &[u8], which: u32) -> String {
        let epk = Key::derive(KT::X25519, &format!("epk/{label}"));
        let apv = apv_of(&[&to.0]);
        let h = json!({"alg": PU, "enc": "A256CBC-HS512", "apv": b64u(&apv), "apu": b64u(skid.as_bytes()), "skid": skid,
            "typ": "application/didcomm-encrypted+json", "epk": epk.public_jwk()})
        .to_string();
        let ze = ecdh(KT::X25519, &epk.sk, &to.1.pk).unwrap();
        let pkx = lookup_first(&self.world)(skid).unwrap().pk;
        let mut z = ze.clone();
        match which {
            1 => z.extend(ze),
            2 => z.extend([0; 32]),
            3 => z.extend(ecdh(KT::X25519, &epk.sk, &pkx).unwrap()),
            _ => {}
        }
        let cek = prf(&format!("cek/{label}"), 64);
        let iv = prf(&format!("iv/{label}"), 16);
        let pr = b64u(h.as_bytes());
        let (ct, tag) = seal("A256CBC-HS512", &cek, &iv, pr.as_bytes(), pt);
        let kek = kek(&z, PU, skid.as_bytes(), &apv, Some(&tag));
        let mut wr = cek;
        assert!(askar_crypto::cipher::kw_wrap(&kek, &mut wr));
        json!({"protected":pr,"recipients":[{"header":{"kid":to.0},"encrypted_key":b64u(&wr)}],"iv":b64u(&iv),
            "ciphertext":b64u(&ct),"tag":b64u(&tag)})
        .to_string()
    }
    /// Depth-first over compositions.
    fn compose(&self, rec: &mut Rec, nets: &[(usize, Net)], name: &str, text: &str, depth: u32) {
        self.submit(rec, nets, name, text);
        // an honest mediator may be used on the way
        if let Some(t) = relay(text, &nets[1].1) {
            rec.transitions += 1;
            self.submit(rec, nets, &format!("relay({name})"), &t);
        }
        if depth == 0 {
            return;
        }
        for (op, t) in self.steps(text, name) {
            rec.transitions += 1;
            self.compose(rec, nets, &format!("{op}({name})"), &t, depth - 1);
        }
    }
}

/// (protected, payload, signature, kid) of a one-signature JWS.
fn jws_parts(t: &str) -> Option<(String, String, String, String)> {
    let v: Value = serde_json::from_str(t).ok()?;
    let s = &v["signatures"][0];
    let g = |v: &Value| v.as_str().map(|x| x.to_string());
    Some((g(&s["protected"])?, g(&v["payload"])?, g(&s["signature"])?, g(&s["header"]["kid"])?))
}

const JWS_CHUNKS: usize = 8;

fn splice_jwe(ctx: &Ctx, rec: &mut Rec, i: usize) {
    let nets = ctx.nets();
    let jwes: Vec<(&Know, Value)> = ctx
        .known
        .iter()
        .filter_map(|k| serde_json::from_str::<Value>(&k.text).ok().filter(|v| v.get("ciphertext").is_some()).map(|v| (k, v)))
        .collect();
    let Some((k1, v1)) = jwes.get(i) else { return };
    let f = ["protected", "recipients", "iv", "ciphertext", "tag"];
    for (j, (k2, v2)) in jwes.iter().enumerate() {
        if i == j {
            continue;
        }
        for mask in 1u32..31 {
            let mut v = v1.clone();
            for (b, n) in f.iter().enumerate() {
                if mask >> b & 1 == 1 {
                    v[*n] = v2[*n].clone();
                }
            }
            rec.transitions += 1;
            ctx.submit(rec, &nets, &format!("splice({},{},{mask})", k1.name, k2.name), &v.to_string());
        }
        // recipients of both, in either order
        for swap in [false, true] {
            let mut v = v1.clone();
            let mut r = v1["recipients"].as_array().unwrap().clone();
            let o = v2["recipients"].as_array().unwrap().clone();
            r = if swap { [o, r].concat() } else { [r, o].concat() };
            v["recipients"] = json!(r);
            ctx.submit(rec, &nets, &format!("join({},{},{swap})", k1.name, k2.name), &v.to_string());
        }
        // one object that is both
        let mut v = v1.clone();
        for (n, x) in v2.as_object().unwrap() {
            if v.get(n).is_none() {
                v[n] = x.clone();
            }
        }
        ctx.submit(rec, &nets, &format!("both({},{})", k1.name, k2.name), &v.to_string());
    }
    // header rewritten over the same ciphertext
    let ph: Value = b64u_dec(v1["protected"].as_str().unwrap()).and_then(|b| serde_json::from_slice(&b).ok()).unwrap();
    let kids: BTreeSet<String> = ctx.world.iter().flat_map(|p| p.keys.iter().map(|k| k.kid.clone())).collect();
    for kid in &kids {
        for which in 0..4 {
            let mut h = ph.clone();
            if which != 1 {
                h["skid"] = json!(kid);
            }
            if which != 0 {
                h["apu"] = json!(b64u(kid.as_bytes()));
            }
            if which == 3 {
                h["alg"] = json!(PU);
            }
            let mut v = v1.clone();
            v["protected"] = json!(b64u(h.to_string().as_bytes()));
            rec.transitions += 1;
            ctx.submit(rec, &nets, &format!("header({},{kid},{which})", k1.name), &v.to_string());
        }
        for r in 0..v1["recipients"].as_array().unwrap().len() {
            let mut v = v1.clone();
            v["recipients"][r]["header"]["kid"] = json!(kid);
            ctx.submit(rec, &nets, &format!("address({},{kid},{r})", k1.name), &v.to_string());
        }
    }
    // whoever can open it knows its content key: other content under the same wrapped keys
    for (t, o) in &ctx.opened {
        if t != &k1.text {
            continue;
        }
        for (n, evil) in ctx.roots().iter().filter(|r| r.name.starts_with("evil") && !r.name.contains("mix")).enumerate() {
            for same_iv in [true, false] {
                let iv = if same_iv { o.iv.clone() } else { prf(&format!("reseal/{n}"), o.iv.len()) };
                let pr = v1["protected"].as_str().unwrap();
                let (ct, tag) = seal(&o.enc, &o.cek, &iv, pr.as_bytes(), evil.text.as_bytes());
                let mut v = v1.clone();
                v["iv"] = json!(b64u(&iv));
                v["ciphertext"] = json!(b64u(&ct));
                v["tag"] = json!(b64u(&tag));
                rec.transitions += 1;
                ctx.submit(rec, &nets, &format!("reseal({},{},{same_iv})", k1.name, evil.name), &v.to_string());
                // keeping the old tag where the wrapped keys depend on it
                v["tag"] = v1["tag"].clone();
                ctx.submit(rec, &nets, &format!("reseal-tag({},{},{same_iv})", k1.name, evil.name), &v.to_string());
            }
        }
    }
}

fn splice_jws(ctx: &Ctx, rec: &mut Rec, chunk: usize) {
    let nets = ctx.nets();
    let mut parts: Vec<(String, [String; 4])> = ctx
        .known
        .iter()
        .filter_map(|k| jws_parts(&k.text).map(|p| (k.name.clone(), [p.0, p.1, p.2, p.3])))
        .collect();
    // rotation tokens presented as signatures, and signatures of the attacker
    for (kid, _, t) in &ctx.tokens {
        let p: Vec<&str> = t.split('.').collect();
        parts.push((format!("token-{kid}"), [p[0].into(), p[1].into(), p[2].into(), kid.clone()]));
    }
    let m = &ctx.world[M];
    for e in [evil(Some(&ctx.world[A].did), None, None), evil(Some(&m.did), None, None)] {
        let j = ref_sign(&m.get("e1").key, &m.kid("e1"), e.as_bytes()).to_string();
        let p = jws_parts(&j).unwrap();
        parts.push((format!("own-{}", parts.len()), [p.0, p.1, p.2, p.3]));
    }
    let kids: BTreeSet<String> = ctx.world.iter().flat_map(|p| p.keys.iter().filter(|k| k.auth).map(|k| k.kid.clone())).collect();
    let mk = |p: [&str; 4]| json!({"payload": p[1], "signatures": [{"protected": p[0], "signature": p[2], "header": {"kid": p[3]}}]}).to_string();
    let mut give = |rec: &mut Rec, name: String, t: String| {
        rec.transitions += 1;
        ctx.submit(rec, &nets, &name, &t);
        for (op, t2) in ctx.steps(&t, &name) {
            if ["n", "u", "u@a"].contains(&op) {
                rec.transitions += 1;
                ctx.submit(rec, &nets, &format!("{op}({name})"), &t2);
            }
        }
    };
    for (n1, p1) in parts.iter().skip(chunk).step_by(JWS_CHUNKS) {
        for (n2, p2) in &parts {
            for mask in 0u32..16 {
                if n1 == n2 && mask != 0 {
                    continue;
                }
                let g = |i: usize| if mask >> i & 1 == 1 { p2[i].as_str() } else { p1[i].as_str() };
                give(rec, format!("jws({n1},{n2},{mask})"), mk([g(0), g(1), g(2), g(3)]));
            }
        }
        for kid in &kids {
            give(rec, format!("kid({n1},{kid})"), mk([&p1[0], &p1[1], &p1[2], kid]));
        }
        // other algorithm names over the same signature
        for alg in ["EdDSA", "ES256", "ES256K", "none", ""] {
            let h = b64u(json!({"typ": "application/didcomm-signed+json", "alg": alg}).to_string().as_bytes());
            give(rec, format!("alg({n1},{alg})"), mk([&h, &p1[1], &p1[2], &p1[3]]));
        }
        for sig in ["", "AA", &"A".repeat(86)] {
            give(rec, format!("sig({n1},{})", sig.len()), mk([&p1[0], &p1[1], sig, &p1[3]]));
        }
    }
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let depth = if full && naming() == 0 { 3 } else { 2 };
    let mut p = Plan::new(
        "C22",
        "model_checking",
        "21 honest sessions (every protection, addressed to an honest party, to the attacker, or routed through a mediator) by \
         the real library; all the attacker learns from them by opening, taking apart and letting honest parties relay; from \
         every such text and its own messages (54+ rotation tokens among them) every sequence of attacker steps (sign, claim \
         another's key id, encrypt, dress up, wrong shared secrets, wrap in forwards) up to the bound; every member-wise mix \
         of two envelopes, signatures and tokens; re-encryption under learned content keys; an outsider, one that took \
         one of two recipient keys, and one with withdrawn or single-purpose keys of two honest parties. State: a distinct text; each is given to three honest parties and what they are told \
         must be true of the ledger of honest sessions; nothing not meant for the attacker is ever among what it learns",
    );
    p.assumptions = vec![
        "perfect cryptography beyond the listed algebraic tricks (no guessing, no collisions)".into(),
        "resolvers give each DID's own document; the attacker chooses its own document's content freely within the listed tricks".into(),
    ];
    p.namings = if full { 4 } else { 2 };
    p.bounds = json!({"composition steps": if full { "3 (2 under the second and third spelling of ids)" } else { "2" }, "attackers": 3, "receivers": 3});
    for att in [Att::Outsider, Att::Insider, Att::Thief] {
        let tag = format!("{att:?}").to_lowercase();
        let ctx = Arc::new(honest_traffic(att));
        let c = ctx.clone();
        p.case(format!("{tag}/secrecy"), move |rec| {
            let keys: Vec<String> = own(c.att, &c.world).into_iter().map(|k| k.0).collect();
            let mut seen: HashMap<&str, usize> = HashMap::new();
            for s in &c.sent {
                let mine = s.readers.is_empty() || s.readers.iter().any(|r| keys.contains(r));
                for k in &c.known {
                    rec.eval(&(s.name, &k.name), true);
                    rec.traces += 1;
                    let has = k.text.contains(&s.mark) && serde_json::from_str::<Value>(&k.text).ok().map(|v| v.get("ciphertext").is_none()).unwrap_or(true);
                    if has {
                        *seen.entry(s.name).or_default() += 1;
                    }
                    rec.check(mine || !k.text.contains(&s.mark), format!("{}<{}", s.name, k.name), || "learned by the attacker".into());
                }
                // the analysis really finds what it should
                rec.check(!mine || seen.contains_key(s.name), format!("{}-vacuous", s.name), || "not even learned where it is meant to be".into());
            }
            rec.sample(|| json!({"knowledge": c.known.iter().map(|k| k.name.clone()).collect::<Vec<_>>()}));
        });
        // every honest message is believed by its own receiver (the checks below are not vacuous)
        let c = ctx.clone();
        p.case(format!("{tag}/honest"), move |rec| {
            let nets: BTreeMap<usize, Net> = c.nets().into_iter().collect();
            for s in &c.sent {
                let Some(net) = nets.get(&s.to) else { continue };
                let k = c.known.iter().find(|k| k.name == s.name).unwrap();
                let mut text = k.text.clone();
                if let Some(t) = relay(&text, &net_for(&c, MED)) {
                    text = t;
                }
                rec.eval(s.name, true);
                rec.traces += 1;
                match block_on(Message::unpack(&text, net, net, &UnpackOptions::default())) {
                    Err(e) => rec.fail(s.name, format!("{e:?}")),
                    Ok((m, md)) => {
                        rec.check(ref_json(&m) == s.content && md.encrypted_from_kid == s.auth && md.sign_from == s.sign, s.name, || {
                            format!("{md:?}")
                        });
                    }
                }
            }
        });
        for (i, r) in ctx.roots().into_iter().enumerate() {
            let c = ctx.clone();
            // the deepest level only from messages that carry or claim something
            p.case(format!("{tag}/compose/{i}-{}", r.name), move |rec| {
                let nets = c.nets();
                let d = if r.name.starts_with("evil-token") { depth - 1 } else { depth };
                c.compose(rec, &nets, &r.name, &r.text, d);
                rec.sample(|| json!({"from": r.name, "depth": d}));
            });
        }
        let n = if att == Att::Thief { 0 } else { ctx.known.iter().filter(|k| k.text.contains("\"ciphertext\"")).count() };
        for i in 0..n {
            let c = ctx.clone();
            p.case(format!("{tag}/splice-jwe/{i}"), move |rec| splice_jwe(&c, rec, i));
        }
        for i in 0..JWS_CHUNKS {
            let c = ctx.clone();
            p.case(format!("{tag}/splice-jws/{i}"), move |rec| splice_jws(&c, rec, i));
        }
        let c = ctx.clone();
        p.case(format!("{tag}/tokens"), move |rec| {
            let net = net_for(&c, B);
            for (n, t) in c.all_tokens() {
                rec.state(&t);
                rec.evals += 1;
                rec.traces += 1;
                match block_on(FromPrior::unpack(&t, &net)) {
                    Err(e) => rec.outcome(format!("token refused {:?}", e.kind())),
                    Ok((f, kid)) => {
                        let f = serde_json::to_value(&f).unwrap();
                        let honest = f["iss"] != json!(c.world[M].did) || !c.attackers(&kid);
                        rec.outcome(if honest { "honest token" } else { "own token" });
                        rec.check(!honest || c.tokens.iter().any(|t| t.0 == kid && t.1 == f), &n, || format!("{f} of {kid} accepted, never issued"));
                    }
                }
            }
        });
    }
    p
}
