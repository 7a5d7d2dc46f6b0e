//! C17: conforming envelopes of another implementation are read correctly, however they are written.
use crate::engine::{Env, Plan, Rec};
use crate::layers::*;
use crate::msgs::*;
use crate::mutate::{get, nodes, render, with, El, Path, Style};
use crate::refjose::*;
use crate::world::*;
use didcomm::{Message, UnpackMetadata};
use serde_json::{json, Value};
use std::sync::Arc;

/// One permitted way to write something differently.
#[derive(Clone, Debug, PartialEq)]
enum Var {
    None,
    /// the envelope's JSON, at a node
    Outer(Path, Style),
    /// the protected header's JSON, at a node
    Prot(Path, Style),
    /// an unknown member in an object of the envelope / the protected header
    OuterAdd(Path, &'static str, Value),
    ProtAdd(Path, &'static str, Value),
    NoTyp,
    Typ(&'static str),
    NoSkid,
}
impl Var {
    fn name(&self) -> String {
        let sp = |p: &Path| crate::mutate::show(p);
        match self {
            Var::Outer(p, s) => format!("outer:{}:{s:?}", sp(p)),
            Var::Prot(p, s) => format!("prot:{}:{s:?}", sp(p)),
            Var::OuterAdd(p, n, v) => format!("outer:{}+{n}={v}", sp(p)),
            Var::ProtAdd(p, n, v) => format!("prot:{}+{n}={v}", sp(p)),
            x => format!("{x:?}"),
        }
    }
}

fn add(v: &Value, at: &Path, name: &str, x: &Value) -> Value {
    let mut o = get(v, at).clone();
    o[name] = x.clone();
    with(v, at, o)
}

/// Text of one layer around `inner`, written with the given variations.
fn write(l: &Layer, inner: &str, label: &str, vars: &[Var]) -> String {
    let finish = |mut v: Value| {
        let mut text = None;
        for x in vars {
            if let Var::OuterAdd(p, n, a) = x {
                v = add(&v, p, n, a);
            }
        }
        for x in vars {
            if let Var::Outer(p, s) = x {
                text = Some(render(&v, p, *s));
            }
        }
        text.unwrap_or_else(|| v.to_string())
    };
    let header = |mut h: Value| {
        let mut text = None;
        for x in vars {
            match x {
                Var::ProtAdd(p, n, a) => h = add(&h, p, n, a),
                Var::NoTyp => {
                    h.as_object_mut().unwrap().remove("typ");
                }
                Var::Typ(t) => h["typ"] = json!(t),
                Var::NoSkid => {
                    h.as_object_mut().unwrap().remove("skid");
                }
                _ => {}
            }
        }
        for x in vars {
            if let Var::Prot(p, s) = x {
                text = Some(render(&h, p, *s));
            }
        }
        text.unwrap_or_else(|| h.to_string())
    };
    match l {
        Layer::Anon { enc, to } => {
            let r: Vec<_> = to.iter().map(|(a, b)| (a.as_str(), b)).collect();
            let s = Seal::new(label, enc, None, &r, inner.as_bytes());
            finish(s.build_with(&header(s.protected())))
        }
        Layer::Auth { from, to } => {
            let r: Vec<_> = to.iter().map(|(a, b)| (a.as_str(), b)).collect();
            let s = Seal::new(label, "A256CBC-HS512", Some((&from.0, &from.1)), &r, inner.as_bytes());
            finish(s.build_with(&header(s.protected())))
        }
        Layer::Sign { by } => {
            let h = header(serde_json::from_str(&jws_header(by.1.kt.sig_alg().unwrap())).unwrap());
            let pl = b64u(inner.as_bytes());
            finish(json!({"payload": pl, "signatures": [jws_entry(&by.1, &by.0, &h, &pl)]}))
        }
        Layer::Fwd { .. } => unreachable!(),
    }
}

/// String members judged one by one in the cases escape/...
const BORROWED: [&str; 13] = [
    "protected", "iv", "ciphertext", "tag", "kid", "encrypted_key", "apv", "apu", "skid", "payload", "signature", "typ", "alg",
];
fn member(p: &Path) -> String {
    match p.last() {
        Some(El::K(k)) => k.clone(),
        _ => String::new(),
    }
}

/// All variations of one layer.
fn variations(l: &Layer, full: bool) -> Vec<Var> {
    let sample = write(l, "{}", "sample", &[]);
    let outer: Value = serde_json::from_str(&sample).unwrap();
    let jwe = !matches!(l, Layer::Sign { .. });
    let prot_b64 = if jwe { &outer["protected"] } else { &outer["signatures"][0]["protected"] };
    let prot: Value = serde_json::from_slice(&b64u_dec(prot_b64.as_str().unwrap()).unwrap()).unwrap();
    let mut v = vec![Var::None];
    let values = [json!("x"), json!(1), json!(null), json!({"a": {"b": []}}), json!([1, "é\u{1F600}\\\""])];
    let names = ["x", "a-new-one", "", "é\"\\", "unprotected2"];
    for (is_outer, doc) in [(true, &outer), (false, &prot)] {
        for p in nodes(doc) {
            let n = get(doc, &p);
            let mut styles = vec![Style::Space];
            if n.is_object() {
                styles.push(Style::Reverse);
                for (i, x) in values.iter().enumerate() {
                    for (j, name) in names.iter().enumerate() {
                        if n.get(*name).is_some() {
                            continue; // not unknown there
                        }
                        if full || i == j || i == 0 {
                            v.push(if is_outer { Var::OuterAdd(p.clone(), name, x.clone()) } else { Var::ProtAdd(p.clone(), name, x.clone()) });
                        }
                    }
                }
            }
            if n.is_string() && (!BORROWED.contains(&member(&p).as_str()) || p.first() == Some(&El::K("epk".into()))) {
                styles.push(Style::Escape); // the others: cases escape/...
            }
            if matches!(p.last(), Some(El::K(_))) {
                styles.push(Style::EscapeName);
            }
            for s in styles {
                v.push(if is_outer { Var::Outer(p.clone(), s) } else { Var::Prot(p.clone(), s) });
            }
        }
    }
    // standard members of JOSE that do not concern the reader
    if jwe {
        v.push(Var::OuterAdd(vec![], "unprotected", json!({"x": 1})));
        v.push(Var::OuterAdd(vec![], "kid", json!(ns("did:example:carol#x1"))));
        v.push(Var::ProtAdd(vec![], "cty", json!("application/didcomm-plain+json")));
        v.push(Var::ProtAdd(vec![], "kid", json!(ns("did:example:carol#x1"))));
        v.push(Var::ProtAdd(vec![El::K("epk".into())], "kid", json!("e")));
        v.push(Var::ProtAdd(vec![El::K("epk".into())], "use", json!("enc")));
        v.push(Var::ProtAdd(vec![El::K("epk".into())], "alg", json!("ECDH-ES")));
        v.push(Var::OuterAdd(vec![El::K("recipients".into()), El::I(0), El::K("header".into())], "alg", json!("other")));
        v.push(Var::NoTyp);
        v.push(Var::Typ("didcomm-encrypted+json"));
        if matches!(l, Layer::Auth { .. }) {
            v.push(Var::NoSkid);
        }
    } else {
        v.push(Var::Typ("didcomm-signed+json"));
        v.push(Var::ProtAdd(vec![], "cty", json!("application/didcomm-plain+json")));
        v.push(Var::ProtAdd(vec![], "kid", json!(ns("did:example:carol#e1"))));
        v.push(Var::OuterAdd(vec![El::K("signatures".into()), El::I(0), El::K("header".into())], "alg", json!("none")));
    }
    v
}

fn read(rec: &mut Rec, what: &str, text: &str, net: &Net, want: &Message, md: &UnpackMetadata) {
    rec.begin(what);
    for every in [false, true] {
        rec.eval(&(what, every), true);
        match rec.guarded(|| block_on(unpack_with(text, net, every, true))) {
            Err(p) => rec.fail(what, format!("panic: {p}")),
            Ok(Err(e)) => {
                rec.outcome(format!("refused {:?}", e.kind()));
                rec.fail(what, format!("conforming envelope refused: {e}"))
            }
            Ok(Ok((m, got))) => {
                rec.outcome("read");
                rec.check(&m == want, what, || format!("content differs: {m:?}"));
                if let Some(d) = super::c02::md_diff(md, &got) {
                    rec.fail(what, d);
                }
                rec.sample(|| json!({"variation": what, "text": text.chars().take(160).collect::<String>()}));
            }
        }
    }
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C17",
        "exploration",
        "envelopes made by the independent implementation, for every supported nesting of layers, curve, algorithm and \
         recipient order, with every permitted variation of writing (white space, member order, escapes in names and values, \
         unknown and foreign members in every object, media type or sender id left out) at every node of every layer - pairs of \
         variations in the thorough tier: must be read to exactly the content and metadata they carry. Non-trivial: an envelope \
         was built and given to unpack",
    );
    p.namings = 4;
    p.bounds = json!({"variations_per_envelope": if full {2} else {1}, "layers": 3});
    let alice = rich("alice");
    let bob = rich("bob");
    use super::c02::kk;
    let mut stacks: Vec<Vec<Layer>> = vec![vec![]];
    for (i, (f, t)) in [("x2", vec!["x1", "x3"]), ("p1", vec!["p1", "p2"]), ("x1", vec!["x2"])].into_iter().enumerate() {
        let anon = |e: usize| Layer::Anon { enc: ENC_ALGS[e % 3], to: kk(&bob, &t) };
        let auth = Layer::Auth { from: kk(&alice, &[f])[0].clone(), to: kk(&bob, &t) };
        let sign = Layer::Sign { by: kk(&alice, &[["e2", "s1", "k1"][i]])[0].clone() };
        stacks.push(vec![anon(i)]);
        stacks.push(vec![anon(i + 1)]);
        stacks.push(vec![auth.clone()]);
        stacks.push(vec![sign.clone()]);
        stacks.push(vec![anon(i), auth.clone()]);
        stacks.push(vec![anon(i + 1), sign.clone()]);
        stacks.push(vec![auth.clone(), sign.clone()]);
        stacks.push(vec![anon(i + 2), auth.clone(), sign.clone()]);
    }
    for s in stacks.iter().filter(|s| !s.is_empty()).cloned() {
        let (alice, bob) = (alice.clone(), bob.clone());
        p.case(format!("written/{}", stack_name(&s)), move |rec| {
            let net = Net::new(&docs_of(&[alice.clone(), bob.clone()]), &bob.secrets());
            let msg = simple(Some(&alice.did), Some(&bob.did), "interop");
            let plain = ref_json(&msg).to_string();
            let name = stack_name(&s);
            let go = |rec: &mut Rec, at: usize, vars: &[Var]| {
                let mut texts = vec![plain.clone()];
                for (i, l) in s.iter().enumerate().rev() {
                    let vs: &[Var] = if i == at { vars } else { &[] };
                    let t = write(l, texts.last().unwrap(), &format!("{name}/{i}"), vs);
                    texts.push(t);
                }
                let md = expected(&s, &texts);
                let what = format!("L{at}:{}", vars.iter().map(|v| v.name()).collect::<Vec<_>>().join("&"));
                read(rec, &what, texts.last().unwrap(), &net, &msg, &md);
            };
            for (at, l) in s.iter().enumerate() {
                let vs = variations(l, full);
                for v in &vs {
                    go(rec, at, &[v.clone()]);
                }
                if full && s.len() == 1 {
                    let esc = |v: &Var| matches!(v, Var::Outer(_, Style::Escape) | Var::Prot(_, Style::Escape));
                    for (i, a) in vs.iter().enumerate() {
                        for b in &vs[i + 1..] {
                            // two styles cannot be applied to one text; escapes are judged alone
                            let clash = matches!((a, b), (Var::Outer(..), Var::Outer(..)) | (Var::Prot(..), Var::Prot(..)) | (Var::NoTyp, Var::Typ(_)));
                            let gone = |x: &Var, y: &Var| match (x, y) {
                                (Var::NoTyp, Var::Prot(p, _)) => p.first() == Some(&El::K("typ".into())),
                                (Var::NoSkid, Var::Prot(p, _)) => p.first() == Some(&El::K("skid".into())),
                                _ => false,
                            };
                            if clash || esc(a) || esc(b) || gone(a, b) || gone(b, a) || *a == Var::None {
                                continue;
                            }
                            go(rec, at, &[a.clone(), b.clone()]);
                        }
                    }
                }
            }
        });
    }
    // escapes inside string values, member by member
    let singles: Vec<Vec<Layer>> = stacks.iter().filter(|s| s.len() == 1).cloned().collect();
    for (kind, is_prot, names) in [
        ("jwe", false, vec!["protected", "iv", "ciphertext", "tag", "kid", "encrypted_key"]),
        ("jwe-protected", true, vec!["typ", "alg", "enc", "apv", "apu", "skid"]),
        ("epk", true, vec!["kty", "crv", "x", "y"]),
        ("jws", false, vec!["payload", "protected", "signature", "kid"]),
        ("jws-protected", true, vec!["typ", "alg"]),
    ] {
        for name in names {
            let singles = singles.clone();
            let (alice, bob) = (alice.clone(), bob.clone());
            p.case(format!("escape/{kind}.{name}"), move |rec| {
                let net = Net::new(&docs_of(&[alice.clone(), bob.clone()]), &bob.secrets());
                let msg = simple(Some(&alice.did), Some(&bob.did), "escape");
                let plain = ref_json(&msg).to_string();
                for s in &singles {
                    if matches!(s[0], Layer::Sign { .. }) != kind.starts_with("jws") {
                        continue;
                    }
                    let outer: Value = serde_json::from_str(&write(&s[0], &plain, "esc", &[])).unwrap();
                    let b = if kind.starts_with("jws") { &outer["signatures"][0]["protected"] } else { &outer["protected"] };
                    let doc = if is_prot { serde_json::from_slice(&b64u_dec(b.as_str().unwrap()).unwrap()).unwrap() } else { outer.clone() };
                    for n in nodes(&doc) {
                        if member(&n) != name || (kind == "epk") != (n.first() == Some(&El::K("epk".into()))) {
                            continue;
                        }
                        let var = if is_prot { Var::Prot(n, Style::Escape) } else { Var::Outer(n, Style::Escape) };
                        let t = write(&s[0], &plain, "esc", &[var]);
                        let md = expected(s, &[plain.clone(), t.clone()]);
                        rec.eval(&t, true);
                        match rec.guarded(|| block_on(unpack(&t, &net))) {
                            Err(p) => rec.fail("panic", p),
                            Ok(Err(e)) => rec.fail("refused", e.to_string()),
                            Ok(Ok((m, got))) => {
                                rec.check(m == msg && super::c02::md_diff(&md, &got).is_none(), "content", || format!("read as {m:?} {got:?}"));
                            }
                        }
                    }
                }
            });
        }
    }
    for name in ["typ", "alg", "kid"] {
        let (alice, bob) = (alice.clone(), bob.clone());
        p.case(format!("escape/jwt.{name}"), move |rec| {
            let old = rich("old");
            let net = Net::new(&docs_of(&[alice.clone(), bob.clone(), old.clone()]), &bob.secrets());
            for k in old.keys.iter().filter(|k| k.auth) {
                let header = json!({"typ": "JWT", "alg": k.key.kt.sig_alg().unwrap(), "kid": k.kid});
                let h = b64u(render(&header, &[El::K(name.into())], Style::Escape).as_bytes());
                let c = b64u(json!({"iss": old.did, "sub": alice.did}).to_string().as_bytes());
                let t = format!("{h}.{c}.{}", b64u(&sign_raw(&k.key, format!("{h}.{c}").as_bytes())));
                rec.eval(&t, true);
                match block_on(didcomm::FromPrior::unpack(&t, &net)) {
                    Err(e) => rec.fail("refused", e.to_string()),
                    Ok((fp, kid)) => {
                        rec.check(fp.iss == old.did && fp.sub == alice.did && kid == k.kid, "content", || format!("{fp:?} {kid}"));
                    }
                }
            }
        });
    }
    // recipient order and number, held keys
    for (ci, frags) in [vec!["x1", "x2", "x3"], vec!["p1", "p2"], vec!["x3"], vec!["x2", "x1"]].into_iter().enumerate() {
        let (alice, bob) = (alice.clone(), bob.clone());
        p.case(format!("order/{}", frags.join("-")), move |rec| {
            let docs = docs_of(&[alice.clone(), bob.clone()]);
            let msg = simple(Some(&alice.did), Some(&bob.did), "order");
            let plain = ref_json(&msg).to_string();
            let from = kk(&alice, &[if ci == 1 { "p2" } else { "x3" }])[0].clone();
            for perm in perms(frags.len()) {
                let f: Vec<&str> = perm.iter().map(|i| frags[*i]).collect();
                let to = kk(&bob, &f);
                for mask in 1..1u32 << f.len() {
                    let held: Vec<_> = bob.secrets().into_iter().filter(|s| f.iter().enumerate().any(|(i, x)| mask >> i & 1 == 1 && bob.kid(x) == s.id)).collect();
                    let net = Net::new(&docs, &held);
                    for s in [
                        vec![Layer::Anon { enc: ENC_ALGS[perm[0] % 3], to: to.clone() }],
                        vec![Layer::Auth { from: from.clone(), to: to.clone() }],
                        vec![Layer::Anon { enc: ENC_ALGS[0], to: to.clone() }, Layer::Auth { from: from.clone(), to: to.clone() }],
                    ] {
                        let texts = build(&s, &plain, "order");
                        read(rec, &format!("{f:?}-{mask}-{}", s.len()), texts.last().unwrap(), &net, &msg, &expected(&s, &texts));
                    }
                }
            }
        });
    }
    // how the plaintext is written, alone and inside every kind of layer
    for (si, s) in stacks.iter().take(9).cloned().enumerate() {
        let (alice, bob) = (alice.clone(), bob.clone());
        p.case(format!("plain/{si}-{}", stack_name(&s)), move |rec| {
            let net = Net::new(&docs_of(&[alice.clone(), bob.clone()]), &bob.secrets());
            let masks: Vec<u32> = if full || s.is_empty() { (0..256).collect() } else { vec![0, 1, 2, 0x0f, 0xc3, 0xff] };
            for mask in masks {
                let mk = || shape_builder(mask, &alice.did, &[&bob.did, ns("did:example:carol")], json!({"k": ["v", {"": null}], "é": 1}));
                let v = ref_json(&mk().finalize());
                let mut one = |what: String, text: String, want: Message| {
                    let texts = {
                        let mut t = vec![text.clone()];
                        for (i, l) in s.iter().enumerate().rev() {
                            let n = write(l, t.last().unwrap(), &format!("pl/{i}"), &[]);
                            t.push(n);
                        }
                        t
                    };
                    let md = expected(&s, &texts);
                    read(rec, &format!("{mask:02x}:{what}"), texts.last().unwrap(), &net, &want, &md);
                };
                for p in nodes(&v) {
                    let n = get(&v, &p);
                    let mut styles = vec![Style::Space];
                    if n.is_object() {
                        styles.push(Style::Reverse);
                    }
                    if n.is_string() {
                        styles.push(Style::Escape);
                    }
                    if matches!(p.last(), Some(El::K(_))) {
                        styles.push(Style::EscapeName);
                    }
                    for st in styles {
                        one(format!("{}:{st:?}", crate::mutate::show(&p)), render(&v, &p, st), mk().finalize());
                    }
                }
                for x in [json!(null), json!("x"), json!(0), json!({"deep": [[]]})] {
                    for name in ["unknown", "", "please_ack", "Id", "typ2", "é\""] {
                        let mut w = v.clone();
                        if w.get(name).is_some() {
                            continue;
                        }
                        w[name] = x.clone();
                        one(format!("+{name}={x}"), w.to_string(), mk().header(name.into(), x.clone()).finalize());
                    }
                }
                // typ may be left out
                let mut w = v.clone();
                w.as_object_mut().unwrap().remove("typ");
                one("no-typ".into(), w.to_string(), mk().finalize());
                // unknown members of attachments do not disturb
                if let Some(a) = v.get("attachments").and_then(|a| a.as_array()) {
                    for i in 0..a.len() {
                        let at = vec![El::K("attachments".into()), El::I(i)];
                        one(format!("att{i}"), add(&v, &at, "x-unknown", &json!([1])).to_string(), mk().finalize());
                    }
                }
                // absent written as null
                for m in ["from", "to", "thid", "pthid", "created_time", "expires_time", "from_prior", "attachments"] {
                    if v.get(m).is_none() {
                        let mut w = v.clone();
                        w[m] = Value::Null;
                        one(format!("null-{m}"), w.to_string(), mk().finalize());
                    }
                }
            }
        });
    }
    // rotation tokens as others write them
    for (ki, frag) in ["e1", "e2", "s1", "k1"].into_iter().enumerate() {
        let (alice, bob) = (alice.clone(), bob.clone());
        p.case(format!("token/{frag}"), move |rec| {
            let old = rich("old");
            let net = Net::new(&docs_of(&[alice.clone(), bob.clone(), old.clone()]), &bob.secrets());
            let k = old.get(frag);
            let header = json!({"typ": "JWT", "alg": k.key.kt.sig_alg().unwrap(), "kid": k.kid});
            let claims = json!({"iss": old.did, "sub": alice.did, "iat": 5, "aud": "a"});
            let h: Arc<Value> = Arc::new(header.clone());
            let jwt = |ht: &str, ct: &str| {
                let (h, c) = (b64u(ht.as_bytes()), b64u(ct.as_bytes()));
                let sig = sign_raw(&k.key, format!("{h}.{c}").as_bytes());
                format!("{h}.{c}.{}", b64u(&sig))
            };
            let mut toks: Vec<(String, String)> = vec![];
            for p in nodes(&header) {
                for st in [Style::Space, Style::Reverse, Style::EscapeName] {
                    if p.is_empty() && st == Style::EscapeName {
                        continue;
                    }
                    toks.push((format!("h:{}:{st:?}", crate::mutate::show(&p)), jwt(&render(&h, &p, st), &claims.to_string())));
                }
            }
            for x in [json!("x"), json!(1), json!({"a": []}), json!(null)] {
                toks.push((format!("h+{x}"), jwt(&add(&h, &vec![], "x-u", &x).to_string(), &claims.to_string())));
                toks.push((format!("c+{x}"), jwt(&h.to_string(), &add(&claims, &vec![], "x-u", &x).to_string())));
            }
            for p in nodes(&claims) {
                for st in [Style::Space, Style::Reverse, Style::EscapeName, Style::Escape] {
                    toks.push((format!("c:{}:{st:?}", crate::mutate::show(&p)), jwt(&h.to_string(), &render(&claims, &p, st))));
                }
            }
            for (what, t) in toks {
                rec.eval(&what, true);
                let want = didcomm::FromPrior::build(old.did.clone(), alice.did.clone()).iat(5).aud("a".into()).finalize();
                match block_on(didcomm::FromPrior::unpack(&t, &net)) {
                    Err(e) => rec.fail(&what, format!("refused: {e}")),
                    Ok((fp, kid)) => {
                        rec.check(fp == want && kid == k.kid, &what, || format!("{fp:?} {kid}"));
                    }
                }
                let msg = Message::build("i".into(), "t".into(), json!({})).from(alice.did.clone()).from_prior(t.clone()).finalize();
                let plain = ref_json(&msg).to_string();
                let s = vec![Layer::Anon { enc: ENC_ALGS[ki % 3], to: kk(&bob, &["x1"]) }];
                let texts = build(&s, &plain, "tok");
                rec.eval(&(&what, "in"), true);
                match block_on(unpack(texts.last().unwrap(), &net)) {
                    Err(e) => rec.fail(&what, format!("message refused: {e}")),
                    Ok((m, md)) => {
                        rec.check(m == msg && md.from_prior == Some(want) && md.from_prior_issuer_kid.as_deref() == Some(k.kid.as_str()), &what, || {
                            format!("{m:?} {:?}", md.from_prior)
                        });
                    }
                }
            }
        });
    }
    crate::many::c17(&mut p, env.thorough());
    crate::near::c17_order(&mut p, env.thorough());
    p
}
