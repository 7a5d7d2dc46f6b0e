//! C24: options, algorithm names, metadata and error kinds keep their meaning across the JSON boundary.
use crate::engine::{Env, Plan, Rec};
use crate::mutate::{get, nodes, render, show, El, Style};
use didcomm::algorithms::*;
use didcomm::error::{Error, ErrorKind, ResultContext, ResultExt, ResultExtNoContext, ToResult};
use didcomm::{
    FromPrior, Message, MessagingServiceMetadata, PackEncryptedMetadata, PackEncryptedOptions, PackSignedMetadata,
    UnpackMetadata, UnpackOptions,
};
use serde_json::{json, Map, Value};
use std::collections::HashMap;

const ANONS: [(&str, AnonCryptAlg); 3] = [
    ("A256cbcHs512EcdhEsA256kw", AnonCryptAlg::A256cbcHs512EcdhEsA256kw),
    ("Xc20pEcdhEsA256kw", AnonCryptAlg::Xc20pEcdhEsA256kw),
    ("A256gcmEcdhEsA256kw", AnonCryptAlg::A256gcmEcdhEsA256kw),
];
const AUTH: (&str, AuthCryptAlg) = ("A256cbcHs512Ecdh1puA256kw", AuthCryptAlg::A256cbcHs512Ecdh1puA256kw);
const SIGNS: [(&str, SignAlg); 3] = [("EdDSA", SignAlg::EdDSA), ("ES256", SignAlg::ES256), ("ES256K", SignAlg::ES256K)];
const KINDS: [(&str, &str, ErrorKind); 9] = [
    ("DIDNotResolved", "DID not resolved", ErrorKind::DIDNotResolved),
    ("DIDUrlNotFound", "DID URL not found", ErrorKind::DIDUrlNotFound),
    ("SecretNotFound", "Secret not found", ErrorKind::SecretNotFound),
    ("Malformed", "Malformed", ErrorKind::Malformed),
    ("IoError", "IO error", ErrorKind::IoError),
    ("InvalidState", "Invalid state", ErrorKind::InvalidState),
    ("NoCompatibleCrypto", "No compatible crypto", ErrorKind::NoCompatibleCrypto),
    ("Unsupported", "Unsupported crypto or method", ErrorKind::Unsupported),
    ("IllegalArgument", "Illegal argument", ErrorKind::IllegalArgument),
];

/// Every way to write `v` that means the same.
fn writings(v: &Value) -> Vec<(String, String)> {
    let mut out = vec![("plain".to_string(), v.to_string()), ("pretty".into(), serde_json::to_string_pretty(v).unwrap())];
    for p in nodes(v) {
        let n = get(v, &p);
        let mut st = vec![Style::Space];
        if n.is_object() {
            st.push(Style::Reverse);
        }
        if n.is_string() {
            st.push(Style::Escape);
        }
        if matches!(p.last(), Some(El::K(_))) {
            st.push(Style::EscapeName);
        }
        for s in st {
            out.push((format!("{}:{s:?}", show(&p)), render(v, &p, s)));
        }
    }
    for x in [json!(null), json!("x"), json!({"a": [1]})] {
        for name in ["unknown", ""] {
            let mut w = v.clone();
            w[name] = x.clone();
            out.push((format!("+{name}={x}"), w.to_string()));
        }
    }
    out
}

/// Options of a member: left out, or a (json, value).
type Opt<T> = Option<(Value, T)>;

fn fields(from_prior: bool) -> Vec<&'static str> {
    if from_prior {
        vec!["aud", "exp", "nbf", "iat", "jti"]
    } else {
        vec![]
    }
}

fn unpack_md(mask: u32, variant: usize) -> (UnpackMetadata, Value) {
    let on = |i: u32| mask >> i & 1 == 1;
    let fp = || FromPrior::build("did:example:i".into(), "did:example:s".into()).iat(7).finalize();
    let md = UnpackMetadata {
        encrypted: on(0),
        authenticated: on(1),
        non_repudiation: on(2),
        anonymous_sender: on(3),
        re_wrapped_in_forward: on(4),
        encrypted_from_kid: on(5).then(|| "did:example:a#from".to_string()),
        encrypted_to_kids: on(6).then(|| [vec![], vec!["did:example:b#1".to_string(), "é\"".into()], vec!["x".to_string()]][variant % 3].clone()),
        sign_from: on(7).then(|| "did:example:a#sign".to_string()),
        from_prior_issuer_kid: on(8).then(|| "did:example:i#k".to_string()),
        enc_alg_auth: on(9).then(|| AUTH.1.clone()),
        enc_alg_anon: on(10).then(|| ANONS[variant % 3].1.clone()),
        sign_alg: on(11).then(|| SIGNS[variant % 3].1.clone()),
        signed_message: on(12).then(|| "{\"payload\":\"é\"}".to_string()),
        from_prior: on(13).then(fp),
    };
    let o = |i: u32, v: Value| if on(i) { v } else { Value::Null };
    let want = json!({
        "encrypted": on(0), "authenticated": on(1), "non_repudiation": on(2), "anonymous_sender": on(3), "re_wrapped_in_forward": on(4),
        "encrypted_from_kid": o(5, json!("did:example:a#from")),
        "encrypted_to_kids": o(6, [json!([]), json!(["did:example:b#1", "é\""]), json!(["x"])][variant % 3].clone()),
        "sign_from": o(7, json!("did:example:a#sign")), "from_prior_issuer_kid": o(8, json!("did:example:i#k")),
        "enc_alg_auth": o(9, json!(AUTH.0)), "enc_alg_anon": o(10, json!(ANONS[variant % 3].0)), "sign_alg": o(11, json!(SIGNS[variant % 3].0)),
        "signed_message": o(12, json!("{\"payload\":\"é\"}")), "from_prior": o(13, json!({"iss": "did:example:i", "sub": "did:example:s", "iat": 7})),
    });
    (md, want)
}

/// null and absent are the same for optional members of reported values
fn no_null(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(o.iter().filter(|(_, x)| !x.is_null()).map(|(k, x)| (k.clone(), no_null(x))).collect()),
        x => x.clone(),
    }
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C24",
        "exploration",
        "all combinations of present/left-out/null option members x values x writings must parse to exactly the options meant \
         with the documented defaults, and wrong values be refused; every subset of set metadata fields must serialise to a \
         document that carries each of them under its name; every error kind must survive every way errors are made, wrapped, \
         shown and serialised; JSON and Base58 errors map by cause. Non-trivial: each evaluation compares with the independent form",
    );
    p.bounds = json!({"metadata_subsets": 16384, "option_combinations": "all"});
    // packing options
    for pi in 0..4usize {
        p.case(format!("pack-options/{pi}"), move |rec| {
            let protect: Opt<bool> = [None, Some((json!(true), true)), Some((json!(false), false)), None][pi].clone();
            let d = PackEncryptedOptions::default();
            rec.eval("default", true);
            rec.check(
                !d.protect_sender && d.forward && d.forward_headers.is_none() && d.messaging_service.is_none() && d.enc_alg_auth == AUTH.1 && d.enc_alg_anon == ANONS[1].1,
                "default",
                || format!("defaults are {d:?}"),
            );
            let fwd: Vec<Opt<bool>> = vec![None, Some((json!(true), true)), Some((json!(false), false))];
            let hdr: Vec<Opt<Option<HashMap<String, Value>>>> = vec![
                None,
                Some((json!(null), None)),
                Some((json!({}), Some(HashMap::new()))),
                Some((json!({"expires_time": 99, "é": {"x": [null]}}), Some([("expires_time".to_string(), json!(99)), ("é".into(), json!({"x": [null]}))].into_iter().collect()))),
            ];
            let svc: Vec<Opt<Option<String>>> =
                vec![None, Some((json!(null), None)), Some((json!(""), Some(String::new()))), Some((json!("did:example:b#s"), Some("did:example:b#s".into())))];
            let auth: Vec<Opt<AuthCryptAlg>> = vec![None, Some((json!(AUTH.0), AUTH.1.clone()))];
            let anon: Vec<Opt<AnonCryptAlg>> = std::iter::once(None).chain(ANONS.iter().map(|(n, a)| Some((json!(n), a.clone())))).collect();
            for (a, f) in fwd.iter().enumerate() {
                for (b, h) in hdr.iter().enumerate() {
                    for (c, s) in svc.iter().enumerate() {
                        for (e, au) in auth.iter().enumerate() {
                            for (g, an) in anon.iter().enumerate() {
                                let mut o = Map::new();
                                let mut put = |k: &str, v: Option<&Value>| {
                                    if let Some(v) = v {
                                        o.insert(k.into(), v.clone());
                                    }
                                };
                                put("protect_sender", protect.as_ref().map(|x| &x.0));
                                put("forward", f.as_ref().map(|x| &x.0));
                                put("forward_headers", h.as_ref().map(|x| &x.0));
                                put("messaging_service", s.as_ref().map(|x| &x.0));
                                put("enc_alg_auth", au.as_ref().map(|x| &x.0));
                                put("enc_alg_anon", an.as_ref().map(|x| &x.0));
                                let want = PackEncryptedOptions {
                                    protect_sender: protect.as_ref().map_or(false, |x| x.1),
                                    forward: f.as_ref().map_or(true, |x| x.1),
                                    forward_headers: h.as_ref().and_then(|x| x.1.clone()),
                                    messaging_service: s.as_ref().and_then(|x| x.1.clone()),
                                    enc_alg_auth: au.as_ref().map_or(AUTH.1.clone(), |x| x.1.clone()),
                                    enc_alg_anon: an.as_ref().map_or(ANONS[1].1.clone(), |x| x.1.clone()),
                                };
                                let v = Value::Object(o);
                                rec.sample(|| v.clone());
                                let what = format!("{a}{b}{c}{e}{g}");
                                for (w, t) in if full || (a + b + c + e + g) % 3 == 0 { writings(&v) } else { vec![("plain".into(), v.to_string())] } {
                                    rec.eval(&(&what, &w), true);
                                    let got = serde_json::from_str::<PackEncryptedOptions>(&t);
                                    rec.check(got.as_ref().ok() == Some(&want), format!("{what}:{w}"), || format!("{t} means {want:?}, parsed {got:?}"));
                                }
                                let got = serde_json::from_value::<PackEncryptedOptions>(v.clone());
                                rec.check(got.as_ref().ok() == Some(&want), format!("{what}:value"), || format!("{v} parsed {got:?}"));
                            }
                        }
                    }
                }
            }
            for (k, bad) in [
                ("protect_sender", vec![json!("true"), json!(1), json!([])]),
                ("forward", vec![json!("false"), json!(0), json!({})]),
                ("forward_headers", vec![json!("x"), json!([1]), json!(true)]),
                ("messaging_service", vec![json!(1), json!({}), json!(["x"])]),
                ("enc_alg_auth", vec![json!("A256CBC-HS512"), json!(""), json!("Xc20pEcdhEsA256kw"), json!(0), json!("a256cbcHs512Ecdh1puA256kw")]),
                ("enc_alg_anon", vec![json!("XC20P"), json!(""), json!("A256cbcHs512Ecdh1puA256kw"), json!(1), json!("Xc20PEcdhEsA256kw"), json!("Xc20pEcdhEsA256kw ")]),
            ] {
                for b in bad {
                    let t = json!({k: b}).to_string();
                    rec.eval(&t, true);
                    rec.check(serde_json::from_str::<PackEncryptedOptions>(&t).is_err(), format!("bad-{k}"), || format!("{t} was accepted"));
                }
            }
        });
    }
    p.case("unpack-options", |rec| {
        for a in [None, Some(false), Some(true)] {
            for b in [None, Some(false), Some(true)] {
                let mut v = json!({});
                if let Some(a) = a {
                    v["expect_decrypt_by_all_keys"] = json!(a);
                }
                if let Some(b) = b {
                    v["unwrap_re_wrapping_forward"] = json!(b);
                }
                let want = UnpackOptions { expect_decrypt_by_all_keys: a.unwrap_or(false), unwrap_re_wrapping_forward: b.unwrap_or(false) };
                for (w, t) in writings(&v) {
                    rec.eval(&(&w, a, b), true);
                    let got = serde_json::from_str::<UnpackOptions>(&t);
                    rec.check(got.as_ref().ok() == Some(&want), &w, || format!("{t} parsed {got:?}"));
                }
            }
        }
        for bad in [json!({"expect_decrypt_by_all_keys": "true"}), json!({"unwrap_re_wrapping_forward": 1})] {
            rec.eval(&bad.to_string(), true);
            rec.check(serde_json::from_value::<UnpackOptions>(bad.clone()).is_err(), "bad", || format!("{bad} was accepted"));
        }
        let d = UnpackOptions::default();
        rec.check(!d.expect_decrypt_by_all_keys && d.unwrap_re_wrapping_forward, "default", || format!("{d:?}"));
    });
    // algorithm names
    p.case("algorithms", |rec| {
        fn one<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(rec: &mut Rec, all: &[(&str, T)]) {
            for (n, a) in all {
                rec.eval(n, true);
                rec.check(serde_json::to_value(a).ok() == Some(json!(n)), *n, || format!("{a:?} is written {:?}", serde_json::to_string(a)));
                rec.check(serde_json::from_value::<T>(json!(n)).ok().as_ref() == Some(a), *n, || "read as something else".into());
                for c in [n.to_lowercase(), n.to_uppercase(), format!("{n} "), n[1..].to_string(), n[..n.len() - 1].to_string(), String::new()] {
                    if all.iter().any(|(m, _)| *m == c) {
                        continue;
                    }
                    rec.eval(&(n, &c), true);
                    rec.check(serde_json::from_value::<T>(json!(c)).is_err(), format!("{n}~{c}"), || format!("{c:?} was accepted"));
                }
            }
        }
        one(rec, &ANONS);
        one(rec, &[AUTH]);
        one(rec, &SIGNS);
        rec.check(AnonCryptAlg::default() == ANONS[1].1 && AuthCryptAlg::default() == AUTH.1, "default", || "default algorithms".into());
    });
    // metadata
    for hi in 0..64u32 {
        p.case(format!("unpack-metadata/{hi:02}"), move |rec| {
            for lo in 0..256u32 {
                let mask = hi << 8 | lo;
                for variant in 0..3 {
                    let (md, want) = unpack_md(mask, variant);
                    rec.eval(&(mask, variant), true);
                    let v = serde_json::to_value(&md).unwrap_or(Value::Null);
                    rec.check(no_null(&v) == no_null(&want), format!("{mask:04x}-{variant}"), || format!("written {v}, expected {want}"));
                    if lo == 255 {
                        rec.sample(|| v.clone());
                    }
                }
            }
        });
    }
    p.case("pack-metadata", |rec| {
        for mask in 0..8u32 {
            for n in 0..4usize {
                let on = |i: u32| mask >> i & 1 == 1;
                let kids: Vec<String> = (0..n).map(|i| format!("did:example:b#k{}", (i * 2) % 3)).collect();
                let md = PackEncryptedMetadata {
                    messaging_service: on(0).then(|| MessagingServiceMetadata { id: "did:example:b#s".into(), service_endpoint: "http://é".into() }),
                    from_kid: on(1).then(|| "did:example:a#1".into()),
                    sign_by_kid: on(2).then(|| "did:example:a#2".into()),
                    to_kids: kids.clone(),
                };
                let mut want = json!({"to_kids": kids});
                if on(0) {
                    want["messaging_service"] = json!({"id": "did:example:b#s", "service_endpoint": "http://é"});
                }
                if on(1) {
                    want["from_kid"] = json!("did:example:a#1");
                }
                if on(2) {
                    want["sign_by_kid"] = json!("did:example:a#2");
                }
                rec.eval(&(mask, n), true);
                let v = serde_json::to_value(&md).unwrap_or(Value::Null);
                rec.check(no_null(&v) == want, format!("{mask}-{n}"), || format!("written {v}, expected {want}"));
            }
        }
        let md = PackSignedMetadata { sign_by_kid: "did:example:é#1".into() };
        rec.check(serde_json::to_value(&md).ok() == Some(json!({"sign_by_kid": "did:example:é#1"})), "signed", || "signed metadata".into());
        // a parsed forward
        let m = Message::build("f".into(), "https://didcomm.org/routing/2.0/forward".into(), json!({"next": "did:example:b"}))
            .attachment(didcomm::Attachment::json(json!({"ciphertext": "x"})).finalize())
            .finalize();
        rec.eval("forward", true);
        match didcomm::protocols::routing::try_parse_forward(&m) {
            None => rec.fail("forward", "a forward message is not recognised"),
            Some(f) => {
                let v = serde_json::to_value(&f).unwrap_or(Value::Null);
                let want = json!({"msg": crate::layers::ref_json(&m), "next": "did:example:b", "forwarded_msg": {"ciphertext": "x"}});
                rec.check(v == want, "forward", || format!("written {v}, expected {want}"));
            }
        }
    });
    // rotation claims
    p.case("from-prior", |rec| {
        for mask in 0..32u32 {
            for big in [0u64, 1, u64::MAX] {
                let on = |i: u32| mask >> i & 1 == 1;
                let mut b = FromPrior::build("did:example:é\"".into(), "".into());
                let mut want = json!({"iss": "did:example:é\"", "sub": ""});
                if on(0) {
                    b = b.aud("".into());
                    want["aud"] = json!("");
                }
                if on(1) {
                    b = b.exp(big);
                    want["exp"] = json!(big);
                }
                if on(2) {
                    b = b.nbf(big ^ 1);
                    want["nbf"] = json!(big ^ 1);
                }
                if on(3) {
                    b = b.iat(big / 2);
                    want["iat"] = json!(big / 2);
                }
                if on(4) {
                    b = b.jti("j".into());
                    want["jti"] = json!("j");
                }
                let fp = b.finalize();
                rec.eval(&(mask, big), true);
                let v = serde_json::to_value(&fp).unwrap_or(Value::Null);
                rec.check(v == want, format!("{mask}-{big}"), || format!("written {v}, expected {want}"));
                for (w, t) in writings(&want) {
                    rec.eval(&(mask, big, &w), true);
                    let got = serde_json::from_str::<FromPrior>(&t);
                    rec.check(got.as_ref().ok() == Some(&fp), format!("{mask}-{big}:{w}"), || format!("{t} parsed {got:?}"));
                }
                for k in fields(true) {
                    if want.get(k).is_none() {
                        let mut w = want.clone();
                        w[k] = Value::Null;
                        rec.check(serde_json::from_value::<FromPrior>(w.clone()).ok().as_ref() == Some(&fp), format!("{mask}:null-{k}"), || format!("{w}"));
                    }
                    for bad in [json!(true), json!([1]), json!({}), if k == "aud" || k == "jti" { json!(1) } else { json!("1") }, if k == "aud" || k == "jti" { json!([]) } else { json!(-1) }] {
                        let mut w = want.clone();
                        w[k] = bad;
                        rec.eval(&(mask, k, w.to_string()), true);
                        rec.check(serde_json::from_value::<FromPrior>(w.clone()).is_err(), format!("{mask}:bad-{k}"), || format!("{w} was accepted"));
                    }
                }
                for k in ["iss", "sub"] {
                    let mut w = want.clone();
                    w.as_object_mut().unwrap().remove(k);
                    rec.check(serde_json::from_value::<FromPrior>(w.clone()).is_err(), format!("{mask}:-{k}"), || format!("{w} was accepted"));
                    w[k] = json!(1);
                    rec.check(serde_json::from_value::<FromPrior>(w.clone()).is_err(), format!("{mask}:bad-{k}"), || format!("{w} was accepted"));
                }
            }
        }
    });
    // errors
    for (i, (name, text, kind)) in KINDS.iter().enumerate() {
        p.case(format!("error/{name}"), move |rec| {
            rec.check(serde_json::to_value(kind).ok() == Some(json!(name)), "name", || format!("written {:?}", serde_json::to_string(kind)));
            rec.check(kind.to_string() == *text, "text", || format!("shown as {kind}"));
            #[derive(Debug)]
            struct Cause(&'static str);
            impl std::fmt::Display for Cause {
                fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    f.write_str(self.0)
                }
            }
            impl std::error::Error for Cause {}
            for (ci, cause) in ["the cause", "", "é: {}"].into_iter().enumerate() {
                let makes: Vec<(&str, Box<dyn Fn() -> Error>)> = vec![
                    ("new", Box::new(move || Error::new(*kind, Cause(cause)))),
                    ("msg", Box::new(move || Error::msg(*kind, cause))),
                    ("err_msg", Box::new(move || didcomm::error::err_msg(*kind, cause))),
                    ("kind", Box::new(move || Err::<(), _>(Cause(cause)).kind(*kind, "while testing").unwrap_err())),
                    ("kind_no_context", Box::new(move || Err::<(), _>(Cause("dropped")).kind_no_context(*kind, cause).unwrap_err())),
                ];
                for (mn, mk) in &makes {
                    for depth in 0..if full { 5 } else { 3 } {
                        let mut e = mk();
                        for d in 0..depth {
                            e = Err::<(), _>(e).context(format!("context {d}")).unwrap_err();
                        }
                        // and through another library boundary
                        rec.eval(&(mn, depth, ci), true);
                        let what = format!("{mn}-{ci}-{depth}");
                        rec.check(e.kind() == *kind, &what, || format!("became {:?}", e.kind()));
                        let s = e.to_string();
                        rec.check(s.starts_with(&format!("{text}: ")) && s.contains(cause) && (0..depth).all(|d| s.contains(&format!("context {d}"))), &what, || format!("shown as {s:?}"));
                    }
                }
                let r: Result<(), ErrorKind> = Err::<(), _>(Cause(cause)).to_error_kind(*kind);
                rec.check(r == Err(*kind), "to_error_kind", || format!("{r:?}"));
            }
            // success passes through
            for v in [0u32, 7] {
                rec.check(Ok::<_, std::fmt::Error>(v).kind(*kind, "x").ok() == Some(v), "ok", || "kind".into());
                rec.check(Ok::<_, std::fmt::Error>(v).kind_no_context(*kind, "x").ok() == Some(v), "ok", || "kind_no_context".into());
                rec.check(Ok::<_, Error>(v).context("x").ok() == Some(v), "ok", || "context".into());
                rec.check(Ok::<_, std::fmt::Error>(v).to_error_kind(*kind) == Ok(v), "ok", || "to_error_kind".into());
            }
            let _ = i;
        });
    }
    // what the parser of JSON reports: every cut and every single-character damage of documents
    p.case("error/json", |rec| {
        use serde::Deserialize;
        #[derive(Deserialize, Debug)]
        #[allow(dead_code)]
        struct T {
            a: u8,
            b: Option<String>,
        }
        let docs = [r#"{"a":1,"b":"x"}"#, r#"{"a":255}"#, r#" {"b":null,"a":0} "#];
        for d in docs {
            for t in crate::mutate::texts(d, &['"', '{', '}', '[', ',', ':', '9', 'x', ' ', '\\', '-', '.'], 1) {
                let r = serde_json::from_str::<T>(&t);
                let failed = r.is_err();
                rec.eval(&t, failed);
                match ToResult::to_didcomm(r, "context") {
                    Ok(_) => {
                        rec.check(!failed, "ok", || format!("{t} became Ok"));
                    }
                    Err(e) => {
                        rec.outcome(format!("{:?}", e.kind()));
                        rec.check(failed && e.kind() == ErrorKind::Malformed, "json", || format!("{t:?} gave {e}"));
                        rec.check(e.to_string().contains("context"), "json", || format!("context lost: {e}"));
                    }
                }
            }
        }
        struct Bad;
        impl std::io::Read for Bad {
            fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
                Err(std::io::Error::new(std::io::ErrorKind::Other, "disk"))
            }
        }
        rec.eval("io", true);
        let e: Error = serde_json::from_reader::<_, T>(Bad).unwrap_err().into();
        rec.check(e.kind() == ErrorKind::InvalidState, "io", || e.to_string());
    });
    p
}
