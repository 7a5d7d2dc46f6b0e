//! C15: one key in any encoding; mismatched and malformed material.
use crate::engine::{Env, Plan, Rec};
use crate::keys::*;
use crate::layers::peel;
use crate::msgs::*;
use crate::refjose::*;
use crate::world::*;
use didcomm::did::{DIDDoc, VerificationMaterial as VM, VerificationMethod, VerificationMethodType as VT};
use didcomm::error::ErrorKind;
use didcomm::secrets::{Secret, SecretMaterial as SM, SecretType as ST};
use didcomm::{FromPrior, Message};
use serde_json::{json, Value};

/// Keys whose bytes are awkward for the encodings: leading / trailing zero bytes in either half.
pub fn edge_keys(kt: KT) -> Vec<(String, Key)> {
    let mut want: Vec<(&str, Box<dyn Fn(&Key) -> bool>)> = vec![
        ("plain", Box::new(|_| true)),
        ("pk-0", Box::new(|k| k.pk[0] == 0)),
        ("sk-0", Box::new(|k| k.sk[0] == 0)),
        ("pk-ff", Box::new(|k| k.pk[0] == 0xff)),
        ("pk-end0", Box::new(|k| k.pk[31] == 0)),
        ("sk-end0", Box::new(|k| k.sk[31] == 0)),
    ];
    if !kt.okp() {
        want.push(("y-0", Box::new(|k| k.pk[32] == 0)));
    }
    let mut out = vec![];
    for n in 0..4000u32 {
        if want.is_empty() {
            break;
        }
        let k = Key::derive(kt, &format!("edge/{n}"));
        want.retain(|(name, f)| {
            let hit = f(&k);
            if hit {
                out.push((name.to_string(), k.clone()));
            }
            !hit
        });
    }
    out
}

/// A DID with one key agreement key and one signing key in chosen encodings.
fn doc(did: &str, ka: Option<VerificationMethod>, au: Option<VerificationMethod>) -> DIDDoc {
    DIDDoc {
        id: did.into(),
        key_agreement: ka.iter().map(|v| v.id.clone()).collect(),
        authentication: au.iter().map(|v| v.id.clone()).collect(),
        verification_method: ka.into_iter().chain(au).collect(),
        service: vec![],
    }
}
fn view(docs: Vec<DIDDoc>, secrets: Vec<Secret>) -> Net {
    Net::new(&docs, &secrets)
}
const A: &str = "did:example:alice";
const B: &str = "did:example:bob";

fn encs(kt: KT) -> Vec<Enc> {
    ENCS.iter().copied().filter(|e| can(kt, *e)).collect()
}

fn equivalence(rec: &mut Rec, kt: KT, ka: &Key, kb: &Key) {
    let (aid, bid) = (format!("{A}#k"), format!("{B}#k"));
    let m = simple(Some(A), Some(B), "same key");
    let parties: Vec<Party> = [(A, &aid, ka), (B, &bid, kb)]
        .iter()
        .map(|(d, id, k)| Party {
            did: d.to_string(),
            keys: vec![PKey { kid: id.to_string(), key: (*k).clone(), enc: Enc::Jwk, ka: true, auth: false }],
            services: vec![],
        })
        .collect();
    for e1 in encs(kt) {
        for e2 in encs(kt) {
            for e3 in encs(kt) {
                for e4 in encs(kt) {
                    // e1: recipient key in the sender's view, e2: sender's secret, e3: sender key in the recipient's
                    // view, e4: recipient's secret; the other copies of each key use the next encoding
                    let n = |e: Enc| if can(kt, Enc::B58) { ENCS[(e as usize + 1) % 3] } else { e };
                    let sv = view(
                        vec![doc(A, Some(ka.vm(&aid, n(e2))), None), doc(B, Some(kb.vm(&bid, e1)), None)],
                        vec![ka.secret(&aid, e2)],
                    );
                    let rv = view(
                        vec![doc(A, Some(ka.vm(&aid, e3)), None), doc(B, Some(kb.vm(&bid, n(e4))), None)],
                        vec![kb.secret(&bid, e4)],
                    );
                    for (auth, anon) in [(false, 0), (false, 1), (false, 2), (true, 1)] {
                        if !auth && (e2 != e3) {
                            continue;
                        }
                        for to in [B.to_string(), bid.clone()] {
                            let what = format!("{e1:?}-{e2:?}-{e3:?}-{e4:?}-{auth}-{anon}-{}", to.contains('#'));
                            rec.begin(&what);
                            rec.eval(&what, true);
                            let mode = Mode::enc(&to, if auth { Some(A) } else { None }, None, false, &ANON[anon]);
                            let packed = match block_on(mode.pack(&m, &sv)) {
                                Ok(p) => p.0,
                                Err(e) => {
                                    rec.fail(&what, format!("pack: {e}"));
                                    continue;
                                }
                            };
                            match block_on(unpack(&packed, &rv)) {
                                Ok((g, md)) => {
                                    rec.check(g == m && md.encrypted, &what, || format!("read {g:?}"));
                                    rec.check(md.encrypted_from_kid.as_deref() == if auth { Some(aid.as_str()) } else { None }, &what, || {
                                        format!("{md:?}")
                                    });
                                }
                                Err(e) => rec.fail(&what, format!("unpack: {e}")),
                            }
                            // the key meant is the key itself
                            if let Err(e) = peel(&packed, &parties[1], &parties, 0) {
                                rec.fail(&what, format!("not encrypted to the encoded key: {e}"));
                            }
                        }
                    }
                }
            }
        }
    }
}

fn signing(rec: &mut Rec, kt: KT, k: &Key) {
    let id = format!("{A}#k");
    let m = simple(Some(A), None, "signed");
    for e1 in encs(kt) {
        for e2 in encs(kt) {
            for e3 in encs(kt) {
                let sv = view(vec![doc(A, None, Some(k.vm(&id, e3)))], vec![k.secret(&id, e1)]);
                let rv = view(vec![doc(A, None, Some(k.vm(&id, e2)))], vec![]);
                let what = format!("{e1:?}-{e2:?}-{e3:?}");
                rec.eval(&what, true);
                match block_on(m.pack_signed(&id, &sv, &sv)) {
                    Ok((t, _)) => {
                        if let Err(e) = open_jws(&t, &|_| Some(k.clone())) {
                            rec.fail(&what, format!("not signed by the encoded key: {e}"));
                        }
                        match block_on(unpack(&t, &rv)) {
                            Ok((g, md)) => {
                                rec.check(g == m && md.sign_from.as_deref() == Some(&id), &what, || format!("{md:?}"));
                            }
                            Err(e) => rec.fail(&what, format!("unpack: {e}")),
                        }
                    }
                    Err(e) => rec.fail(&what, format!("pack: {e}")),
                }
                let fp = FromPrior::build(A.into(), B.into()).finalize();
                match block_on(fp.pack(None, &sv, &sv)) {
                    Ok((t, _)) => {
                        let r = block_on(FromPrior::unpack(&t, &rv));
                        rec.check(matches!(&r, Ok((f, kid)) if *f == fp && *kid == id), &what, || format!("token: {r:?}"));
                    }
                    Err(e) => rec.fail(&what, format!("token: {e}")),
                }
            }
        }
    }
}

const VTS: [fn() -> VT; 7] = [
    || VT::JsonWebKey2020,
    || VT::X25519KeyAgreementKey2019,
    || VT::Ed25519VerificationKey2018,
    || VT::EcdsaSecp256k1VerificationKey2019,
    || VT::X25519KeyAgreementKey2020,
    || VT::Ed25519VerificationKey2020,
    || VT::Other,
];
fn st_of(i: usize) -> ST {
    match i {
        0 => ST::JsonWebKey2020,
        1 => ST::X25519KeyAgreementKey2019,
        2 => ST::Ed25519VerificationKey2018,
        3 => ST::EcdsaSecp256k1VerificationKey2019,
        4 => ST::X25519KeyAgreementKey2020,
        5 => ST::Ed25519VerificationKey2020,
        _ => ST::Other,
    }
}
/// Which (type, encoding, key type) belong together; JWK names its own key type.
fn matching(t: usize, e: Enc, kt: KT) -> bool {
    matches!(
        (t, e, kt),
        (0, Enc::Jwk, _) | (1, Enc::B58, KT::X25519) | (2, Enc::B58, KT::Ed25519) | (4, Enc::Mb, KT::X25519) | (5, Enc::Mb, KT::Ed25519)
    )
}
/// The key type that (type, encoding) claims, whatever is inside.
fn claims(t: usize, e: Enc, kt: KT) -> Option<KT> {
    match (t, e) {
        (0, Enc::Jwk) => Some(kt),
        (1, Enc::B58) | (4, Enc::Mb) => Some(KT::X25519),
        (2, Enc::B58) | (5, Enc::Mb) => Some(KT::Ed25519),
        _ => None,
    }
}
fn material(k: &Key, e: Enc) -> VM {
    match e {
        Enc::Jwk => VM::JWK { public_key_jwk: k.public_jwk() },
        Enc::B58 => VM::Base58 { public_key_base58: b58enc(&k.pk) },
        Enc::Mb => VM::Multibase {
            public_key_multibase: mb(
                match k.kt {
                    KT::X25519 => &[0xec, 0x01],
                    KT::Ed25519 => &[0xed, 0x01],
                    KT::P256 => &[0x80, 0x24],
                    KT::K256 => &[0xe7, 0x01],
                },
                &k.pk,
            ),
        },
    }
}
fn secret_material(k: &Key, e: Enc) -> SM {
    let long = match k.kt {
        KT::Ed25519 => [&k.sk[..], &k.pk[..]].concat(),
        _ => k.sk.to_vec(),
    };
    match e {
        Enc::Jwk => SM::JWK { private_key_jwk: k.private_jwk() },
        Enc::B58 => SM::Base58 { private_key_base58: b58enc(&long) },
        Enc::Mb => SM::Multibase {
            private_key_multibase: mb(
                match k.kt {
                    KT::X25519 => &[0x82, 0x26],
                    KT::Ed25519 => &[0x80, 0x26],
                    KT::P256 => &[0x86, 0x26],
                    KT::K256 => &[0x81, 0x26],
                },
                &long,
            ),
        },
    }
}
fn vm_of(id: &str, t: usize, m: VM) -> VerificationMethod {
    VerificationMethod { id: id.into(), type_: VTS[t](), controller: "c".into(), verification_material: m }
}
fn is_ka(kt: KT) -> bool {
    matches!(kt, KT::X25519 | KT::P256)
}
fn is_sig(kt: KT) -> bool {
    !matches!(kt, KT::X25519)
}

fn mismatches(rec: &mut Rec, t: usize, e: Enc, kt: KT) {
    let k = Key::derive(kt, "mm");
    let id = format!("{B}#k");
    let good = Key::derive(KT::X25519, "mm-good");
    let gid = format!("{B}#good");
    let m = simple(Some(A), Some(B), "to whom");
    let ok = matching(t, e, kt);
    // 32 raw bytes labelled as the other Curve25519 type are a valid key of that type: nothing to tell them apart by
    if e == Enc::B58 && matches!((t, kt), (1, KT::Ed25519) | (2, KT::X25519)) {
        rec.outcome("indistinguishable");
        return;
    }
    let bad_kinds = [ErrorKind::Unsupported, ErrorKind::NoCompatibleCrypto, ErrorKind::Malformed, ErrorKind::IllegalArgument, ErrorKind::InvalidState];
    let unsupported = [ErrorKind::Unsupported, ErrorKind::NoCompatibleCrypto, ErrorKind::InvalidState];
    let allowed: &[ErrorKind] = if claims(t, e, kt).is_none() { &unsupported } else { &bad_kinds };
    let parties = [Party {
        did: B.into(),
        keys: vec![
            PKey { kid: id.clone(), key: k.clone(), enc: Enc::Jwk, ka: true, auth: true },
            PKey { kid: gid.clone(), key: good.clone(), enc: Enc::Jwk, ka: true, auth: false },
        ],
        services: vec![],
    }];
    // as a recipient key named directly
    for alg in &ANON {
        let n = view(vec![doc(B, Some(vm_of(&id, t, material(&k, e))), None)], vec![]);
        let what = format!("to-kid-{}", anon_enc_name(alg));
        rec.eval(&what, !ok);
        match block_on(Mode::enc(&id, None, None, false, alg).pack(&m, &n)) {
            Ok((p, _)) => {
                rec.outcome("packed");
                rec.check(ok && is_ka(kt), &what, || "encrypted to a key that the method does not describe".into());
                let r = peel(&p, &parties[0], &parties, 0);
                rec.check(r.is_ok(), &what, || format!("not to the key meant: {:?}", r.err()));
            }
            Err(x) => {
                rec.outcome(format!("to-kid {:?}", x.kind()));
                rec.check(!(ok && is_ka(kt)), &what, || format!("{x}"));
                rec.check(allowed.contains(&x.kind()), &what, || format!("{:?}: {x}", x.kind()));
            }
        }
    }
    // among the keys of a DID, before and after a good one
    for first in [false, true] {
        let mut d = doc(B, Some(vm_of(&id, t, material(&k, e))), None);
        let g = good.vm(&gid, Enc::Jwk);
        if first {
            d.key_agreement.push(gid.clone());
            d.verification_method.push(g);
        } else {
            d.key_agreement.insert(0, gid.clone());
            d.verification_method.insert(0, g);
        }
        let n = view(vec![d], vec![]);
        let what = format!("to-did-{first}");
        rec.eval(&what, true);
        let r = block_on(Mode::enc(B, None, None, false, &ANON[1]).pack(&m, &n));
        match (claims(t, e, kt).filter(|c| is_ka(*c)), r) {
            (None, Ok((p, md))) => {
                rec.outcome("skipped");
                rec.check(md.unwrap().to_kids == [gid.clone()], &what, || "the undescribed key was used".into());
                let r = peel(&p, &parties[0], &parties, 0);
                rec.check(r.is_ok(), &what, || format!("{:?}", r.err()));
            }
            // a supported signing type ahead of the usable key is chosen and refused (see C06)
            (None, Err(_)) if first && claims(t, e, kt).is_some() => rec.outcome("signing key chosen and refused"),
            (None, Err(x)) => rec.fail(&what, format!("a key of unsupported type hides the usable one: {x}")),
            (Some(_), Ok((p, md))) => {
                for i in 0..md.unwrap().to_kids.len() {
                    let r = peel(&p, &parties[0], &parties, i);
                    rec.check(r.is_ok(), &what, || format!("{:?}", r.err()));
                }
            }
            (Some(_), Err(x)) => {
                rec.check(!ok && bad_kinds.contains(&x.kind()), &what, || format!("{x}"));
            }
        }
    }
    // as the key that verifies a signature made with the very key
    if is_sig(kt) {
        let t_ = ref_sign(&k, &id, simple(Some(B), None, "s").pack_text().as_bytes()).to_string();
        let n = view(vec![doc(B, None, Some(vm_of(&id, t, material(&k, e))))], vec![]);
        rec.eval("verify", !ok);
        let r = block_on(unpack(&t_, &n));
        match r {
            Ok(_) => {
                rec.outcome("verified");
                rec.check(ok, "verify", || "verified with a key that the method does not describe".into());
            }
            Err(x) => {
                rec.outcome(format!("verify {:?}", x.kind()));
                rec.check(!ok && allowed.contains(&x.kind()), "verify", || format!("{:?} {x}", x.kind()));
            }
        }
    }
    // as the sender's key agreement key
    if is_ka(kt) {
        let sk = Key::derive(kt, "mm-rcpt");
        let rid = format!("{A}#k");
        let t_ = Seal::new("mm", "A256CBC-HS512", Some((&id, &k)), &[(&rid, &sk)], simple(Some(B), Some(A), "s").pack_text().as_bytes())
            .build()
            .to_string();
        let n = view(vec![doc(B, Some(vm_of(&id, t, material(&k, e))), None)], vec![sk.secret(&rid, Enc::Jwk)]);
        rec.eval("sender", !ok);
        match block_on(unpack(&t_, &n)) {
            Ok(_) => {
                rec.outcome("authenticated");
                rec.check(ok, "sender", || "authenticated by a key that the method does not describe".into());
            }
            Err(x) => {
                rec.outcome(format!("sender {:?}", x.kind()));
                rec.check(!ok && allowed.contains(&x.kind()), "sender", || format!("{:?} {x}", x.kind()));
            }
        }
    }
    // as a secret: signing, decrypting, sending
    let s = Secret { id: id.clone(), type_: st_of(t), secret_material: secret_material(&k, e) };
    if is_sig(kt) {
        let n = view(vec![doc(B, None, Some(k.vm(&id, Enc::Jwk)))], vec![s.clone()]);
        rec.eval("sign", !ok);
        match block_on(simple(Some(B), None, "s").pack_signed(B, &n, &n)) {
            Ok((t_, _)) => {
                rec.check(ok && open_jws(&t_, &|_| Some(k.clone())).is_ok(), "sign", || "signed with a mislabelled secret".into());
            }
            Err(x) => {
                rec.outcome(format!("sign {:?}", x.kind()));
                rec.check(!ok && allowed.contains(&x.kind()), "sign", || format!("{:?} {x}", x.kind()));
            }
        }
    }
    if is_ka(kt) {
        let t_ = Seal::new("mm2", "XC20P", None, &[(&id, &k)], simple(None, Some(B), "s").pack_text().as_bytes()).build().to_string();
        let n = view(vec![doc(B, Some(k.vm(&id, Enc::Jwk)), None)], vec![s.clone()]);
        rec.eval("decrypt", !ok);
        match block_on(unpack(&t_, &n)) {
            Ok(_) => {
                rec.check(ok, "decrypt", || "decrypted with a mislabelled secret".into());
            }
            Err(x) => {
                rec.outcome(format!("decrypt {:?}", x.kind()));
                rec.check(!ok && allowed.contains(&x.kind()), "decrypt", || format!("{:?} {x}", x.kind()));
            }
        }
        let rk = Key::derive(kt, "mm-r");
        let rid = format!("{A}#k");
        let n = view(vec![doc(B, Some(k.vm(&id, Enc::Jwk)), None), doc(A, Some(rk.vm(&rid, Enc::Jwk)), None)], vec![s]);
        rec.eval("send", !ok);
        match block_on(Mode::enc(A, Some(B), None, false, &ANON[0]).pack(&simple(Some(B), Some(A), "s"), &n)) {
            Ok(_) => {
                rec.check(ok, "send", || "sent with a mislabelled secret".into());
            }
            Err(x) => {
                rec.outcome(format!("send {:?}", x.kind()));
                rec.check(!ok && allowed.contains(&x.kind()), "send", || format!("{:?} {x}", x.kind()));
            }
        }
    }
}

trait PackText {
    fn pack_text(&self) -> String;
}
impl PackText for Message {
    fn pack_text(&self) -> String {
        serde_json::to_string(self).unwrap()
    }
}

/// Corruptions of an encoded string.
fn strings(s: &str, full: bool) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut v = vec![String::new(), " ".into(), format!("{s} "), format!(" {s}"), format!("{s}="), format!("{s}\n"), s.to_lowercase(), s.to_uppercase(), "z".into(), "\u{1F600}".into(), format!("{s}{s}"), s.repeat(40)];
    for i in 0..c.len() {
        v.push(c[..i].iter().collect());
        v.push(c[i..].iter().skip(1).collect());
        for x in if full { vec!['0', 'O', 'I', 'l', '+', '/', '_', '.', 'é', '\0', '=', 'z', '1'] } else { vec!['0', '+', 'é', '1'] } {
            let mut d = c.clone();
            d[i] = x;
            v.push(d.iter().collect());
            let mut d = c.clone();
            d.insert(i, x);
            v.push(d.iter().collect());
        }
    }
    v
}
fn b58dec(s: &str) -> Option<Vec<u8>> {
    const AL: &str = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut n: Vec<u8> = vec![];
    for ch in s.chars() {
        let mut c = AL.find(ch)? as u32;
        for b in n.iter_mut() {
            c += *b as u32 * 58;
            *b = c as u8;
            c >>= 8;
        }
        while c > 0 {
            n.push(c as u8);
            c >>= 8;
        }
    }
    let z = s.chars().take_while(|c| *c == '1').count();
    n.extend(std::iter::repeat(0).take(z));
    n.reverse();
    Some(n)
}

/// The raw public key a method denotes (reference decoder); None: must be an error.
/// Err: not specified here.
fn ref_public(vm: &VerificationMethod, kt: KT) -> Result<Option<Vec<u8>>, ()> {
    let dec = |s: &str| -> Option<Vec<u8>> { b58dec(s) };
    Ok(match &vm.verification_material {
        VM::Base58 { public_key_base58: s } => dec(s).filter(|b| b.len() == 32),
        VM::Multibase { public_key_multibase: s } => {
            let Some(s) = s.strip_prefix('z') else { return Ok(None) };
            let Some(b) = dec(s) else { return Ok(None) };
            let p: &[u8] = if kt == KT::X25519 { &[0xec, 0x01] } else { &[0xed, 0x01] };
            // a non-minimal prefix is not specified beyond "an error or the same key"
            let n = b.iter().take_while(|x| **x >= 0x80).count();
            if b.len() > 2 && b[0] == p[0] && b[1] == 0x81 && n < b.len() && b[2..=n].iter().all(|x| x & 0x7f == 0) {
                return if b.len() == n + 1 + 32 { Err(()) } else { Ok(None) };
            }
            b.strip_prefix(p).filter(|b| b.len() == 32).map(|b| b.to_vec())
        }
        VM::JWK { public_key_jwk: j } => {
            let g = |k: &str| j[k].as_str().and_then(b64u_dec).filter(|b| b.len() == 32);
            if j["kty"].as_str() != Some(kt.kty()) || j["crv"].as_str() != Some(kt.crv()) {
                return Ok(None);
            }
            // what the crypto library makes of padding, and of a private part in a public key, is not specified
            if !j["d"].is_null() || kt.okp() && !(j["y"].is_null() || j["y"].is_string()) || ["x", "y"].iter().any(|m| j[m].as_str().map_or(false, |s| s.ends_with('='))) {
                return Err(());
            }
            let Some(x) = g("x") else { return Ok(None) };
            if kt.okp() {
                Some(x)
            } else {
                let Some(y) = g("y") else { return Ok(None) };
                Some([x, y].concat())
            }
        }
    })
}

fn malformed_public(rec: &mut Rec, kt: KT, e: Enc, full: bool) {
    let k = Key::derive(kt, "mal");
    let id = format!("{B}#k");
    let mut ms: Vec<VM> = vec![];
    match e {
        Enc::B58 => ms.extend(strings(&b58enc(&k.pk), full).into_iter().map(|s| VM::Base58 { public_key_base58: s })),
        Enc::Mb => {
            let VM::Multibase { public_key_multibase: s } = material(&k, e) else { unreachable!() };
            ms.extend(strings(&s, full).into_iter().map(|s| VM::Multibase { public_key_multibase: s }));
            for p in ["m", "f", "u", "Z", "b", "B", "k", "", "zz", "\u{0}"] {
                ms.push(VM::Multibase { public_key_multibase: format!("{p}{}", &s[1..]) });
            }
            for codec in [
                vec![0xec, 0x01],
                vec![0xed, 0x01],
                vec![0x82, 0x26],
                vec![0x80, 0x26],
                vec![0xe7, 0x01],
                vec![0x80, 0x24],
                vec![0xec, 0x81, 0x00],
                vec![0xed, 0x81, 0x80, 0x00],
                vec![0xec],
                vec![0xff; 4],
                vec![0xff; 5],
                vec![0xff; 12],
                vec![0x80; 9],
                vec![0x00],
                vec![0xec, 0x01, 0x00],
                vec![],
            ] {
                for body in [k.pk.to_vec(), k.pk[..31].to_vec(), vec![], [&k.pk[..], &[0]].concat()] {
                    ms.push(VM::Multibase { public_key_multibase: mb(&codec, &body) });
                }
            }
        }
        Enc::Jwk => {
            let j = k.public_jwk();
            for m in ["kty", "crv", "x", "y", "d", "extra"] {
                let mut vals = vec![Value::Null, json!(1), json!([]), json!({}), json!(true), json!(""), json!("OKP"), json!("EC"), json!("RSA"), json!("P-256"), json!("P-384"), json!("X25519"), json!("Ed25519"), json!("secp256k1"), json!("x25519")];
                if let Some(s) = j[m].as_str() {
                    vals.extend(strings(s, full).into_iter().map(|s| json!(s)));
                }
                for v in vals {
                    let mut a = j.clone();
                    a[m] = v;
                    ms.push(VM::JWK { public_key_jwk: a });
                }
                let mut a = j.clone();
                a.as_object_mut().unwrap().remove(m);
                ms.push(VM::JWK { public_key_jwk: a });
            }
            for v in [json!(null), json!([]), json!("x"), json!({}), json!(1), json!([j.clone()]), json!(j.to_string())] {
                ms.push(VM::JWK { public_key_jwk: v });
            }
        }
    }
    let m = simple(Some(A), Some(B), "to whom");
    for (i, v) in ms.into_iter().enumerate() {
        let t = match (e, kt) {
            (Enc::Jwk, _) => 0,
            (Enc::B58, KT::X25519) => 1,
            (Enc::B58, _) => 2,
            (Enc::Mb, KT::X25519) => 4,
            _ => 5,
        };
        let vm = vm_of(&id, t, v);
        let what = format!("{i}");
        let desc = format!("{:?}", vm.verification_material);
        rec.begin(&desc);
        rec.eval(&what, true);
        let want = ref_public(&vm, kt);
        // Ok(Some) when used as the given key, Ok(None) when used as something else
        let r: Result<bool, didcomm::error::Error> = if is_ka(kt) {
            let n = view(vec![doc(B, Some(vm.clone()), None)], vec![]);
            let p = Party { did: B.into(), keys: vec![PKey { kid: id.clone(), key: k.clone(), enc: Enc::Jwk, ka: true, auth: false }], services: vec![] };
            match rec.guarded(|| block_on(Mode::enc(&id, None, None, false, &ANON[1]).pack(&m, &n))) {
                Ok(r) => r.map(|(t, _)| peel(&t, &p, &[p.clone()], 0).is_ok()),
                Err(x) => {
                    rec.fail(&what, format!("{desc}: panic {x}"));
                    continue;
                }
            }
        } else {
            let t_ = ref_sign(&k, &id, simple(Some(B), None, "s").pack_text().as_bytes()).to_string();
            let n = view(vec![doc(B, None, Some(vm.clone()))], vec![]);
            match rec.guarded(|| block_on(unpack(&t_, &n))) {
                Ok(Ok(_)) => Ok(true),
                Ok(Err(x)) => Err(x),
                Err(x) => {
                    rec.fail(&what, format!("{desc}: panic {x}"));
                    continue;
                }
            }
        };
        match (&want, r) {
            (Ok(None), Ok(same)) => {
                rec.outcome("malformed accepted");
                rec.fail(&what, format!("{desc} is no key, yet was used{}", if same { " as the key it resembles" } else { " as some key" }));
            }
            (Ok(Some(raw)), Ok(same)) => {
                rec.outcome("same key");
                rec.check(same == (*raw == k.pk), &what, || format!("{desc}: used as another key"));
            }
            (Ok(Some(raw)), Err(x)) if is_ka(kt) => {
                rec.outcome("rejected");
                // another point: P-256 points off the curve are errors
                rec.check(*raw != k.pk, &what, || format!("{desc}: {x}"));
            }
            (Ok(Some(raw)), Err(x)) => {
                rec.outcome("other key");
                rec.check(*raw != k.pk, &what, || format!("{desc}: {x}"));
            }
            (Err(()), Ok(same)) => {
                rec.check(same, &what, || format!("{desc}: used as another key"));
            }
            (_, Err(_)) => rec.outcome("error"),
        }
    }
}

fn malformed_secret(rec: &mut Rec, kt: KT, e: Enc, full: bool) {
    let k = Key::derive(kt, "mal");
    let id = format!("{B}#k");
    let mut ms: Vec<(SM, Option<bool>)> = vec![];
    let long = if kt == KT::Ed25519 { [&k.sk[..], &k.pk[..]].concat() } else { k.sk.to_vec() };
    // Some(true): the key, Some(false): must be an error or unusable, None: unspecified (no panic)
    match e {
        Enc::B58 => {
            for s in strings(&b58enc(&long), full) {
                let ok = b58dec(&s).map(|b| b.len() == long.len());
                ms.push((SM::Base58 { private_key_base58: s }, if ok == Some(true) { None } else { Some(false) }));
            }
            for n in 0..long.len() {
                ms.push((SM::Base58 { private_key_base58: b58enc(&long[..n]) }, Some(false)));
            }
        }
        Enc::Mb => {
            let SM::Multibase { private_key_multibase: s } = secret_material(&k, e) else { unreachable!() };
            let pre: &[u8] = if kt == KT::X25519 { &[0x82, 0x26] } else { &[0x80, 0x26] };
            for x in strings(&s, full) {
                let ok = x.strip_prefix('z').and_then(b58dec).and_then(|b| b.strip_prefix(pre).map(|b| b.len() == long.len()));
                ms.push((SM::Multibase { private_key_multibase: x }, if ok == Some(true) { None } else { Some(false) }));
            }
            for p in ["m", "f", "u", "Z", "b", "", "zz", "\u{0}"] {
                ms.push((SM::Multibase { private_key_multibase: format!("{p}{}", &s[1..]) }, Some(false)));
            }
            for codec in [vec![0xec, 0x01], vec![0xed, 0x01], vec![0x82, 0x26], vec![0x80, 0x26], vec![0x82], vec![0xff; 5], vec![0xff; 12], vec![], vec![0x82, 0xa6, 0x00], vec![0x80, 0xa6, 0x80, 0x00]] {
                for n in [0, 1, 31, 32, 33, 63, 64].into_iter().filter(|n| *n <= long.len()) {
                    let v = if codec == pre && n == long.len() {
                        Some(true)
                    } else if codec.len() > 2 && codec[1] == 0xa6 {
                        None
                    } else {
                        Some(false)
                    };
                    ms.push((SM::Multibase { private_key_multibase: mb(&codec, &long[..n]) }, v));
                }
            }
        }
        Enc::Jwk => {
            let j = k.private_jwk();
            for m in ["kty", "crv", "x", "y", "d"] {
                if m == "y" && kt.okp() {
                    continue;
                }
                let mut vals = vec![json!(null), json!(1), json!([]), json!({}), json!(""), json!("EC"), json!("OKP"), json!("P-256"), json!("X25519"), json!("Ed25519"), json!("secp256k1"), json!("P-521")];
                if let Some(s) = j[m].as_str() {
                    vals.extend(strings(s, full).into_iter().map(|s| json!(s)));
                }
                for v in vals {
                    let same = v == j[m];
                    let len32 = v.as_str().and_then(b64u_dec).map(|b| b.len() == 32) == Some(true);
                    let mut a = j.clone();
                    a[m] = v;
                    let padded = a[m].as_str().map_or(false, |s| s.ends_with('='));
                    let w = if padded {
                        None
                    } else if same {
                        Some(true)
                    } else if len32 || m == "d" && a[m].is_null() {
                        None
                    } else {
                        Some(false)
                    };
                    ms.push((SM::JWK { private_key_jwk: a }, w));
                }
                let mut a = j.clone();
                a.as_object_mut().unwrap().remove(m);
                ms.push((SM::JWK { private_key_jwk: a }, Some(false)));
            }
            for v in [json!(null), json!([]), json!("x"), json!({}), k.public_jwk()] {
                ms.push((SM::JWK { private_key_jwk: v }, Some(false)));
            }
        }
    }
    let t = match (e, kt) {
        (Enc::Jwk, _) => 0,
        (Enc::B58, KT::X25519) => 1,
        (Enc::B58, _) => 2,
        (Enc::Mb, KT::X25519) => 4,
        _ => 5,
    };
    for (i, (sm, want)) in ms.into_iter().enumerate() {
        let what = format!("{i}");
        let desc = format!("{sm:?}");
        rec.begin(&desc);
        rec.eval(&what, true);
        let s = Secret { id: id.clone(), type_: st_of(t), secret_material: sm };
        let r = if is_ka(kt) {
            let t_ = Seal::new("mal", "XC20P", None, &[(&id, &k)], simple(None, Some(B), "s").pack_text().as_bytes()).build().to_string();
            let n = view(vec![], vec![s]);
            rec.guarded(|| block_on(unpack(&t_, &n)).map(|_| ()))
        } else {
            let n = view(vec![doc(B, None, Some(k.vm(&id, Enc::Jwk)))], vec![s]);
            rec.guarded(|| block_on(simple(Some(B), None, "s").pack_signed(B, &n, &n)).map(|_| ()))
        };
        match (want, r) {
            (_, Err(p)) => rec.fail(&what, format!("{desc}: panic {p}")),
            (Some(true), Ok(Err(x))) => rec.fail(&what, format!("{desc}: {x}")),
            (Some(false), Ok(Ok(()))) => rec.fail(&what, format!("{desc} is no key, yet was used")),
            (_, Ok(Ok(()))) => rec.outcome("used"),
            (_, Ok(Err(x))) => rec.outcome(format!("{:?}", x.kind())),
        }
    }
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C15",
        "exploration",
        "edge-valued keys x every encoding on each of the four sides of an exchange (and of a signature, and of a token), each \
         envelope also opened with the raw key; every method/secret type x every material encoding x every key type as \
         recipient, sender, signer, decrypter; every truncation, insertion, substitution and mislabelling of each encoding \
         against a reference decoder. Non-trivial: the encodings differ, mismatch or are malformed",
    );
    p.assumptions = vec![
        "whether a private JWK whose halves disagree is noticed belongs to the crypto library".into(),
        "a non-minimal multicodec prefix may be an error or the same key".into(),
    ];
    for kt in [KT::X25519, KT::P256] {
        for (n, k) in edge_keys(kt) {
            for (n2, k2) in edge_keys(kt) {
                if !full && n != "plain" && n2 != "plain" && n != n2 {
                    continue;
                }
                let (k, k2) = (k.clone(), k2.clone());
                p.case(format!("exchange/{kt:?}/{n}/{n2}"), move |rec| {
                    equivalence(rec, kt, &k, &k2);
                    rec.sample(|| json!({"sender": k.public_jwk(), "recipient": k2.public_jwk()}));
                });
            }
        }
    }
    for kt in [KT::Ed25519, KT::P256, KT::K256] {
        for (n, k) in edge_keys(kt) {
            p.case(format!("sign/{kt:?}/{n}"), move |rec| signing(rec, kt, &k));
        }
    }
    for t in 0..7 {
        for e in ENCS {
            for kt in KTS {
                p.case(format!("types/{t}/{e:?}/{kt:?}"), move |rec| mismatches(rec, t, e, kt));
            }
        }
    }
    for kt in KTS {
        for e in encs(kt) {
            p.case(format!("malformed-public/{kt:?}/{e:?}"), move |rec| malformed_public(rec, kt, e, full));
            p.case(format!("malformed-secret/{kt:?}/{e:?}"), move |rec| malformed_secret(rec, kt, e, full));
        }
    }
    p.bounds = json!({"keys": "leading/trailing zero and 0xff bytes in either half", "corruptions": "one position"});
    p
}
