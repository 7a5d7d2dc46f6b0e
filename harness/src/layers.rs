//! Protection layers: building them with the reference implementation, peeling them with it, and
//! the unpack metadata that a stack of layers must give.
use crate::keys::Key;
use crate::msgs::anon_from_enc;
use crate::refjose::*;
use crate::world::{lookup, Party};
use didcomm::algorithms::{AuthCryptAlg, SignAlg};
use didcomm::UnpackMetadata;
use serde_json::{json, Value};

pub type KK = (String, Key);

#[derive(Clone, Debug)]
pub enum Layer {
    Anon { enc: &'static str, to: Vec<KK> },
    Auth { from: KK, to: Vec<KK> },
    Sign { by: KK },
    /// DIDComm forward message around the inner envelope
    Fwd { next: String },
}

impl Layer {
    pub fn name(&self) -> String {
        let short = |k: &str| k.replace("did:example:", "");
        match self {
            Layer::Anon { enc, to } => {
                format!("anon[{enc}>{}]", to.iter().map(|t| short(&t.0)).collect::<Vec<_>>().join("+"))
            }
            Layer::Auth { from, to } => {
                format!("auth[{}>{}]", short(&from.0), to.iter().map(|t| short(&t.0)).collect::<Vec<_>>().join("+"))
            }
            Layer::Sign { by } => format!("sign[{}]", short(&by.0)),
            Layer::Fwd { next } => format!("fwd[{}]", short(next)),
        }
    }
}
pub fn stack_name(ls: &[Layer]) -> String {
    if ls.is_empty() {
        return "plain".into();
    }
    ls.iter().map(|l| l.name()).collect::<Vec<_>>().join("(")
}

pub fn no_md() -> UnpackMetadata {
    UnpackMetadata {
        encrypted: false,
        authenticated: false,
        non_repudiation: false,
        anonymous_sender: false,
        re_wrapped_in_forward: false,
        encrypted_from_kid: None,
        encrypted_to_kids: None,
        sign_from: None,
        from_prior_issuer_kid: None,
        enc_alg_auth: None,
        enc_alg_anon: None,
        sign_alg: None,
        signed_message: None,
        from_prior: None,
    }
}

pub fn sign_alg(n: &str) -> SignAlg {
    match n {
        "EdDSA" => SignAlg::EdDSA,
        "ES256" => SignAlg::ES256,
        _ => SignAlg::ES256K,
    }
}

/// Texts from innermost (the plaintext) to outermost (what is sent).
pub fn build(layers: &[Layer], plaintext: &str, label: &str) -> Vec<String> {
    let mut texts = vec![plaintext.to_string()];
    for (i, l) in layers.iter().enumerate().rev() {
        let inner = texts.last().unwrap().clone();
        let lab = format!("{label}/{i}");
        let refs = |v: &'_ [KK]| v.iter().map(|(a, b)| (a.clone(), b.clone())).collect::<Vec<_>>();
        let t = match l {
            Layer::Anon { enc, to } => {
                let to = refs(to);
                let r: Vec<(&str, &Key)> = to.iter().map(|(a, b)| (a.as_str(), b)).collect();
                Seal::new(&lab, enc, None, &r, inner.as_bytes()).build().to_string()
            }
            Layer::Auth { from, to } => {
                let to = refs(to);
                let r: Vec<(&str, &Key)> = to.iter().map(|(a, b)| (a.as_str(), b)).collect();
                Seal::new(&lab, "A256CBC-HS512", Some((&from.0, &from.1)), &r, inner.as_bytes()).build().to_string()
            }
            Layer::Sign { by } => ref_sign(&by.1, &by.0, inner.as_bytes()).to_string(),
            Layer::Fwd { next } => fwd_json(&format!("fwd-{i}"), next, &inner),
        };
        texts.push(t);
    }
    texts
}

pub fn fwd_json(id: &str, next: &str, inner: &str) -> String {
    json!({"id": id, "typ": "application/didcomm-plain+json", "type": "https://didcomm.org/routing/2.0/forward",
        "body": {"next": next}, "attachments": [{"data": {"json": serde_json::from_str::<Value>(inner).unwrap()}}]})
    .to_string()
}

/// Metadata that unpacking this stack (no Fwd) must report; `texts` from `build`.
pub fn expected(layers: &[Layer], texts: &[String]) -> UnpackMetadata {
    let mut md = no_md();
    for (i, l) in layers.iter().enumerate() {
        match l {
            Layer::Anon { enc, to } => {
                md.encrypted = true;
                md.anonymous_sender = true;
                md.enc_alg_anon = Some(anon_from_enc(enc));
                md.encrypted_to_kids = Some(to.iter().map(|t| t.0.clone()).collect());
            }
            Layer::Auth { from, to } => {
                md.encrypted = true;
                md.authenticated = true;
                md.enc_alg_auth = Some(AuthCryptAlg::A256cbcHs512Ecdh1puA256kw);
                md.encrypted_from_kid = Some(from.0.clone());
                if md.encrypted_to_kids.is_none() {
                    md.encrypted_to_kids = Some(to.iter().map(|t| t.0.clone()).collect());
                }
            }
            Layer::Sign { by } => {
                md.authenticated = true;
                md.non_repudiation = true;
                md.sign_from = Some(by.0.clone());
                md.sign_alg = Some(sign_alg(by.1.kt.sig_alg().unwrap()));
                md.signed_message = Some(texts[texts.len() - 1 - i].clone());
            }
            Layer::Fwd { .. } => {}
        }
    }
    md
}

/// Result of peeling an envelope with the reference implementation.
#[derive(Clone, Debug)]
pub struct Peeled {
    pub layers: Vec<Layer>,
    /// innermost first, as for `build`
    pub texts: Vec<String>,
    pub plain: Value,
    pub opened: Vec<Opened>,
}

/// Opens everything `who` can open, using its key for the `pick`-th recipient of each JWE.
pub fn peel(text: &str, who: &Party, world: &[Party], pick: usize) -> Result<Peeled, String> {
    let look = lookup(world);
    let mut layers = vec![];
    let mut opened = vec![];
    let mut texts = vec![text.to_string()];
    let mut cur = text.to_string();
    loop {
        let v: Value = serde_json::from_str(&cur).map_err(|e| format!("not JSON: {e}"))?;
        if v.get("ciphertext").is_some() {
            let kids: Vec<String> = v["recipients"]
                .as_array()
                .ok_or("recipients")?
                .iter()
                .map(|r| r["header"]["kid"].as_str().unwrap_or("").to_string())
                .collect();
            let kid = kids.get(pick % kids.len().max(1)).ok_or("no recipients")?.clone();
            let pk = who.keys.iter().find(|k| k.kid == kid).ok_or_else(|| format!("not a key of the reader: {kid}"))?;
            let o = open_jwe(&cur, &kid, &pk.key, &|k| look(k))?;
            let to: Vec<KK> = o
                .kids
                .iter()
                .map(|k| look(k).map(|x| (k.clone(), x)).ok_or_else(|| format!("unknown recipient {k}")))
                .collect::<Result<_, _>>()?;
            layers.push(match &o.skid {
                Some(s) => Layer::Auth { from: (s.clone(), look(s).ok_or("sender")?), to },
                None => Layer::Anon { enc: ENC_ALGS.iter().find(|e| **e == o.enc).unwrap(), to },
            });
            cur = String::from_utf8(o.pt.clone()).map_err(|_| "payload not UTF-8")?;
            opened.push(o);
            texts.push(cur.clone());
        } else if v.get("payload").is_some() && v.get("signatures").is_some() {
            let (kid, _, p) = open_jws(&cur, &|k| look(k))?;
            layers.push(Layer::Sign { by: (kid.clone(), look(&kid).unwrap()) });
            cur = String::from_utf8(p).map_err(|_| "payload not UTF-8")?;
            texts.push(cur.clone());
        } else {
            texts.reverse();
            return Ok(Peeled { layers, texts, plain: v, opened });
        }
    }
}

/// Reference JSON of a message.
pub fn ref_json(m: &didcomm::Message) -> Value {
    let mut o = serde_json::Map::new();
    for (k, v) in &m.extra_headers {
        o.insert(k.clone(), v.clone());
    }
    o.insert("id".into(), json!(m.id));
    o.insert("typ".into(), json!(m.typ));
    o.insert("type".into(), json!(m.type_));
    o.insert("body".into(), m.body.clone());
    let mut opt = |k: &str, v: Option<Value>| {
        if let Some(v) = v {
            o.insert(k.into(), v);
        }
    };
    opt("from", m.from.as_ref().map(|x| json!(x)));
    opt("to", m.to.as_ref().map(|x| json!(x)));
    opt("thid", m.thid.as_ref().map(|x| json!(x)));
    opt("pthid", m.pthid.as_ref().map(|x| json!(x)));
    opt("created_time", m.created_time.map(|x| json!(x)));
    opt("expires_time", m.expires_time.map(|x| json!(x)));
    opt("from_prior", m.from_prior.as_ref().map(|x| json!(x)));
    opt("attachments", m.attachments.as_ref().map(|a| Value::Array(a.iter().map(ref_attachment).collect())));
    Value::Object(o)
}

pub fn ref_attachment(a: &didcomm::Attachment) -> Value {
    use didcomm::AttachmentData as D;
    let mut o = serde_json::Map::new();
    let mut d = serde_json::Map::new();
    let jws = match &a.data {
        D::Base64 { value } => {
            d.insert("base64".into(), json!(value.base64));
            &value.jws
        }
        D::Json { value } => {
            d.insert("json".into(), value.json.clone());
            &value.jws
        }
        D::Links { value } => {
            d.insert("links".into(), json!(value.links));
            d.insert("hash".into(), json!(value.hash));
            &value.jws
        }
    };
    if let Some(j) = jws {
        d.insert("jws".into(), json!(j));
    }
    o.insert("data".into(), Value::Object(d));
    let mut opt = |k: &str, v: Option<Value>| {
        if let Some(v) = v {
            o.insert(k.into(), v);
        }
    };
    opt("id", a.id.as_ref().map(|x| json!(x)));
    opt("description", a.description.as_ref().map(|x| json!(x)));
    opt("filename", a.filename.as_ref().map(|x| json!(x)));
    opt("media_type", a.media_type.as_ref().map(|x| json!(x)));
    opt("format", a.format.as_ref().map(|x| json!(x)));
    opt("lastmod_time", a.lastmod_time.map(|x| json!(x)));
    opt("byte_count", a.byte_count.map(|x| json!(x)));
    Value::Object(o)
}
