//! Message alphabet and packing modes.
use crate::onion::peel_onion;
use crate::keys::KT;
use crate::world::{docs_of, nm, service, Net, Party};
use didcomm::algorithms::{AnonCryptAlg, AuthCryptAlg};
use didcomm::did::{Service, ServiceKind};
use didcomm::error::{err_msg, ErrorKind, Result};
use didcomm::{
    Attachment, Message, MessageBuilder, PackEncryptedMetadata, PackEncryptedOptions, UnpackMetadata, UnpackOptions,
};
use serde_json::{json, Value};

pub const ANON: [AnonCryptAlg; 3] =
    [AnonCryptAlg::A256cbcHs512EcdhEsA256kw, AnonCryptAlg::Xc20pEcdhEsA256kw, AnonCryptAlg::A256gcmEcdhEsA256kw];

pub fn anon_enc_name(a: &AnonCryptAlg) -> &'static str {
    match a {
        AnonCryptAlg::A256cbcHs512EcdhEsA256kw => "A256CBC-HS512",
        AnonCryptAlg::Xc20pEcdhEsA256kw => "XC20P",
        AnonCryptAlg::A256gcmEcdhEsA256kw => "A256GCM",
    }
}
pub fn anon_from_enc(e: &str) -> AnonCryptAlg {
    ANON.iter().find(|a| anon_enc_name(a) == e).unwrap().clone()
}

/// A way to pack a message.
#[derive(Clone, Debug, PartialEq)]
pub struct Mode {
    pub to: Option<String>,
    pub from: Option<String>,
    pub sign_by: Option<String>,
    pub protect: bool,
    pub anon: AnonCryptAlg,
    pub forward: bool,
    pub via: Via,
}

/// What the recipient's document says about delivery, with forwarding enabled (except `Off`).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Via {
    Off,
    /// forwarding enabled, no service at all
    NoService,
    /// a service without routing keys
    Direct,
    /// only services that do not apply: another profile, another type
    OtherProfile,
    /// one mediator, named by DID
    One,
    /// two mediators, the second named by a P-256 key id
    Two,
    /// the endpoint is the DID of a mediator
    Endpoint,
}
pub const VIAS: [Via; 6] = [Via::NoService, Via::Direct, Via::OtherProfile, Via::One, Via::Two, Via::Endpoint];

impl Via {
    /// The recipient's services, the mediators, and the routing keys along the route.
    fn setup(self, did: &str) -> (Vec<Service>, Vec<Party>, Vec<String>) {
        let m1 = Party::new(&nm("did:example:relay1")).ka("x1", KT::X25519).ka("x2", KT::X25519);
        let m2 = Party::new(&nm("did:example:relay2")).ka("p1", KT::P256);
        let id = format!("{did}#inbox");
        let v2 = || Some(vec!["didcomm/v2"]);
        match self {
            Via::Off | Via::NoService => (vec![], vec![], vec![]),
            Via::Direct => (vec![service(&id, "https://direct.example", v2(), &[])], vec![], vec![]),
            Via::OtherProfile => (
                vec![
                    service(&id, "https://old.example", Some(vec!["didcomm/aip1"]), &[m1.did.clone()]),
                    Service { id: format!("{did}#web"), service_endpoint: ServiceKind::Other { value: json!({"a": 1}) } },
                ],
                vec![m1],
                vec![],
            ),
            Via::One => (vec![service(&id, "https://m1.example", v2(), &[m1.did.clone()])], vec![m1.clone()], vec![m1.did]),
            Via::Two => {
                let keys = vec![m1.kid("x2"), m2.kid("p1")];
                (vec![service(&id, "https://m1.example", None, &keys)], vec![m1, m2], keys)
            }
            Via::Endpoint => {
                let m1 = m1.service(service("relay1#s", "https://m1.example", v2(), &[]));
                (vec![service(&id, &m1.did, v2(), &[m2.did.clone()])], vec![m1.clone(), m2.clone()], vec![m1.did, m2.did])
            }
        }
    }
}

impl Mode {
    pub fn plain() -> Mode {
        Mode { to: None, from: None, sign_by: None, protect: false, anon: AnonCryptAlg::default(), forward: false, via: Via::Off }
    }
    pub fn via(&self, via: Via) -> Mode {
        Mode { via, forward: self.forward || via != Via::Off, ..self.clone() }
    }
    pub fn signed(by: &str) -> Mode {
        Mode { sign_by: Some(by.into()), ..Mode::plain() }
    }
    pub fn enc(to: &str, from: Option<&str>, sign_by: Option<&str>, protect: bool, anon: &AnonCryptAlg) -> Mode {
        Mode {
            to: Some(to.into()),
            from: from.map(|s| s.into()),
            sign_by: sign_by.map(|s| s.into()),
            protect,
            anon: anon.clone(),
            forward: false,
            via: Via::Off,
        }
    }
    pub fn opts(&self) -> PackEncryptedOptions {
        PackEncryptedOptions {
            protect_sender: self.protect,
            forward: self.forward,
            forward_headers: None,
            messaging_service: None,
            enc_alg_auth: AuthCryptAlg::A256cbcHs512Ecdh1puA256kw,
            enc_alg_anon: self.anon.clone(),
        }
    }
    pub fn name(&self) -> String {
        let f = |o: &Option<String>| match o {
            Some(s) => s.replace("did:example:", ""),
            None => "-".into(),
        };
        format!(
            "to={};from={};sign={};{}{}{}",
            f(&self.to),
            f(&self.from),
            f(&self.sign_by),
            if self.to.is_some() { anon_enc_name(&self.anon) } else { "" },
            if self.protect { ";protect" } else { "" },
            match (self.forward, self.via) {
                (false, _) => String::new(),
                (true, Via::Off) => ";fwd".to_string(),
                (true, v) => format!(";{v:?}"),
            },
        )
    }
    pub async fn pack(&self, m: &Message, net: &Net) -> Result<(String, Option<PackEncryptedMetadata>)> {
        match (&self.to, &self.sign_by) {
            (None, None) => Ok((m.pack_plaintext(net).await?, None)),
            (None, Some(s)) => Ok((m.pack_signed(s, net, net).await?.0, None)),
            (Some(to), s) if self.via != Via::Off => {
                let did = to.split('#').next().unwrap().to_string();
                let (services, mediators, keys) = self.via.setup(&did);
                let mut far = Net::new(&docs_of(&mediators), &net.secrets);
                far.docs.extend(net.docs.clone());
                far.docs.get_mut(&did).expect("recipient").service = services;
                let r = m.pack_encrypted(to, self.from.as_deref(), s.as_deref(), &far, &far, &self.opts()).await;
                net.log.borrow_mut().extend(far.calls());
                let (t, md) = r?;
                // what arrives at the recipient, the mediators doing their part
                let enc = anon_enc_name(&self.anon);
                let (_, inner) = peel_onion(&t, &keys, to, &Default::default(), enc, &mediators)
                    .map_err(|e| err_msg(ErrorKind::InvalidState, format!("mediator: {e}")))?;
                Ok((inner, Some(md)))
            }
            (Some(to), s) => {
                let (t, md) =
                    m.pack_encrypted(to, self.from.as_deref(), s.as_deref(), net, net, &self.opts()).await?;
                Ok((t, Some(md)))
            }
        }
    }
    /// Does this mode add an outer anonymous layer?
    pub fn has_anon_layer(&self) -> bool {
        self.to.is_some() && (self.from.is_none() || self.protect)
    }
}

pub async fn unpack(s: &str, net: &Net) -> Result<(Message, UnpackMetadata)> {
    Message::unpack(s, net, net, &UnpackOptions::default()).await
}
pub async fn unpack_with(s: &str, net: &Net, all_keys: bool, unwrap: bool) -> Result<(Message, UnpackMetadata)> {
    let o = UnpackOptions { expect_decrypt_by_all_keys: all_keys, unwrap_re_wrapping_forward: unwrap };
    Message::unpack(s, net, net, &o).await
}

pub fn simple(from: Option<&str>, to: Option<&str>, text: &str) -> Message {
    let mut b = Message::build("id-1".into(), "https://example.org/proto/1.0/msg".into(), json!({"secret": text}));
    if let Some(f) = from {
        b = b.from(f.into());
    }
    if let Some(t) = to {
        b = b.to(t.into());
    }
    b.finalize()
}

/// JSON values that exercise the codec: every JSON type, escapes, unicode planes, numeric edges,
/// members that look like envelope or message members.
pub fn bodies() -> Vec<Value> {
    vec![
        json!({}),
        json!(null),
        json!(true),
        json!(0),
        json!(-1),
        json!(u64::MAX),
        json!(i64::MIN),
        json!(1.5),
        json!(-0.0),
        json!(1e300),
        json!(""),
        json!([]),
        json!([[], {}, [null]]),
        json!("\u{0}\u{1f}\"\\/\u{7f}\u{80}\u{2028}\u{ffff}\u{1F600}"),
        json!({"": "", "a\"b": "\\u0000", "\u{1F600}": ["é", "\u{202e}"]}),
        json!({"protected": "x", "recipients": [], "iv": "", "ciphertext": "", "tag": ""}),
        json!({"payload": "x", "signatures": [{"protected": "", "signature": "", "header": {"kid": ""}}]}),
        json!({"id": "other", "type": "t", "typ": "application/didcomm-plain+json", "body": {}, "from": 1, "to": 2}),
        json!({"next": "did:example:bob"}),
        json!({"n": [0, 1, -1, 255, 256, 65535, 4294967295u64, 4294967296u64, 9007199254740993u64]}),
        (0..100).fold(json!(1), |v, _| json!([v])),
        (0..90).fold(json!("deep"), |v, i| json!({ (format!("k{i}")): v })),
    ]
}

pub fn attachments() -> Vec<Attachment> {
    vec![
        Attachment::json(json!({"a": [1, null, "x"]})).id("a1".into()).finalize(),
        Attachment::base64("SGVsbG8".into()).media_type("text/plain".into()).byte_count(5).finalize(),
        Attachment::links(vec!["http://l1".into(), "".into()], "hash".into()).jws("e.y.J".into()).finalize(),
        Attachment::json(json!(null)).finalize(),
        Attachment::base64("".into())
            .id("".into())
            .description("d\u{1F600}".into())
            .filename("f".into())
            .media_type("m".into())
            .format("fmt".into())
            .lastmod_time(u64::MAX)
            .byte_count(0)
            .jws("j".into())
            .finalize(),
    ]
}

pub const SHAPE_BITS: u32 = 8;
/// Message with the optional members selected by `mask`:
/// 0 from, 1 to, 2 thid, 3 pthid, 4 created_time, 5 expires_time, 6 extra headers, 7 attachments.
pub fn shape(mask: u32, from: &str, to: &[&str], body: Value) -> Message {
    shape_builder(mask, from, to, body).finalize()
}
pub fn shape_builder(mask: u32, from: &str, to: &[&str], body: Value) -> MessageBuilder {
    let mut b = Message::build(format!("m-{mask}"), "https://example.org/p/1.0/t".into(), body);
    let on = |i: u32| mask >> i & 1 == 1;
    if on(0) {
        b = b.from(from.into());
    }
    if on(1) {
        b = b.to_many(to.iter().map(|s| s.to_string()).collect());
    }
    if on(2) {
        b = b.thid("thread-1".into());
    }
    if on(3) {
        b = b.pthid("".into());
    }
    if on(4) {
        b = b.created_time(0);
    }
    if on(5) {
        b = b.expires_time(u64::MAX);
    }
    if on(6) {
        b = b
            .header("x-hdr".into(), json!({"k": [1, "two", null]}))
            .header("lang".into(), json!("en"))
            .header("".into(), json!(null))
            .header("next".into(), json!(0));
    }
    if on(7) {
        b = b.attachments(attachments());
    }
    b
}

/// Edge values of single members: name, the member it sets, and the value.
pub type Edge = (&'static str, &'static str, fn(&mut Message));
pub const EDGES: &[Edge] = &[
    ("id=", "id", |m| m.id = "".into()),
    ("id=uni", "id", |m| m.id = "\u{1F600}\"\\\u{0}".into()),
    ("type=", "type", |m| m.type_ = "".into()),
    ("type=fwdlike", "type", |m| m.type_ = "https://didcomm.org/routing/2.0/forward ".into()),
    ("to=[]", "to", |m| m.to = Some(vec![])),
    ("to=dup", "to", |m| m.to = m.to.take().or(Some(vec!["did:example:z".into()])).map(|t| [t.clone(), t].concat())),
    ("thid=", "thid", |m| m.thid = Some("".into())),
    ("thid=id", "thid", |m| m.thid = Some(m.id.clone())),
    ("pthid=", "pthid", |m| m.pthid = Some("".into())),
    ("created=0", "created", |m| m.created_time = Some(0)),
    ("created=max", "created", |m| m.created_time = Some(u64::MAX)),
    ("expires=0", "expires", |m| m.expires_time = Some(0)),
    ("expires=i64", "expires", |m| m.expires_time = Some(1 << 63)),
    ("hdr=null", "hdr", |m| drop(m.extra_headers.insert("x".into(), json!(null)))),
    ("hdr=empty", "hdr", |m| drop(m.extra_headers.insert("".into(), json!({})))),
    ("hdr=skip", "hdr", |m| m.extra_headers.extend([("please_ack".into(), json!([])), ("extra_headers".into(), json!({"a": 1}))])),
    ("body=null", "body", |m| m.body = json!(null)),
    ("body=[]", "body", |m| m.body = json!([])),
    ("body=''", "body", |m| m.body = json!("")),
    ("att=[]", "att", |m| m.attachments = Some(vec![])),
    ("att=bare", "att", |m| m.attachments = Some(vec![Attachment::json(json!(null)).finalize()])),
    ("att=json-obj", "att", |m| m.attachments = Some(vec![Attachment::json(json!({"base64": "x", "links": [], "hash": ""})).finalize()])),
    ("att=json-jws", "att", |m| m.attachments = Some(vec![Attachment::json(json!([])).jws("".into()).finalize()])),
    ("att=b64", "att", |m| m.attachments = Some(vec![Attachment::base64("".into()).finalize()])),
    ("att=b64-jws", "att", |m| m.attachments = Some(vec![Attachment::base64("=+/".into()).jws("".into()).finalize()])),
    ("att=links[]", "att", |m| m.attachments = Some(vec![Attachment::links(vec![], "".into()).finalize()])),
    ("att=links-jws", "att", |m| m.attachments = Some(vec![Attachment::links(vec!["".into(), "".into()], "h".into()).jws("".into()).finalize()])),
    ("att=id", "att", |m| m.attachments = Some(vec![Attachment::json(json!(0)).id("".into()).finalize(); 2])),
    ("att=description", "att", |m| m.attachments = Some(vec![Attachment::json(json!(0)).description("".into()).finalize()])),
    ("att=filename", "att", |m| m.attachments = Some(vec![Attachment::json(json!(0)).filename("".into()).finalize()])),
    ("att=media", "att", |m| m.attachments = Some(vec![Attachment::json(json!(0)).media_type("".into()).finalize()])),
    ("att=format", "att", |m| m.attachments = Some(vec![Attachment::json(json!(0)).format("".into()).finalize()])),
    ("att=lastmod0", "att", |m| m.attachments = Some(vec![Attachment::json(json!(0)).lastmod_time(0).finalize()])),
    ("att=lastmodmax", "att", |m| m.attachments = Some(vec![Attachment::json(json!(0)).lastmod_time(u64::MAX).finalize()])),
    ("att=count0", "att", |m| m.attachments = Some(vec![Attachment::json(json!(0)).byte_count(0).finalize()])),
    ("att=countmax", "att", |m| m.attachments = Some(vec![Attachment::json(json!(0)).byte_count(u64::MAX).finalize()])),
    ("att=all", "att", |m| m.attachments = Some(attachments())),
    ("from=", "from", |m| m.from = Some("".into())),
    ("from=other", "from", |m| m.from = Some("did:example:someone-else".into())),
];
