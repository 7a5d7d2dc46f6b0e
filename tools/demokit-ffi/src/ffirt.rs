//! The foreign side: resolvers that answer from a Net, and result callbacks.
#![allow(dead_code)]
use crate::world::*;
use didcomm::{error::ErrorKind, FromPrior, Message, PackEncryptedMetadata, PackSignedMetadata, UnpackMetadata};
use didcomm_uniffi as ffi;
pub use ffi::{DIDComm, ErrorCode};
use std::sync::{mpsc, Arc};
use std::time::Duration;

pub enum Cb {
    Did(Arc<ffi::OnDIDResolverResult>, Option<didcomm::did::DIDDoc>),
    Get(Arc<ffi::OnGetSecretResult>, Option<didcomm::secrets::Secret>),
    Find(Arc<ffi::OnFindSecretsResult>, Vec<String>),
}
impl Cb {
    pub fn honest(&self) {
        let _ = match self {
            Cb::Did(c, a) => c.success(a.clone()),
            Cb::Get(c, a) => c.success(a.clone()),
            Cb::Find(c, a) => c.success(a.clone()),
        };
    }
}
/// What is done with a question: (its text, its callback with the honest answer).
pub type Twist = Arc<dyn Fn(&str, Cb) -> ErrorCode + Send + Sync>;
struct Foreign(Arc<Net>, Twist);
impl ffi::DIDResolver for Foreign {
    fn resolve(&self, did: String, cb: Arc<ffi::OnDIDResolverResult>) -> ErrorCode {
        (self.1)(&format!("resolve {did}"), Cb::Did(cb, self.0.docs.get(&did).cloned()))
    }
}
impl ffi::SecretsResolver for Foreign {
    fn get_secret(&self, id: String, cb: Arc<ffi::OnGetSecretResult>) -> ErrorCode {
        (self.1)(&format!("get_secret {id}"), Cb::Get(cb, self.0.secrets.iter().find(|s| s.id == id).cloned()))
    }
    fn find_secrets(&self, ids: Vec<String>, cb: Arc<ffi::OnFindSecretsResult>) -> ErrorCode {
        let a = ids.iter().filter(|i| self.0.secrets.iter().any(|s| s.id == **i)).cloned().collect();
        (self.1)(&format!("find_secrets {}", ids.join(",")), Cb::Find(cb, a))
    }
}
pub fn didcomm_with(net: Net, twist: Twist) -> DIDComm {
    let net = Arc::new(net);
    DIDComm::new(Box::new(Foreign(net.clone(), twist.clone())), Box::new(Foreign(net, twist)))
}
pub fn didcomm_of(net: Net) -> DIDComm {
    didcomm_with(net, Arc::new(|_, cb| { cb.honest(); ErrorCode::Success }))
}

#[derive(Debug)]
pub enum Out {
    Err(ErrorKind),
    Packed(String, String),
    Unpacked(Box<Message>, String),
    Fp(FromPrior, String),
}
pub struct Done(mpsc::Sender<Out>);
pub struct Outcome(mpsc::Receiver<Out>);
pub fn done() -> (Box<Done>, Outcome) {
    let (s, r) = mpsc::channel();
    (Box::new(Done(s)), Outcome(r))
}
impl Done {
    fn put(&self, o: Out) {
        let _ = self.0.send(o);
    }
}
impl Outcome {
    /// All answers, until the callback is let go of. None: it is kept for ten seconds without an answer.
    pub fn all(&self) -> Option<Vec<Out>> {
        let mut v = vec![];
        loop {
            match self.0.recv_timeout(Duration::from_secs(10)) {
                Ok(o) => v.push(o),
                Err(mpsc::RecvTimeoutError::Disconnected) => return Some(v),
                Err(_) => return None,
            }
        }
    }
    pub fn one(&self) -> Out {
        let mut v = self.all().expect("the operation finishes");
        assert_eq!(v.len(), 1, "one result: {v:?}");
        v.pop().unwrap()
    }
}
macro_rules! on_err {
    () => {
        fn error(&self, err: ErrorKind, _msg: String) {
            self.put(Out::Err(err))
        }
    };
}
impl ffi::OnPackPlaintextResult for Done {
    fn success(&self, r: String) {
        self.put(Out::Packed(r, String::new()))
    }
    on_err!();
}
impl ffi::OnPackSignedResult for Done {
    fn success(&self, r: String, m: PackSignedMetadata) {
        self.put(Out::Packed(r, format!("{m:?}")))
    }
    on_err!();
}
impl ffi::OnPackEncryptedResult for Done {
    fn success(&self, r: String, m: PackEncryptedMetadata) {
        self.put(Out::Packed(r, format!("{m:?}")))
    }
    on_err!();
}
impl ffi::OnUnpackResult for Done {
    fn success(&self, r: Message, m: UnpackMetadata) {
        self.put(Out::Unpacked(Box::new(r), format!("{m:?}")))
    }
    on_err!();
}
impl ffi::OnFromPriorPackResult for Done {
    fn success(&self, jwt: String, kid: String) {
        self.put(Out::Packed(jwt, kid))
    }
    on_err!();
}
impl ffi::OnFromPriorUnpackResult for Done {
    fn success(&self, f: FromPrior, kid: String) {
        self.put(Out::Fp(f, kid))
    }
    on_err!();
}
impl ffi::OnWrapInForwardResult for Done {
    fn success(&self, r: String) {
        self.put(Out::Packed(r, String::new()))
    }
    on_err!();
}

