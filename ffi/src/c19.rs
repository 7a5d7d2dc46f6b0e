use crate::engine::{Env, Plan, Rec};
use crate::msgs::{simple, ANON};
use crate::ops::*;
use crate::world::*;
use didcomm::did::DIDDoc;
use didcomm::error::ErrorKind;
use didcomm::secrets::Secret;
use didcomm::{FromPrior, Message, PackEncryptedMetadata, PackEncryptedOptions, PackSignedMetadata, UnpackMetadata, UnpackOptions};
use didcomm_uniffi as ffi;
use ffi::{DIDComm, ErrorCode, UniffiCustomTypeConverter};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

/// Set once an operation failed to come back: later cases do not wait for a stuck executor again.
static STUCK: AtomicBool = AtomicBool::new(false);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum When {
    /// answered inside the resolver callback
    Now,
    /// answered from another thread after the operation has gone to sleep
    Later,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum How {
    Honest,
    Err(usize),
    Nothing,
    Liar,
    /// the callback object goes away unanswered
    Dropped,
    /// the same, and the resolver's own return code says so
    DroppedCode,
    /// answers, but returns the error code afterwards is unspecified; a second answer must be refused:
    ThenSuccess,
    ThenError,
    ErrThenSuccess(usize),
    /// the second answer comes when the operation is over
    AgainAtEnd,
    /// found ids in reverse order
    Reversed,
    /// found ids plus ids nobody asked for
    Extra,
    /// found ids twice
    Doubled,
}
impl How {
    /// The native resolver behaviour with the same meaning.
    fn fault(self) -> Option<Fault> {
        match self {
            How::Err(k) | How::ErrThenSuccess(k) => Some(Fault::Err(ErrorKind2(k))),
            How::Nothing => Some(Fault::None),
            How::Liar => Some(Fault::Liar),
            How::Dropped | How::DroppedCode => {
                Some(Fault::Err(ErrorKind2(KINDS.iter().position(|k| *k == ErrorKind::InvalidState).unwrap())))
            }
            _ => None,
        }
    }
    fn applies(self, call: &str) -> bool {
        match self {
            How::Liar => !call.starts_with("resolve"),
            How::Reversed | How::Extra | How::Doubled => call.starts_with("find"),
            _ => true,
        }
    }
}
fn all_hows() -> Vec<How> {
    let mut v = vec![How::Nothing, How::Liar, How::Dropped, How::DroppedCode, How::ThenSuccess, How::ThenError];
    v.extend((0..KINDS.len()).map(How::Err));
    v.extend([How::ErrThenSuccess(0), How::ErrThenSuccess(3), How::AgainAtEnd, How::Reversed, How::Extra, How::Doubled]);
    v
}

enum Cb {
    Did(Arc<ffi::OnDIDResolverResult>, Option<DIDDoc>),
    Get(Arc<ffi::OnGetSecretResult>, Option<Secret>),
    Find(Arc<ffi::OnFindSecretsResult>, Vec<String>),
}
type Ack = Result<(), ErrorKind>;
impl Cb {
    fn honest(&self) -> Ack {
        match self {
            Cb::Did(c, a) => c.success(a.clone()),
            Cb::Get(c, a) => c.success(a.clone()),
            Cb::Find(c, a) => c.success(a.clone()),
        }
    }
    fn nothing(&self) -> Ack {
        match self {
            Cb::Did(c, _) => c.success(None),
            Cb::Get(c, _) => c.success(None),
            Cb::Find(c, _) => c.success(vec![]),
        }
    }
    fn err(&self, k: usize) -> Ack {
        let m = "injected resolver failure".to_string();
        match self {
            Cb::Did(c, _) => c.error(KINDS[k], m),
            Cb::Get(c, _) => c.error(KINDS[k], m),
            Cb::Find(c, _) => c.error(KINDS[k], m),
        }
    }
}

#[derive(Default)]
struct St {
    calls: Vec<String>,
    plan: BTreeMap<usize, (When, How)>,
    default_when: Option<When>,
    pending: Vec<(usize, Cb, How, Vec<String>)>,
    at_end: Vec<Cb>,
    /// answers that were not acknowledged as they must be
    acks: Vec<String>,
}
struct OpSt {
    outs: Vec<Out>,
    gone: bool,
}
struct Ctl {
    st: Mutex<St>,
    ops: Mutex<Vec<OpSt>>,
    cv: Condvar,
    gate: Mutex<u64>,
    net: Net,
}
fn lk<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}
impl Ctl {
    fn bump(&self) {
        *lk(&self.gate) += 1;
        self.cv.notify_all();
    }
    /// Answers one callback as told and notes how the wrapper acknowledged it.
    fn answer(&self, i: usize, cb: Cb, how: How, asked: &[String]) -> ErrorCode {
        let mut acks: Vec<(&str, Ack, bool)> = vec![];
        let again = ErrorKind::InvalidState;
        match how {
            How::Honest => acks.push(("first", cb.honest(), true)),
            How::Nothing => acks.push(("first", cb.nothing(), true)),
            How::Err(k) => acks.push(("first", cb.err(k), true)),
            How::Liar => {
                let r = match &cb {
                    Cb::Find(c, _) => c.success(asked.to_vec()),
                    c => c.nothing(),
                };
                acks.push(("first", r, true))
            }
            How::Dropped => return ErrorCode::Success,
            How::DroppedCode => return ErrorCode::Error,
            How::ThenSuccess => {
                acks.push(("first", cb.honest(), true));
                acks.push(("second", cb.nothing(), false));
                acks.push(("third", cb.honest(), false));
            }
            How::ThenError => {
                acks.push(("first", cb.honest(), true));
                acks.push(("second", cb.err(4), false));
            }
            How::ErrThenSuccess(k) => {
                acks.push(("first", cb.err(k), true));
                acks.push(("second", cb.honest(), false));
            }
            How::AgainAtEnd => acks.push(("first", cb.honest(), true)),
            How::Reversed | How::Extra | How::Doubled => {
                if let Cb::Find(c, a) = &cb {
                    let mut a = a.clone();
                    match how {
                        How::Reversed => a.reverse(),
                        How::Doubled => a.extend(a.clone()),
                        _ => {
                            a.insert(0, "did:example:stranger#key".into());
                            a.extend(a.first().map(|x| format!("{x}x")));
                            a.push(String::new());
                        }
                    }
                    acks.push(("first", c.success(a), true));
                }
            }
        }
        let mut st = lk(&self.st);
        for (n, a, ok) in acks {
            if (ok && a.is_err()) || (!ok && a != Err(again)) {
                st.acks.push(format!("call {i}: the {n} answer of {how:?} was acknowledged with {a:?}"));
            }
        }
        if how == How::AgainAtEnd {
            st.at_end.push(cb);
        }
        ErrorCode::Success
    }
    fn call(&self, what: String, cb: Cb, asked: Vec<String>) -> ErrorCode {
        let (i, when, how) = {
            let mut st = lk(&self.st);
            let i = st.calls.len();
            st.calls.push(what);
            let d = st.default_when.unwrap_or(When::Now);
            let (w, h) = st.plan.get(&i).copied().unwrap_or((d, How::Honest));
            (i, w, h)
        };
        match when {
            When::Now => self.answer(i, cb, how, &asked),
            When::Later => {
                lk(&self.st).pending.push((i, cb, how, asked));
                self.bump();
                ErrorCode::Success
            }
        }
    }
    fn deliver(&self, p: (usize, Cb, How, Vec<String>)) {
        self.answer(p.0, p.1, p.2, &p.3);
    }
}

struct Foreign(Arc<Ctl>);
impl ffi::DIDResolver for Foreign {
    fn resolve(&self, did: String, cb: Arc<ffi::OnDIDResolverResult>) -> ErrorCode {
        let a = self.0.net.docs.get(&did).cloned();
        self.0.call(format!("resolve {did}"), Cb::Did(cb, a), vec![])
    }
}
impl ffi::SecretsResolver for Foreign {
    fn get_secret(&self, id: String, cb: Arc<ffi::OnGetSecretResult>) -> ErrorCode {
        let a = self.0.net.secrets.iter().find(|s| s.id == id).cloned();
        self.0.call(format!("get_secret {id}"), Cb::Get(cb, a), vec![])
    }
    fn find_secrets(&self, ids: Vec<String>, cb: Arc<ffi::OnFindSecretsResult>) -> ErrorCode {
        let a = ids.iter().filter(|i| self.0.net.secrets.iter().any(|s| s.id == **i)).cloned().collect();
        self.0.call(format!("find_secrets {}", ids.join(",")), Cb::Find(cb, a), ids)
    }
}

/// The result callback of operation `n`.
struct Done(Arc<Ctl>, usize);
impl Done {
    fn put(&self, o: Out) {
        lk(&self.0.ops)[self.1].outs.push(o);
        self.0.bump();
    }
}
impl Drop for Done {
    fn drop(&mut self) {
        lk(&self.0.ops)[self.1].gone = true;
        self.0.bump();
    }
}
macro_rules! on_err {
    () => {
        fn error(&self, err: ErrorKind, _msg: String) {
            self.put(Out::Err(err))
        }
    };
}
impl ffi::OnPackPlaintextResult for Done {
    fn success(&self, r: String) {
        self.put(Out::Packed(r, String::new()))
    }
    on_err!();
}
impl ffi::OnPackSignedResult for Done {
    fn success(&self, r: String, m: PackSignedMetadata) {
        self.put(Out::Packed(r, format!("{m:?}")))
    }
    on_err!();
}
impl ffi::OnPackEncryptedResult for Done {
    fn success(&self, r: String, m: PackEncryptedMetadata) {
        self.put(Out::Packed(r, format!("{m:?}")))
    }
    on_err!();
}
impl ffi::OnUnpackResult for Done {
    fn success(&self, r: Message, m: UnpackMetadata) {
        self.put(Out::Unpacked(Box::new(r), format!("{m:?}")))
    }
    on_err!();
}
impl ffi::OnFromPriorPackResult for Done {
    fn success(&self, jwt: String, kid: String) {
        self.put(Out::Packed(jwt, kid))
    }
    on_err!();
}
impl ffi::OnFromPriorUnpackResult for Done {
    fn success(&self, f: FromPrior, kid: String) {
        self.put(Out::Fp(f, kid))
    }
    on_err!();
}
impl ffi::OnWrapInForwardResult for Done {
    fn success(&self, r: String) {
        self.put(Out::Packed(r, String::new()))
    }
    on_err!();
}

/// One DIDComm object with its foreign resolvers and the operations started on it.
struct Session {
    ctl: Arc<Ctl>,
    dc: DIDComm,
}
impl Session {
    fn new(net: Net, when: When, plan: BTreeMap<usize, (When, How)>) -> Session {
        let st = St { plan, default_when: Some(when), ..Default::default() };
        let ctl = Arc::new(Ctl { st: Mutex::new(st), ops: Mutex::new(vec![]), cv: Condvar::new(), gate: Mutex::new(0), net });
        let dc = DIDComm::new(Box::new(Foreign(ctl.clone())), Box::new(Foreign(ctl.clone())));
        Session { ctl, dc }
    }
    fn with(dr: Box<dyn ffi::DIDResolver>, sr: Box<dyn ffi::SecretsResolver>) -> Session {
        let ctl = Arc::new(Ctl {
            st: Default::default(),
            ops: Mutex::new(vec![]),
            cv: Condvar::new(),
            gate: Mutex::new(0),
            net: Net::default(),
        });
        Session { ctl, dc: DIDComm::new(dr, sr) }
    }
    fn start(&self, op: &Op) -> usize {
        let n = {
            let mut o = lk(&self.ctl.ops);
            o.push(OpSt { outs: vec![], gone: false });
            o.len() - 1
        };
        let cb = Done(self.ctl.clone(), n);
        let dc = &self.dc;
        let code = match op.clone() {
            Op::Plain { msg } => dc.pack_plaintext(&msg, Box::new(cb)),
            Op::Signed { msg, by } => dc.pack_signed(&msg, by, Box::new(cb)),
            Op::Enc { msg, to, from, sign, opts } => dc.pack_encrypted(&msg, to, from, sign, &opts, Box::new(cb)),
            Op::Unpack { text, all, unwrap } => dc.unpack(
                text,
                &UnpackOptions { expect_decrypt_by_all_keys: all, unwrap_re_wrapping_forward: unwrap },
                Box::new(cb),
            ),
            Op::FpPack { fp, kid } => dc.pack_from_prior(&fp, kid, Box::new(cb)),
            Op::FpUnpack { jwt } => dc.unpack_from_prior(jwt, Box::new(cb)),
            Op::Wrap { text, headers, to, keys, alg } => {
                dc.wrap_in_forward(text, &headers.unwrap_or_default(), to, &keys, &alg, Box::new(cb))
            }
        };
        if !matches!(code, ErrorCode::Success) {
            lk(&self.ctl.st).acks.push("the operation was refused outright".into());
        }
        n
    }
    /// Waits until `n` has finished or there are at least `pend` unanswered resolver calls.
    fn settle(&self, n: usize, pend: usize) -> Result<bool, String> {
        let limit = if STUCK.load(Ordering::Relaxed) { 300 } else { 20_000 };
        let end = Instant::now() + Duration::from_millis(limit);
        let mut g = lk(&self.ctl.gate);
        loop {
            if lk(&self.ctl.ops)[n].gone {
                return Ok(true);
            }
            if lk(&self.ctl.st).pending.len() >= pend {
                return Ok(false);
            }
            let now = Instant::now();
            if now >= end {
                STUCK.store(true, Ordering::Relaxed);
                return Err("never came back: every resolver call is answered, its result callback is not called".into());
            }
            g = self.ctl.cv.wait_timeout(g, end - now).unwrap_or_else(|e| e.into_inner()).0;
        }
    }
    fn take(&self, k: usize) -> (usize, Cb, How, Vec<String>) {
        lk(&self.ctl.st).pending.remove(k)
    }
    /// Second answers after everything is over, then what was learned.
    fn close(&self) -> Vec<String> {
        let late: Vec<Cb> = std::mem::take(&mut lk(&self.ctl.st).at_end);
        for cb in late {
            for (n, a) in [("late honest", cb.honest()), ("late empty", cb.nothing()), ("late error", cb.err(0))] {
                if a != Err(ErrorKind::InvalidState) {
                    lk(&self.ctl.st).acks.push(format!("a {n} second answer was acknowledged with {a:?}"));
                }
            }
        }
        std::mem::take(&mut lk(&self.ctl.st).acks)
    }
    fn out(&self, n: usize) -> Result<Out, String> {
        let o = lk(&self.ctl.ops);
        match o[n].outs.as_slice() {
            [x] => Ok(x.clone()),
            l => Err(format!("its result callback was called {} times", l.len())),
        }
    }
    fn calls(&self) -> Vec<String> {
        lk(&self.ctl.st).calls.clone()
    }
    /// Runs one operation, answering what is to be answered later.
    fn run(&self, op: &Op) -> Result<Out, String> {
        let n = self.start(op);
        while !self.settle(n, 1)? {
            self.ctl.deliver(self.take(0));
        }
        self.out(n)
    }
}

/// `wrap_in_forward` without headers is only reachable with an empty set of them.
fn as_ffi(op: &Op) -> Op {
    match op.clone() {
        Op::Wrap { text, headers, to, keys, alg } => {
            Op::Wrap { text, headers: Some(headers.unwrap_or_default()), to, keys, alg }
        }
        o => o,
    }
}

fn judge(rec: &mut Rec, world: &[Party], who: usize, op: &Op, when: When, plan: &BTreeMap<usize, (When, How)>, what: &str) -> Vec<String> {
    let mut net = net_of(world, who);
    net.faults = plan.iter().filter_map(|(i, (_, h))| h.fault().map(|f| (*i, f))).collect();
    let native = run(op, &net);
    let want = canon_out(&native, world).unwrap_or_else(|e| format!("unreadable: {e}"));
    rec.begin(what);
    let s = Session::new(net_of(world, who), when, plan.clone());
    let before = op.inputs();
    let got = s.run(op);
    let acks = s.close();
    let calls = s.calls();
    rec.eval(what, true);
    rec.traces += 1;
    rec.transitions += calls.len() as u64 + 1;
    rec.check(acks.is_empty(), what, || acks.join("; "));
    rec.check(op.inputs() == before, what, || "the operation changed its inputs".into());
    match got {
        Err(e) => rec.fail(what, e),
        Ok(o) => {
            rec.outcome(o.label());
            let c = canon_out(&o, world).unwrap_or_else(|e| format!("unreadable: {e}"));
            rec.check(c == want, what, || format!("the callback interface gave {c}\n the native one {want}"));
            let nat = net.calls();
            rec.check(nat == calls, what, || format!("other lookups: {calls:?}\n native {nat:?}"));
        }
    }
    for k in 0..=calls.len() {
        rec.state(&(calls[..k].join("|"), op.inputs(), what.len() > 0 && k == calls.len()));
    }
    calls
}

/// Operations whose every parameter differs from its default.
fn parameter_ops(world: &[Party]) -> Vec<(String, usize, Op)> {
    let (a, b) = (world[ALICE].did.clone(), world[BOB].did.clone());
    let m = simple(Some(&a), Some(&b), "parameters");
    let mut v = vec![];
    for (ai, auth) in [didcomm::algorithms::AuthCryptAlg::A256cbcHs512Ecdh1puA256kw].iter().enumerate() {
        for (ni, anon) in ANON.iter().enumerate() {
            for bits in 0..32u32 {
                let hdr = (bits & 4 != 0).then(|| [("note".to_string(), json!([1])), ("expires".to_string(), json!("x"))].into());
                let op = Op::Enc {
                    msg: m.clone(),
                    to: b.clone(),
                    from: (bits & 16 != 0).then(|| a.clone()),
                    sign: (bits & 8 != 0).then(|| a.clone()),
                    opts: PackEncryptedOptions {
                        protect_sender: bits & 1 != 0,
                        forward: bits & 2 != 0,
                        forward_headers: hdr,
                        messaging_service: (bits & 6 == 2).then(|| format!("{b}#s")),
                        enc_alg_auth: auth.clone(),
                        enc_alg_anon: anon.clone(),
                    },
                };
                v.push((format!("enc-{ai}{ni}-{bits}"), ALICE, op));
            }
        }
    }
    for (ni, anon) in ANON.iter().enumerate() {
        for h in 0..3 {
            let headers = match h {
                0 => Default::default(),
                1 => [("note".to_string(), json!("x"))].into(),
                _ => [("a".to_string(), json!({"b": [null, 1.5]})), ("c".to_string(), Value::Null)].into(),
            };
            for (ki, keys) in [vec![world[M1].did.clone()], vec![world[M1].kid("x2"), world[M2].did.clone()], vec![]].into_iter().enumerate() {
                let op = Op::Wrap {
                    text: "{\"x\":1}".into(),
                    headers: Some(std::collections::HashMap::clone(&headers)),
                    to: b.clone(),
                    keys,
                    alg: anon.clone(),
                };
                v.push((format!("wrap-{ni}{h}{ki}"), ALICE, op));
            }
        }
    }
    // everything the scenarios unpack, under every option
    for s in scenarios(world) {
        if let Op::Unpack { text, .. } = s.op {
            for bits in 0..4u32 {
                for who in [BOB, M1, ALICE] {
                    let op = Op::Unpack { text: text.clone(), all: bits & 1 != 0, unwrap: bits & 2 != 0 };
                    v.push((format!("{}-{bits}-{who}", s.name), who, op));
                }
            }
        }
    }
    for t in ["", "{}", "null", "{\"ciphertext\":1}", "a.b.c"] {
        v.push((format!("unpack-text-{t}"), BOB, Op::unpack(t)));
        v.push((format!("token-text-{t}"), BOB, Op::FpUnpack { jwt: t.into() }));
    }
    v
}

fn small_json(depth: u32) -> Vec<Value> {
    let mut v = vec![
        json!(null), json!(true), json!(false), json!(0), json!(-1), json!(u64::MAX), json!(i64::MIN), json!(1.5), json!(-0.25),
        json!(""), json!("a\u{0}\"\\/\u{7f}é\u{1F600}\u{2028}"),
    ];
    if depth > 0 {
        let sub = small_json(depth - 1);
        v.push(json!([]));
        v.push(json!({}));
        for x in &sub {
            v.push(json!([x]));
            v.push(json!({"": x}));
            v.push(json!({"k\"é": x, "z": [x, x]}));
        }
    }
    v
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C19",
        "model_checking",
        "29 operations x every vector of answer times (inside the callback / later from another thread) x every single \
         deviation of a resolver callback at every call (each error kind, nothing, contradiction, dropped, answered twice in \
         each order, answered again when all is over, found ids reordered, doubled, foreign), all pairs of them when \
         thorough; pairs of operations on one object under every interleaving of answers with at most 3 (5) context \
         switches; more pending operations than threads; every option combination; the bundled foreign resolvers; JSON \
         values: outcome, error kind and lookups equal the native operation's, the result callback is called exactly once \
         and a second answer is refused",
    );
    p.assumptions = vec![
        "the generated foreign-language glue (uniffi scaffolding) is not part of this check".into(),
        "threads interleave at resolver callbacks and their answers; the one-shot cell itself is a mutex-protected take".into(),
    ];
    let world = stage();
    let scen: Vec<Scenario> = scenarios(&world).into_iter().map(|s| Scenario { op: as_ffi(&s.op), ..s }).collect();
    p.bounds = json!({"operations": scen.len(), "deviations per run": if full {2} else {1}, "context switches": if full {5} else {3},
        "pending operations at once": 48});

    // 1. one operation: times, deviations
    for s in &scen {
        let (world, op, who, name) = (world.clone(), s.op.clone(), s.who, s.name);
        p.case(format!("op/{name}"), move |rec| {
            let calls = judge(rec, &world, who, &op, When::Now, &BTreeMap::new(), "now");
            rec.sample(|| json!({"operation": name, "calls": calls}));
            let n = calls.len();
            let free = n.min(if full { 11 } else { 8 });
            for v in 0u32..1 << free {
                let plan = (0..n)
                    .map(|i| (i, (if v >> (i % free.max(1)) & 1 == 1 { When::Later } else { When::Now }, How::Honest)))
                    .collect();
                judge(rec, &world, who, &op, When::Now, &plan, &format!("times-{v:b}"));
            }
            for when in [When::Now, When::Later] {
                let mut stack: Vec<(BTreeMap<usize, (When, How)>, Vec<String>)> = vec![(BTreeMap::new(), calls.clone())];
                while let Some((set, calls)) = stack.pop() {
                    let from = set.keys().next_back().map(|i| i + 1).unwrap_or(0);
                    for i in from..calls.len() {
                        for h in all_hows() {
                            if !h.applies(&calls[i]) {
                                continue;
                            }
                            let mut s2 = set.clone();
                            s2.insert(i, (when, h));
                            let what = s2.iter().map(|(i, (w, h))| format!("{w:?}-{i}-{h:?}")).collect::<Vec<_>>().join("+");
                            let c = judge(rec, &world, who, &op, when, &s2, &what);
                            if full && s2.len() < 2 {
                                stack.push((s2, c));
                            }
                        }
                    }
                }
            }
        });
    }

    // 2. two operations on one object, interleaved answer by answer
    let names = ["pack-signed-did", "pack-auth", "pack-protect-signed-rotated", "unpack-auth", "unpack-rewrapped-did", "token-unpack", "token-pack", "wrap"];
    let sel: Vec<&Scenario> = scen.iter().filter(|s| full || names.contains(&s.name)).collect();
    let bound = if full { 5 } else { 3 };
    for (i, s) in sel.iter().enumerate() {
        for t in &sel[i..] {
            let world = world.clone();
            let ops = [(s.op.clone(), s.who), (t.op.clone(), t.who)];
            let key = format!("pair/{}+{}", s.name, t.name);
            p.case(key, move |rec| {
                // both run with everybody's secrets: one object serves both
                let net = || Net::new(&docs_of(&world), &world.iter().flat_map(|p| p.secrets()).collect::<Vec<_>>());
                let want: Vec<String> = ops
                    .iter()
                    .map(|(o, _)| canon_out(&run(o, &net()), &world).unwrap_or_else(|e| e))
                    .collect();
                // a schedule is the list of decisions taken so far; unexplored continuations are queued
                let mut todo: Vec<Vec<usize>> = vec![vec![]];
                while let Some(pre) = todo.pop() {
                    let what: String = pre.iter().map(|c| if *c == 0 { 'a' } else { 'b' }).collect();
                    rec.begin(&what);
                    let r = (|| -> Result<Vec<usize>, String> {
                        let s = Session::new(net(), When::Later, BTreeMap::new());
                        let mut slot: [Option<(usize, Cb, How, Vec<String>)>; 2] = [None, None];
                        let mut ids = [0, 0];
                        for k in 0..2 {
                            ids[k] = s.start(&ops[k].0);
                            if !s.settle(ids[k], 1)? {
                                slot[k] = Some(s.take(0));
                            }
                        }
                        let mut done: Vec<usize> = vec![];
                        while slot.iter().any(|s| s.is_some()) {
                            let d = done.len();
                            let can = |k: usize| slot[k].is_some();
                            let cur = done.last().copied().unwrap_or(0);
                            let k = if d < pre.len() { pre[d] } else if can(cur) { cur } else { 1 - cur };
                            if d >= pre.len() && can(1 - k) {
                                // a switch here, if the bound allows one more
                                let mut alt = done.clone();
                                alt.push(1 - k);
                                let sw = alt.windows(2).filter(|w| w[0] != w[1]).count();
                                if sw <= bound {
                                    todo.push(alt);
                                }
                            }
                            rec.state(&(done.iter().filter(|x| **x == 0).count(), done.iter().filter(|x| **x == 1).count(), &want));
                            rec.transitions += 1;
                            s.ctl.deliver(slot[k].take().ok_or("schedule not reproducible")?);
                            if !s.settle(ids[k], 1)? {
                                slot[k] = Some(s.take(0));
                            }
                            done.push(k);
                        }
                        for k in 0..2 {
                            s.settle(ids[k], usize::MAX)?;
                            let c = canon_out(&s.out(ids[k])?, &world).unwrap_or_else(|e| e);
                            if c != want[k] {
                                return Err(format!("operation {k} gave {c}\n alone it gives {}", want[k]));
                            }
                        }
                        let acks = s.close();
                        if !acks.is_empty() {
                            return Err(acks.join("; "));
                        }
                        Ok(done)
                    })();
                    rec.eval(&what, true);
                    rec.traces += 1;
                    match r {
                        Ok(done) => rec.outcome(format!("{} switches", done.windows(2).filter(|w| w[0] != w[1]).count())),
                        Err(e) => {
                            rec.fail(&what, e);
                            return;
                        }
                    }
                }
            });
        }
    }

    // 3. more operations asleep than the executor has threads, woken first to last and last to first
    for lifo in [false, true] {
        for s in &scen {
            if !full && !names.contains(&s.name) {
                continue;
            }
            let (world, op, who, name) = (world.clone(), s.op.clone(), s.who, s.name);
            p.case(format!("flood/{name}/{}", if lifo { "lifo" } else { "fifo" }), move |rec| {
                let want = canon_out(&run(&op, &net_of(&world, who)), &world).unwrap_or_else(|e| e);
                let n = 48;
                let s = Session::new(net_of(&world, who), When::Later, BTreeMap::new());
                for _ in 0..n {
                    s.start(&op);
                }
                rec.eval("flood", true);
                let mut left = n;
                let r = (|| -> Result<(), String> {
                    // all are asleep before the first answer
                    s.settle_all(n)?;
                    while left > 0 {
                        let k = lk(&s.ctl.st).pending.len();
                        if k > 0 {
                            s.ctl.deliver(s.take(if lifo { k - 1 } else { 0 }));
                            rec.transitions += 1;
                        } else {
                            s.settle_any(n)?;
                        }
                        left = lk(&s.ctl.ops).iter().filter(|o| !o.gone).count();
                    }
                    for i in 0..n {
                        let c = canon_out(&s.out(i)?, &world).unwrap_or_else(|e| e);
                        if c != want {
                            return Err(format!("one of them gave {c}\n instead of {want}"));
                        }
                    }
                    Ok(())
                })();
                rec.traces += n as u64;
                if let Err(e) = r {
                    rec.fail("flood", e);
                }
            });
        }
    }

    // 4. every parameter reaches the operation
    let ops = parameter_ops(&world);
    for (i, chunk) in ops.chunks(24).enumerate() {
        let (world, chunk) = (world.clone(), chunk.to_vec());
        p.case(format!("parameters/{i}"), move |rec| {
            for (name, who, op) in &chunk {
                judge(rec, &world, *who, op, When::Now, &BTreeMap::new(), name);
            }
        });
    }

    // 5. the bundled foreign resolvers, in every operation
    for s in &scen {
        let (world, op, who) = (world.clone(), s.op.clone(), s.who);
        p.case(format!("bundled/{}", s.name), move |rec| {
            for rev in 0..4 {
                let net = net_of(&world, who);
                let (mut d, mut k) = (docs_of(&world), net.secrets.clone());
                if rev & 1 == 1 {
                    d.reverse();
                }
                if rev & 2 == 2 {
                    k.reverse();
                }
                let want = canon_out(&run(&op, &net), &world).unwrap_or_else(|e| e);
                let s = Session::with(Box::new(ffi::ExampleDIDResolver::new(d)), Box::new(ffi::ExampleSecretsResolver::new(k)));
                rec.eval(&rev, true);
                rec.traces += 1;
                match s.run(&op) {
                    Ok(o) => {
                        let c = canon_out(&o, &world).unwrap_or_else(|e| e);
                        rec.check(c == want, format!("{rev}"), || format!("{c}\n instead of {want}"));
                    }
                    Err(e) => rec.fail(format!("{rev}"), e),
                }
            }
        });
    }

    // 6. JSON values cross the boundary unchanged
    p.case("json", move |rec| {
        for v in small_json(if full { 3 } else { 2 }) {
            let t = <Value as UniffiCustomTypeConverter>::from_custom(v.clone());
            rec.eval(&t, true);
            let back = serde_json::from_str::<Value>(&t).ok();
            rec.check(back.as_ref() == Some(&v), "out", || format!("{v} became {t}"));
            let r = <Value as UniffiCustomTypeConverter>::into_custom(t.clone());
            rec.check(r.as_ref().ok() == Some(&v), "in", || format!("{t} became {r:?}"));
            for cut in 1..t.len() {
                if t.is_char_boundary(cut) && serde_json::from_str::<Value>(&t[..cut]).is_err() {
                    let r = <Value as UniffiCustomTypeConverter>::into_custom(t[..cut].into());
                    rec.eval(&(&t, cut), true);
                    rec.check(r.is_err(), "bad", || format!("{} accepted", &t[..cut]));
                }
            }
        }
    });
    p
}

impl Session {
    /// Waits until there are `n` operations, each finished or asleep.
    fn settle_all(&self, n: usize) -> Result<(), String> {
        self.wait(|s| lk(&s.ctl.ops).iter().filter(|o| o.gone).count() + lk(&s.ctl.st).pending.len() >= n)
    }
    /// Waits until something is to be answered or all is over.
    fn settle_any(&self, n: usize) -> Result<(), String> {
        self.wait(|s| !lk(&s.ctl.st).pending.is_empty() || lk(&s.ctl.ops).iter().filter(|o| o.gone).count() == n)
    }
    fn wait(&self, f: impl Fn(&Session) -> bool) -> Result<(), String> {
        let limit = if STUCK.load(Ordering::Relaxed) { 300 } else { 20_000 };
        let end = Instant::now() + Duration::from_millis(limit);
        let mut g = lk(&self.ctl.gate);
        while !f(self) {
            let now = Instant::now();
            if now >= end {
                STUCK.store(true, Ordering::Relaxed);
                return Err("operations neither ask nor answer any more".into());
            }
            g = self.ctl.cv.wait_timeout(g, end - now).unwrap_or_else(|e| e.into_inner()).0;
        }
        Ok(())
    }
}
