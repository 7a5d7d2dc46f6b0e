//! JavaScript values, promises and the job queue, as far as the wrapper can see them. Single-threaded.
use serde_json::Value;
use std::any::Any;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub use wasm_bindgen_macro::wasm_bindgen;

pub mod prelude {
    pub use crate::{wasm_bindgen, JsCast, JsError, JsValue, UnwrapThrowExt};
}

static TYPESCRIPT: std::sync::Mutex<Vec<&'static str>> = std::sync::Mutex::new(Vec::new());
pub fn publish_typescript(s: &'static str) {
    TYPESCRIPT.lock().unwrap().push(s)
}
/// The TypeScript declarations of everything linked in.
pub fn typescript() -> Vec<&'static str> {
    TYPESCRIPT.lock().unwrap().clone()
}

/// An object of the embedder: the resolvers of a test.
pub trait Host {
    /// The method's immediate result: a value (possibly a promise), or what it threw.
    fn invoke(&self, method: &str, args: &[JsValue]) -> Result<JsValue, JsValue>;
}

type Slot<T> = Rc<RefCell<T>>;

#[derive(Clone)]
pub enum Kind {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(Rc<str>),
    Array(Slot<Vec<JsValue>>),
    Object(Slot<Vec<(String, JsValue)>>),
    /// name, message
    Error(Slot<(JsValue, JsValue)>),
    Promise(Slot<PromiseState>),
    Host(Rc<dyn Host>),
    Wrapped(Rc<dyn Any>),
}

#[derive(Clone)]
pub struct JsValue(pub Kind);

#[derive(Default)]
pub struct PromiseState {
    pub result: Option<Result<JsValue, JsValue>>,
    wakers: Vec<Waker>,
}

impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match &self.0 {
            Kind::Error(e) => write!(f, "JsValue({:?}: {:?})", e.borrow().0, e.borrow().1),
            _ => write!(f, "JsValue({})", self.stringify().unwrap_or_else(|| "undefined".into())),
        }
    }
}

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue(Kind::Undefined);
    pub const NULL: JsValue = JsValue(Kind::Null);
    pub const TRUE: JsValue = JsValue(Kind::Bool(true));
    pub const FALSE: JsValue = JsValue(Kind::Bool(false));

    pub fn undefined() -> JsValue {
        Self::UNDEFINED
    }
    pub fn null() -> JsValue {
        Self::NULL
    }
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        JsValue(Kind::Str(s.into()))
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue(Kind::Num(n))
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue(Kind::Bool(b))
    }
    pub fn wrap<T: 'static>(v: T) -> JsValue {
        JsValue(Kind::Wrapped(Rc::new(v)))
    }
    pub fn host(h: impl Host + 'static) -> JsValue {
        JsValue(Kind::Host(Rc::new(h)))
    }
    pub fn object(members: Vec<(String, JsValue)>) -> JsValue {
        JsValue(Kind::Object(Rc::new(RefCell::new(members))))
    }
    pub fn array(items: Vec<JsValue>) -> JsValue {
        JsValue(Kind::Array(Rc::new(RefCell::new(items))))
    }
    pub fn error(name: &str, message: &str) -> JsValue {
        JsValue(Kind::Error(Rc::new(RefCell::new((name.into(), message.into())))))
    }
    pub fn promise() -> JsValue {
        JsValue(Kind::Promise(Default::default()))
    }
    /// The exported struct behind a value.
    pub fn wrapped<T: 'static>(&self) -> Option<&T> {
        match &self.0 {
            Kind::Wrapped(r) => r.downcast_ref(),
            _ => None,
        }
    }

    pub fn is_undefined(&self) -> bool {
        matches!(self.0, Kind::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self.0, Kind::Null)
    }
    pub fn is_string(&self) -> bool {
        matches!(self.0, Kind::Str(_))
    }
    pub fn is_object(&self) -> bool {
        !matches!(self.0, Kind::Undefined | Kind::Null | Kind::Bool(_) | Kind::Num(_) | Kind::Str(_))
    }
    pub fn is_array(&self) -> bool {
        matches!(self.0, Kind::Array(_))
    }
    pub fn is_truthy(&self) -> bool {
        match &self.0 {
            Kind::Undefined | Kind::Null => false,
            Kind::Bool(b) => *b,
            Kind::Num(n) => *n != 0.0 && !n.is_nan(),
            Kind::Str(s) => !s.is_empty(),
            _ => true,
        }
    }
    pub fn is_falsy(&self) -> bool {
        !self.is_truthy()
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.0 {
            Kind::Str(s) => Some(s.to_string()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match &self.0 {
            Kind::Num(n) => Some(*n),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match &self.0 {
            Kind::Bool(b) => Some(*b),
            _ => None,
        }
    }

    /// `JSON.stringify`
    pub fn stringify(&self) -> Option<String> {
        fn go(v: &JsValue, out: &mut String) -> bool {
            match &v.0 {
                Kind::Undefined => return false,
                Kind::Null => out.push_str("null"),
                Kind::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
                Kind::Num(n) if !n.is_finite() => out.push_str("null"),
                Kind::Num(n) if n.fract() == 0.0 && n.abs() < 1e21 => out.push_str(&format!("{}", *n as i128)),
                Kind::Num(n) => out.push_str(&serde_json::to_string(n).unwrap()),
                Kind::Str(s) => out.push_str(&serde_json::to_string(&**s).unwrap()),
                Kind::Array(a) => {
                    out.push('[');
                    for (i, x) in a.borrow().iter().enumerate() {
                        if i > 0 {
                            out.push(',');
                        }
                        if !go(x, out) {
                            out.push_str("null");
                        }
                    }
                    out.push(']');
                }
                Kind::Object(o) => {
                    out.push('{');
                    let mut first = true;
                    for (k, x) in o.borrow().iter() {
                        let mut t = String::new();
                        if go(x, &mut t) {
                            if !first {
                                out.push(',');
                            }
                            first = false;
                            out.push_str(&serde_json::to_string(k).unwrap());
                            out.push(':');
                            out.push_str(&t);
                        }
                    }
                    out.push('}');
                }
                Kind::Wrapped(_) => out.push_str("{\"__wbg_ptr\":1048576}"),
                // own enumerable members: none
                Kind::Error(_) | Kind::Promise(_) | Kind::Host(_) => out.push_str("{}"),
            }
            true
        }
        let mut s = String::new();
        go(self, &mut s).then_some(s)
    }
    /// `JSON.parse`: every number becomes a double, a repeated member keeps its last value.
    pub fn of_json(v: &Value) -> JsValue {
        match v {
            Value::Null => JsValue::NULL,
            Value::Bool(b) => JsValue::from_bool(*b),
            Value::Number(n) => JsValue::from_f64(n.as_f64().unwrap_or(f64::NAN)),
            Value::String(s) => JsValue::from_str(s),
            Value::Array(a) => JsValue::array(a.iter().map(JsValue::of_json).collect()),
            Value::Object(o) => JsValue::object(o.iter().map(|(k, v)| (k.clone(), JsValue::of_json(v))).collect()),
        }
    }
    pub fn into_serde<T: for<'a> serde::de::Deserialize<'a>>(&self) -> serde_json::Result<T> {
        serde_json::from_str(self.stringify().as_deref().unwrap_or("null"))
    }
    pub fn from_serde<T: serde::ser::Serialize + ?Sized>(t: &T) -> serde_json::Result<JsValue> {
        let s = serde_json::to_string(t)?;
        Ok(JsValue::of_json(&serde_json::from_str(&s)?))
    }

    /// Calls a method of an object.
    pub fn invoke(&self, method: &str, args: Vec<JsValue>) -> Result<JsValue, JsValue> {
        match &self.0 {
            Kind::Host(h) => h.invoke(method, &args),
            _ => Err(JsValue::error("TypeError", &format!("{method} is not a function"))),
        }
    }
    /// The current result of a promise.
    pub fn result(&self) -> Option<Result<JsValue, JsValue>> {
        match &self.0 {
            Kind::Promise(p) => p.borrow().result.clone(),
            _ => None,
        }
    }
    /// Settles a promise; a promise settles once.
    pub fn settle(&self, r: Result<JsValue, JsValue>) {
        if let Kind::Promise(p) = &self.0 {
            let w = {
                let mut p = p.borrow_mut();
                if p.result.is_some() {
                    return;
                }
                p.result = Some(r);
                std::mem::take(&mut p.wakers)
            };
            w.into_iter().for_each(Waker::wake);
        }
    }
}

impl Default for JsValue {
    fn default() -> Self {
        JsValue::UNDEFINED
    }
}
impl PartialEq for JsValue {
    fn eq(&self, o: &JsValue) -> bool {
        match (&self.0, &o.0) {
            (Kind::Undefined, Kind::Undefined) | (Kind::Null, Kind::Null) => true,
            (Kind::Bool(a), Kind::Bool(b)) => a == b,
            (Kind::Num(a), Kind::Num(b)) => a == b,
            (Kind::Str(a), Kind::Str(b)) => a == b,
            (Kind::Array(a), Kind::Array(b)) => Rc::ptr_eq(a, b),
            (Kind::Object(a), Kind::Object(b)) => Rc::ptr_eq(a, b),
            (Kind::Error(a), Kind::Error(b)) => Rc::ptr_eq(a, b),
            (Kind::Promise(a), Kind::Promise(b)) => Rc::ptr_eq(a, b),
            _ => false,
        }
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue::from_str(&s)
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> Self {
        JsValue::from_str(s)
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> Self {
        JsValue::from_bool(b)
    }
}
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(v: Option<T>) -> Self {
        v.map(Into::into).unwrap_or(JsValue::UNDEFINED)
    }
}
impl<T: Into<JsValue>> From<Vec<T>> for JsValue {
    fn from(v: Vec<T>) -> Self {
        JsValue::array(v.into_iter().map(Into::into).collect())
    }
}
impl From<&JsValue> for JsValue {
    fn from(v: &JsValue) -> Self {
        v.clone()
    }
}
macro_rules! nums {
    ($($t:ty),*) => { $(impl From<$t> for JsValue { fn from(n: $t) -> Self { JsValue::from_f64(n as f64) } })* };
}
nums!(u8, i8, u16, i16, u32, i32, f32, f64, usize, isize);

impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

/// # Safety
/// The implementing type is a transparent handle on a `JsValue`.
pub unsafe trait JsCast: AsRef<JsValue> + Into<JsValue> {
    fn instanceof(v: &JsValue) -> bool;
    fn has_type<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self>
    where
        Self: Sized,
    {
        if T::instanceof(self.as_ref()) {
            Ok(self.unchecked_into())
        } else {
            Err(self)
        }
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        T::instanceof(self.as_ref()).then(|| self.unchecked_ref())
    }
    fn unchecked_into<T: JsCast>(self) -> T
    where
        Self: Sized,
    {
        let v: JsValue = self.into();
        let r: &T = v.unchecked_ref();
        // a handle is cloned by cloning the value behind it
        let out = std::mem::ManuallyDrop::new(v.clone());
        let _ = r;
        unsafe { std::mem::transmute_copy::<JsValue, T>(&out) }
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        assert_eq!(std::mem::size_of::<T>(), std::mem::size_of::<JsValue>());
        unsafe { &*(self.as_ref() as *const JsValue as *const T) }
    }
}
unsafe impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
}

/// `wasm_bindgen::JsError`: a message that becomes an `Error`.
pub struct JsError(JsValue);
impl JsError {
    pub fn new(m: &str) -> JsError {
        JsError(JsValue::error("Error", m))
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> Self {
        JsError::new(&e.to_string())
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> Self {
        e.0
    }
}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, m: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}

/// Awaits `Promise.resolve(v)`: even a value that is there takes a turn of the job queue.
pub fn settle(v: JsValue) -> impl Future<Output = Result<JsValue, JsValue>> {
    Settle { v, turned: false }
}
struct Settle {
    v: JsValue,
    turned: bool,
}
impl Future for Settle {
    type Output = Result<JsValue, JsValue>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
        if let Kind::Promise(p) = &self.v.0 {
            let r = p.borrow().result.clone();
            match r {
                None => {
                    p.borrow_mut().wakers.push(cx.waker().clone());
                    drop(r);
                    self.turned = true;
                    return Poll::Pending;
                }
                Some(r) if self.turned => return Poll::Ready(r),
                Some(_) => {}
            }
        } else if self.turned {
            return Poll::Ready(Ok(self.v.clone()));
        }
        self.turned = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

/// The job queue.
struct Task {
    fut: RefCell<Option<Pin<Box<dyn Future<Output = ()>>>>>,
    flag: Arc<Flag>,
}
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}
thread_local! {
    static TASKS: RefCell<VecDeque<Rc<Task>>> = Default::default();
}
pub fn spawn(f: impl Future<Output = ()> + 'static) {
    let t = Task { fut: RefCell::new(Some(Box::pin(f))), flag: Arc::new(Flag(AtomicBool::new(true))) };
    TASKS.with(|q| q.borrow_mut().push_back(Rc::new(t)));
}
/// How many tasks could run now.
pub fn ready() -> usize {
    TASKS.with(|q| q.borrow().iter().filter(|t| t.flag.0.load(Ordering::SeqCst)).count())
}
/// How many tasks have not finished.
pub fn alive() -> usize {
    TASKS.with(|q| q.borrow().len())
}
/// Runs the `k`th task that can run for one turn.
pub fn turn(k: usize) -> bool {
    let t = TASKS.with(|q| q.borrow().iter().filter(|t| t.flag.0.load(Ordering::SeqCst)).nth(k).cloned());
    let Some(t) = t else { return false };
    t.flag.0.store(false, Ordering::SeqCst);
    let w: Waker = t.flag.clone().into();
    let done = {
        let mut f = t.fut.borrow_mut();
        match f.as_mut().map(|f| f.as_mut().poll(&mut Context::from_waker(&w))) {
            Some(Poll::Ready(())) => {
                *f = None;
                true
            }
            None => true,
            _ => false,
        }
    };
    if done {
        TASKS.with(|q| q.borrow_mut().retain(|x| !Rc::ptr_eq(x, &t)));
    }
    true
}
/// Runs until nothing can run any more.
pub fn drain() {
    while turn(0) {}
}
/// Forgets what has not finished.
pub fn clear() {
    let old = TASKS.with(|q| std::mem::take(&mut *q.borrow_mut()));
    drop(old);
}
