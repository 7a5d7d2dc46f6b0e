//! The JavaScript globals a wrapper uses, over the value model.
use wasm_bindgen::{JsCast, JsValue, Kind};

macro_rules! class {
    ($n:ident, $p:pat) => {
        #[derive(Clone)]
        #[repr(transparent)]
        pub struct $n {
            obj: JsValue,
        }
        impl std::fmt::Debug for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, concat!(stringify!($n), "({:?})"), self.obj)
            }
        }
        impl std::ops::Deref for $n {
            type Target = JsValue;
            fn deref(&self) -> &JsValue {
                &self.obj
            }
        }
        impl AsRef<JsValue> for $n {
            fn as_ref(&self) -> &JsValue {
                &self.obj
            }
        }
        impl From<$n> for JsValue {
            fn from(v: $n) -> JsValue {
                v.obj
            }
        }
        impl From<&$n> for JsValue {
            fn from(v: &$n) -> JsValue {
                v.obj.clone()
            }
        }
        unsafe impl JsCast for $n {
            fn instanceof(v: &JsValue) -> bool {
                matches!(v.0, $p)
            }
        }
    };
}
class!(Array, Kind::Array(_));
class!(Error, Kind::Error(_));
class!(JsString, Kind::Str(_));
class!(Promise, Kind::Promise(_));
class!(
    Object,
    Kind::Object(_) | Kind::Array(_) | Kind::Error(_) | Kind::Promise(_) | Kind::Host(_) | Kind::Wrapped(_)
);

impl Array {
    pub fn new() -> Array {
        Array { obj: JsValue::array(vec![]) }
    }
    pub fn new_with_length(n: u32) -> Array {
        Array { obj: JsValue::array(vec![JsValue::UNDEFINED; n as usize]) }
    }
    pub fn of1(a: &JsValue) -> Array {
        Array { obj: JsValue::array(vec![a.clone()]) }
    }
    pub fn of2(a: &JsValue, b: &JsValue) -> Array {
        Array { obj: JsValue::array(vec![a.clone(), b.clone()]) }
    }
    pub fn is_array(v: &JsValue) -> bool {
        v.is_array()
    }
    pub fn from(v: &JsValue) -> Array {
        match &v.0 {
            Kind::Array(a) => Array { obj: JsValue::array(a.borrow().clone()) },
            _ => Array::new(),
        }
    }
    fn with<R>(&self, f: impl FnOnce(&mut Vec<JsValue>) -> R) -> R {
        match &self.obj.0 {
            Kind::Array(a) => f(&mut a.borrow_mut()),
            _ => unreachable!(),
        }
    }
    pub fn set(&self, i: u32, v: JsValue) {
        self.with(|a| {
            if a.len() <= i as usize {
                a.resize(i as usize + 1, JsValue::UNDEFINED);
            }
            a[i as usize] = v;
        })
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.with(|a| a.get(i as usize).cloned().unwrap_or(JsValue::UNDEFINED))
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        self.with(|a| {
            a.push(v.clone());
            a.len() as u32
        })
    }
    pub fn length(&self) -> u32 {
        self.with(|a| a.len() as u32)
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.with(|a| a.clone())
    }
    pub fn for_each(&self, f: &mut dyn FnMut(JsValue, u32, Array)) {
        for (i, v) in self.to_vec().into_iter().enumerate() {
            f(v, i as u32, self.clone());
        }
    }
    pub fn map(&self, f: &mut dyn FnMut(JsValue, u32, Array) -> JsValue) -> Array {
        let v = self.to_vec().into_iter().enumerate().map(|(i, v)| f(v, i as u32, self.clone())).collect();
        Array { obj: JsValue::array(v) }
    }
    pub fn filter(&self, f: &mut dyn FnMut(JsValue, u32, Array) -> bool) -> Array {
        let v = self.to_vec().into_iter().enumerate().filter(|(i, v)| f(v.clone(), *i as u32, self.clone())).map(|x| x.1);
        Array { obj: JsValue::array(v.collect()) }
    }
    pub fn some(&self, f: &mut dyn FnMut(JsValue) -> bool) -> bool {
        self.to_vec().into_iter().any(f)
    }
    pub fn every(&self, f: &mut dyn FnMut(JsValue, u32, Array) -> bool) -> bool {
        self.to_vec().into_iter().enumerate().all(|(i, v)| f(v, i as u32, self.clone()))
    }
    pub fn find(&self, f: &mut dyn FnMut(JsValue, u32, Array) -> bool) -> JsValue {
        let l = self.to_vec();
        l.iter().enumerate().find(|(i, v)| f((*v).clone(), *i as u32, self.clone())).map_or(JsValue::UNDEFINED, |x| x.1.clone())
    }
    pub fn index_of(&self, v: &JsValue, from: i32) -> i32 {
        let l = self.to_vec();
        let from = if from < 0 { (l.len() as i32 + from).max(0) } else { from } as usize;
        l.iter().enumerate().skip(from).find(|(_, x)| *x == v).map_or(-1, |x| x.0 as i32)
    }
    pub fn includes(&self, v: &JsValue, from: i32) -> bool {
        self.index_of(v, from) >= 0
    }
    pub fn pop(&self) -> JsValue {
        self.with(|a| a.pop()).unwrap_or(JsValue::UNDEFINED)
    }
    pub fn concat(&self, other: &Array) -> Array {
        let mut v = self.to_vec();
        v.extend(other.to_vec());
        Array { obj: JsValue::array(v) }
    }
    pub fn slice(&self, from: u32, to: u32) -> Array {
        let v = self.to_vec();
        let to = (to as usize).min(v.len());
        Array { obj: JsValue::array(v.get(from as usize..to).unwrap_or(&[]).to_vec()) }
    }
    pub fn at(&self, i: i32) -> JsValue {
        let n = self.length() as i32;
        let i = if i < 0 { n + i } else { i };
        if i < 0 { JsValue::UNDEFINED } else { self.get(i as u32) }
    }
    pub fn reverse(&self) -> Array {
        self.with(|a| a.reverse());
        self.clone()
    }
}
impl Default for Array {
    fn default() -> Self {
        Array::new()
    }
}
impl<A: AsRef<JsValue>> std::iter::FromIterator<A> for Array {
    fn from_iter<T: IntoIterator<Item = A>>(it: T) -> Array {
        Array { obj: JsValue::array(it.into_iter().map(|v| v.as_ref().clone()).collect()) }
    }
}
impl<A: AsRef<JsValue>> std::iter::Extend<A> for Array {
    fn extend<T: IntoIterator<Item = A>>(&mut self, it: T) {
        for v in it {
            self.push(v.as_ref());
        }
    }
}

impl Error {
    pub fn new(m: &str) -> Error {
        Error { obj: JsValue::error("Error", m) }
    }
    fn part(&self, name: bool) -> JsValue {
        match &self.obj.0 {
            Kind::Error(e) => {
                let e = e.borrow();
                if name { e.0.clone() } else { e.1.clone() }
            }
            _ => unreachable!(),
        }
    }
    fn put(&self, name: bool, s: &str) {
        if let Kind::Error(e) = &self.obj.0 {
            let mut e = e.borrow_mut();
            *(if name { &mut e.0 } else { &mut e.1 }) = s.into();
        }
    }
    pub fn name(&self) -> JsString {
        JsString { obj: self.part(true) }
    }
    pub fn set_name(&self, s: &str) {
        self.put(true, s)
    }
    pub fn message(&self) -> JsString {
        JsString { obj: self.part(false) }
    }
    pub fn set_message(&self, s: &str) {
        self.put(false, s)
    }
    pub fn to_string(&self) -> JsString {
        let s = |v: JsValue| v.as_string().unwrap_or_default();
        JsString { obj: JsValue::from(format!("{}: {}", s(self.part(true)), s(self.part(false)))) }
    }
}

impl From<&str> for JsString {
    fn from(s: &str) -> Self {
        JsString { obj: s.into() }
    }
}
impl From<String> for JsString {
    fn from(s: String) -> Self {
        JsString { obj: s.into() }
    }
}
impl From<&JsString> for String {
    fn from(s: &JsString) -> String {
        s.as_string().unwrap_or_default()
    }
}
impl From<JsString> for String {
    fn from(s: JsString) -> String {
        s.as_string().unwrap_or_default()
    }
}
impl std::fmt::Display for JsString {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.as_string().unwrap_or_default())
    }
}
impl PartialEq<str> for JsString {
    fn eq(&self, o: &str) -> bool {
        self.as_string().as_deref() == Some(o)
    }
}
impl PartialEq<&str> for JsString {
    fn eq(&self, o: &&str) -> bool {
        self.as_string().as_deref() == Some(*o)
    }
}

impl Promise {
    /// A promise of a future result (used by `future_to_promise`).
    pub fn pending() -> Promise {
        Promise { obj: JsValue::promise() }
    }
    pub fn resolve(v: &JsValue) -> Promise {
        if let Kind::Promise(_) = v.0 {
            return Promise { obj: v.clone() };
        }
        let p = Promise::pending();
        p.obj.settle(Ok(v.clone()));
        p
    }
    pub fn reject(v: &JsValue) -> Promise {
        let p = Promise::pending();
        p.obj.settle(Err(v.clone()));
        p
    }
}
