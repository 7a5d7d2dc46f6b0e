use js_sys::Promise;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use wasm_bindgen::JsValue;

pub fn spawn_local(f: impl Future<Output = ()> + 'static) {
    wasm_bindgen::spawn(f)
}
pub fn future_to_promise(f: impl Future<Output = Result<JsValue, JsValue>> + 'static) -> Promise {
    let p = Promise::pending();
    let v: JsValue = p.clone().into();
    wasm_bindgen::spawn(async move { v.settle(f.await) });
    p
}
pub struct JsFuture(Pin<Box<dyn Future<Output = Result<JsValue, JsValue>>>>);
impl From<Promise> for JsFuture {
    fn from(p: Promise) -> Self {
        JsFuture(Box::pin(wasm_bindgen::settle(p.into())))
    }
}
impl Future for JsFuture {
    type Output = Result<JsValue, JsValue>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
        self.0.as_mut().poll(cx)
    }
}
