use js_sys::Promise;
use std::future::{ready, Ready};
use wasm_bindgen::JsValue;

pub struct JsFuture;
impl JsFuture {
    #[allow(clippy::should_implement_trait)]
    pub fn from(p: Promise) -> Ready<Result<JsValue, JsValue>> {
        ready(p.0)
    }
}
