//! Stand-in for wasm-bindgen: JavaScript values as plain Rust values
use std::any::Any;
use std::fmt;
use std::rc::Rc;

pub use wasm_bindgen_macro::wasm_bindgen;

pub mod prelude {
    pub use crate::{wasm_bindgen, JsValue};
}

#[derive(Clone)]
pub enum JsValue {
    Undefined,
    Bool(bool),
    Text(String),
    Object(Rc<dyn Any>),
}

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            JsValue::Bool(b) => Some(*b),
            _ => None,
        }
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::Text(t) => Some(t.clone()),
            _ => None,
        }
    }
    pub fn object<T: 'static>(x: T) -> Self {
        JsValue::Object(Rc::new(x))
    }
    /// the object, if it is of that type
    pub fn get<T: 'static>(&self) -> Option<&T> {
        match self {
            JsValue::Object(o) => o.downcast_ref(),
            _ => None,
        }
    }
}

impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            JsValue::Undefined => f.write_str("undefined"),
            JsValue::Bool(b) => write!(f, "{}", b),
            JsValue::Text(t) => write!(f, "{:?}", t),
            JsValue::Object(_) => f.write_str("[object]"),
        }
    }
}

impl From<&str> for JsValue {
    fn from(x: &str) -> Self {
        JsValue::Text(x.into())
    }
}
impl From<String> for JsValue {
    fn from(x: String) -> Self {
        JsValue::Text(x)
    }
}
impl From<bool> for JsValue {
    fn from(x: bool) -> Self {
        JsValue::Bool(x)
    }
}

pub trait JsCast: Sized {
    fn into_js(self) -> JsValue;
    fn unchecked_into<T: From<JsValue>>(self) -> T {
        T::from(self.into_js())
    }
}

impl JsCast for JsValue {
    fn into_js(self) -> JsValue {
        self
    }
}
