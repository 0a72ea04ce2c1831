//! Stand-in for js-sys: promises that are always settled, byte buffers
use std::rc::Rc;
use wasm_bindgen::JsValue;

#[derive(Debug, Clone)]
pub struct Promise(pub Result<JsValue, JsValue>);

impl Promise {
    pub fn of(x: JsValue) -> Self {
        Promise(Ok(x))
    }
}

pub struct JSON;
impl JSON {
    pub fn stringify(x: &JsValue) -> Result<String, JsValue> {
        Ok(format!("{:?}", x))
    }
    pub fn parse(x: &str) -> Result<JsValue, JsValue> {
        Ok(x.into())
    }
}

pub struct Date;
impl Date {
    pub fn now() -> f64 {
        std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs_f64() * 1000.0
    }
}

pub fn global() -> JsValue {
    JsValue::Undefined
}

#[derive(Debug, Clone)]
pub struct Array(Rc<Vec<JsValue>>);
impl Array {
    pub fn of_vec(x: Vec<JsValue>) -> JsValue {
        JsValue::object(Array(Rc::new(x)))
    }
    pub fn from(x: &JsValue) -> Array {
        x.get::<Array>().cloned().expect("not an array")
    }
    pub fn iter(&self) -> impl Iterator<Item = JsValue> + '_ {
        self.0.iter().cloned()
    }
    pub fn length(&self) -> u32 {
        self.0.len() as u32
    }
}

#[derive(Debug, Clone)]
pub struct ArrayBuffer(pub Rc<Vec<u8>>);
impl From<JsValue> for ArrayBuffer {
    fn from(x: JsValue) -> Self {
        x.get::<ArrayBuffer>().cloned().expect("not an ArrayBuffer")
    }
}
impl ArrayBuffer {
    pub fn slice_with_end(&self, a: u32, b: u32) -> ArrayBuffer {
        let b = (b as usize).min(self.0.len());
        let a = (a as usize).min(b);
        ArrayBuffer(Rc::new(self.0[a..b].to_vec()))
    }
    pub fn byte_length(&self) -> u32 {
        self.0.len() as u32
    }
}

#[derive(Debug, Clone)]
pub struct Uint8Array(Rc<Vec<u8>>);
impl Uint8Array {
    pub fn new(x: &ArrayBuffer) -> Self {
        Uint8Array(x.0.clone())
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.0.to_vec()
    }
    pub fn length(&self) -> u32 {
        self.0.len() as u32
    }
    /// panics when the lengths differ, like the original
    pub fn copy_to(&self, dst: &mut [u8]) {
        assert_eq!(self.0.len(), dst.len(), "Uint8Array::copy_to: lengths differ");
        dst.copy_from_slice(&self.0);
    }
}
