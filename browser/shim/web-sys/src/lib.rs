//! Stand-in for the part of web-sys that the browser crate uses: the Cache API, kept in memory.
//!
//! What is stored belongs to an origin, which outlives the threads (workers) that use it. Every request is
//! recorded, and can be made to fail.
use js_sys::{Array, ArrayBuffer, Promise};
use std::cell::RefCell;
use std::sync::{Arc, Mutex};
use wasm_bindgen::JsValue;

const ORIGIN: &str = "https://example.org";

/// entries in order of insertion: (path and query, body)
type Entries = Arc<Mutex<Vec<(String, Arc<Vec<u8>>)>>>;

/// everything that is stored
pub type Image = Vec<(String, Vec<(String, Arc<Vec<u8>>)>)>;

#[derive(Default, Debug)]
pub struct State {
    /// a deleted cache that is still in use lives on without a name
    pub caches: Vec<(String, Entries)>,
    pub requests: u64,
    pub puts: u64,
    pub deletes: u64,
    pub bytes_put: u64,
    /// fail requests from this number on, for so many requests
    pub fail_at: Option<(u64, u64)>,
    pub failed: u64,
    /// when set: what was stored after every request that changed something
    pub record: Option<Vec<Image>>,
}

#[derive(Clone, Default, Debug)]
pub struct Origin(pub Arc<Mutex<State>>);

thread_local! {
    static CURRENT: RefCell<Option<Origin>> = RefCell::new(None);
}

impl State {
    pub fn image(&self) -> Image {
        self.caches.iter().map(|(n, e)| (n.clone(), e.lock().unwrap().clone())).collect()
    }
}

impl Origin {
    /// a copy of everything that is stored, as a crash at this moment would leave it
    pub fn image(&self) -> Image {
        self.0.lock().unwrap().image()
    }
    pub fn of_image(x: Image) -> Origin {
        let caches = x.into_iter().map(|(n, e)| (n, Arc::new(Mutex::new(e)))).collect();
        Origin(Arc::new(Mutex::new(State { caches, ..Default::default() })))
    }
}

/// what the current thread sees as its origin
pub fn enter(o: &Origin) {
    CURRENT.with(|c| *c.borrow_mut() = Some(o.clone()));
}

fn current() -> Origin {
    CURRENT.with(|c| c.borrow().clone()).expect("no origin in this thread")
}

impl Origin {
    fn request<T>(&self, f: impl FnOnce(&mut State) -> T) -> Result<T, JsValue> {
        let mut s = self.0.lock().unwrap();
        let n = s.requests;
        s.requests += 1;
        if let Some((from, count)) = s.fail_at {
            if n >= from && n - from < count {
                s.failed += 1;
                return Err("QuotaExceededError".into());
            }
        }
        let r = f(&mut s);
        if s.record.is_some() {
            let i = s.image();
            let l = s.record.as_mut().unwrap();
            if l.last() != Some(&i) {
                l.push(i);
            }
        }
        Ok(r)
    }
}

fn promise(r: Result<JsValue, JsValue>) -> Promise {
    Promise(r)
}

#[derive(Debug, Clone)]
pub struct DedicatedWorkerGlobalScope;
impl From<JsValue> for DedicatedWorkerGlobalScope {
    fn from(_: JsValue) -> Self {
        DedicatedWorkerGlobalScope
    }
}
impl DedicatedWorkerGlobalScope {
    pub fn caches(&self) -> Result<CacheStorage, JsValue> {
        Ok(CacheStorage(current()))
    }
    pub fn location(&self) -> WorkerLocation {
        WorkerLocation
    }
}

pub struct WorkerLocation;
impl WorkerLocation {
    pub fn origin(&self) -> String {
        ORIGIN.into()
    }
}

#[derive(Debug, Clone)]
pub struct CacheStorage(Origin);
impl CacheStorage {
    pub fn open(&self, name: &str) -> Promise {
        promise(self.0.request(|s| {
            if !s.caches.iter().any(|c| c.0 == name) {
                s.caches.push((name.to_string(), Entries::default()));
            }
            let entries = s.caches.iter().find(|c| c.0 == name).unwrap().1.clone();
            JsValue::object(Cache { origin: self.0.clone(), entries })
        }))
    }
    pub fn delete(&self, name: &str) -> Promise {
        promise(self.0.request(|s| {
            let n = s.caches.len();
            s.caches.retain(|c| c.0 != name);
            JsValue::Bool(s.caches.len() != n)
        }))
    }
    pub fn has(&self, name: &str) -> Promise {
        promise(self.0.request(|s| JsValue::Bool(s.caches.iter().any(|c| c.0 == name))))
    }
}

#[derive(Debug, Clone)]
pub struct Cache {
    origin: Origin,
    entries: Entries,
}
impl From<JsValue> for Cache {
    fn from(x: JsValue) -> Self {
        x.get::<Cache>().cloned().expect("not a Cache")
    }
}

#[derive(Debug, Clone, Default)]
pub struct CacheQueryOptions {
    search: bool,
}
impl CacheQueryOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn ignore_method(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn ignore_search(&mut self, x: bool) -> &mut Self {
        self.search = x;
        self
    }
    pub fn set_ignore_method(&self, _: bool) {}
}

fn path(x: &str) -> &str {
    x.split('?').next().unwrap()
}

/// the key of a request: its URL is resolved against the origin, as a browser does it, and has no fragment
fn key(r: &str) -> String {
    let plain = r.starts_with('/') && !r.starts_with("//") && !r.contains("/.") && r.bytes().all(|b| b.is_ascii_alphanumeric() || b"/-_.?".contains(&b));
    if plain {
        return r.to_string();
    }
    let mut url = url::Url::parse(ORIGIN).unwrap().join(r).expect("TypeError: not a URL");
    url.set_fragment(None);
    match url.as_str().strip_prefix(ORIGIN) {
        Some(x) if x.starts_with('/') => x.to_string(),
        _ => url.into(),
    }
}

fn url_of(key: &str) -> String {
    if key.starts_with('/') {
        format!("{}{}", ORIGIN, key)
    } else {
        key.to_string()
    }
}

impl Cache {
    pub fn keys(&self) -> Promise {
        promise(self.origin.request(|_| {
            Array::of_vec(self.entries.lock().unwrap().iter().map(|e| JsValue::object(Request { url: url_of(&e.0) })).collect())
        }))
    }
    pub fn match_with_str(&self, r: &str) -> Promise {
        let r = key(r);
        promise(self.origin.request(|_| match self.entries.lock().unwrap().iter().find(|e| e.0 == r) {
            Some(e) => JsValue::object(Response { body: Some(e.1.clone()) }),
            None => JsValue::Undefined,
        }))
    }
    pub fn delete_with_str(&self, r: &str) -> Promise {
        let r = key(r);
        promise(self.origin.request(|s| {
            let mut e = self.entries.lock().unwrap();
            let n = e.len();
            e.retain(|e| e.0 != r);
            let d = e.len() != n;
            s.deletes += d as u64;
            JsValue::Bool(d)
        }))
    }
    pub fn delete_with_str_and_options(&self, r: &str, o: &CacheQueryOptions) -> Promise {
        let r = key(r);
        promise(self.origin.request(|s| {
            let mut e = self.entries.lock().unwrap();
            let n = e.len();
            e.retain(|e| if o.search { path(&e.0) != path(&r) } else { e.0 != r });
            let d = e.len() != n;
            s.deletes += d as u64;
            JsValue::Bool(d)
        }))
    }
    pub fn put_with_str(&self, r: &str, x: &Response) -> Promise {
        let r = key(r);
        promise(self.origin.request(|s| {
            s.puts += 1;
            let body = x.body.clone().expect("put of undefined");
            s.bytes_put += body.len() as u64;
            let mut e = self.entries.lock().unwrap();
            e.retain(|e| e.0 != r);
            e.push((r, body));
            JsValue::Undefined
        }))
    }
}

#[derive(Debug, Clone)]
pub struct Request {
    url: String,
}
impl From<JsValue> for Request {
    fn from(x: JsValue) -> Self {
        x.get::<Request>().cloned().expect("not a Request")
    }
}
impl Request {
    pub fn url(&self) -> String {
        self.url.clone()
    }
}

#[derive(Debug, Clone)]
pub struct Response {
    body: Option<Arc<Vec<u8>>>,
}
impl From<JsValue> for Response {
    fn from(x: JsValue) -> Self {
        // undefined: the entry does not exist, its methods throw
        x.get::<Response>().cloned().unwrap_or(Response { body: None })
    }
}
impl Response {
    fn body(&self) -> Result<Arc<Vec<u8>>, JsValue> {
        self.body.clone().ok_or_else(|| "TypeError: undefined".into())
    }
    pub fn new_with_opt_u8_array(d: Option<&mut [u8]>) -> Result<Response, JsValue> {
        Ok(Response { body: Some(Arc::new(d.map(|x| x.to_vec()).unwrap_or_default())) })
    }
    pub fn array_buffer(&self) -> Result<Promise, JsValue> {
        Ok(Promise::of(JsValue::object(ArrayBuffer(self.body()?.to_vec().into()))))
    }
    pub fn blob(&self) -> Result<Promise, JsValue> {
        Ok(Promise::of(JsValue::object(Blob { data: self.body()? })))
    }
}

#[derive(Debug, Clone)]
pub struct Blob {
    data: Arc<Vec<u8>>,
}
impl From<JsValue> for Blob {
    fn from(x: JsValue) -> Self {
        x.get::<Blob>().cloned().expect("not a Blob")
    }
}
impl Blob {
    /// positions are clamped, negative ones count from the end
    pub fn slice_with_i32_and_i32(&self, a: i32, b: i32) -> Result<Blob, JsValue> {
        let n = self.data.len() as i64;
        let pos = |x: i32| if x < 0 { (n + x as i64).max(0) } else { (x as i64).min(n) } as usize;
        let (a, b) = (pos(a), pos(b));
        Ok(Blob { data: Arc::new(self.data[a..b.max(a)].to_vec()) })
    }
    pub fn array_buffer(&self) -> Promise {
        Promise::of(JsValue::object(ArrayBuffer(self.data.to_vec().into())))
    }
    pub fn size(&self) -> f64 {
        self.data.len() as f64
    }
}
