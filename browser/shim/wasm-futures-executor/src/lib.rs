//! Stand-in: a pool whose tasks run on threads of their own, within one origin
use futures::future::LocalBoxFuture;
use wasm_bindgen::JsValue;
use web_sys::Origin;

#[derive(Clone, Default)]
pub struct ThreadPool {
    pub origin: Origin,
}

impl ThreadPool {
    pub async fn new(_: usize) -> Result<Self, JsValue> {
        Ok(Self::default())
    }
    pub fn at(origin: &Origin) -> Self {
        Self { origin: origin.clone() }
    }
    pub fn spawn_lazy<F: FnOnce() -> LocalBoxFuture<'static, ()> + Send + 'static>(&self, f: F) {
        let o = self.origin.clone();
        std::thread::spawn(move || {
            web_sys::enter(&o);
            futures::executor::block_on(f());
        });
    }
}
