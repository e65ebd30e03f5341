//! Stand-in for `js-sys`.

use wasm_bindgen::{JsValue, js_type, sim};

js_type!(Object, (), JsValue);
js_type!(Function, wasm_bindgen::Callback, JsValue);
js_type!(Array, std::cell::RefCell<Vec<JsValue>>, Object);

impl Array {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Self::wrap(Default::default())
    }

    pub fn push(&self, v: &JsValue) -> u32 {
        self.native().borrow_mut().push(v.clone());
        self.native().borrow().len() as u32
    }
}

js_type!(Date, f64, Object);

impl Date {
    pub fn now() -> f64 {
        sim::with(|b| b.date)
    }

    pub fn new_0() -> Self {
        Self::wrap(Self::now())
    }

    pub fn get_time(&self) -> f64 {
        *self.native()
    }

    pub fn get_timezone_offset(&self) -> f64 {
        sim::with(|b| b.tz)
    }
}
