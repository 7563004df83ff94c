//! Stand-in for wasm-bindgen on this machine: a JavaScript value is a Rust value behind a counted
//! reference, so the binding can be driven, and what it gives looked at, without a JavaScript engine.
use std::any::Any;
use std::rc::Rc;

pub use wasm_bindgen_macro::wasm_bindgen;

pub mod prelude {
    pub use crate::{wasm_bindgen, JsValue};
}

#[derive(Clone)]
pub struct JsValue(Rc<dyn Any>);

impl JsValue {
    pub const UNDEFINED: () = ();

    pub fn of<T: 'static>(t: T) -> Self {
        JsValue(Rc::new(t))
    }

    /// what was put in, if it was of this type
    pub fn get<T: 'static>(&self) -> Option<&T> {
        self.0.downcast_ref()
    }

    pub fn undefined() -> Self {
        Self::of(())
    }

    pub fn is_undefined(&self) -> bool {
        self.get::<()>().is_some()
    }

    pub fn from_str(s: &str) -> Self {
        Self::of(s.to_string())
    }

    pub fn from_f64(n: f64) -> Self {
        Self::of(n)
    }

    pub fn as_string(&self) -> Option<String> {
        self.get::<String>().cloned()
    }

    pub fn as_f64(&self) -> Option<f64> {
        self.get::<f64>().copied()
    }

    pub fn as_bool(&self) -> Option<bool> {
        self.get::<bool>().copied()
    }
}

impl std::fmt::Debug for JsValue {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.as_string() {
            Some(s) => write!(f, "JsValue({s:?})"),
            None => write!(f, "JsValue"),
        }
    }
}

impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        Self::from_str(s)
    }
}

impl From<String> for JsValue {
    fn from(s: String) -> Self {
        Self::of(s)
    }
}

impl From<bool> for JsValue {
    fn from(b: bool) -> Self {
        Self::of(b)
    }
}

impl From<f64> for JsValue {
    fn from(n: f64) -> Self {
        Self::of(n)
    }
}

impl From<u32> for JsValue {
    fn from(n: u32) -> Self {
        Self::of(f64::from(n))
    }
}
