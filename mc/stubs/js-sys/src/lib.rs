//! Stand-in for the parts of js-sys the binding uses.
use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::JsValue;

#[derive(Clone, Debug)]
pub struct Error(String);

impl Error {
    pub fn new(message: &str) -> Self {
        Error(message.to_string())
    }

    pub fn message(&self) -> String {
        self.0.clone()
    }
}

impl From<Error> for JsValue {
    fn from(e: Error) -> Self {
        JsValue::of(e)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Array(Rc<RefCell<Vec<JsValue>>>);

impl Array {
    pub fn new() -> Self {
        Self::default()
    }

    pub fn new_with_length(n: u32) -> Self {
        Array(Rc::new(RefCell::new((0..n).map(|_| JsValue::undefined()).collect())))
    }

    pub fn length(&self) -> u32 {
        self.0.borrow().len() as u32
    }

    pub fn get(&self, i: u32) -> JsValue {
        self.0.borrow().get(i as usize).cloned().unwrap_or_else(JsValue::undefined)
    }

    /// as in JavaScript, an array grows to hold what is put beyond its end
    pub fn set(&self, i: u32, v: JsValue) {
        let mut a = self.0.borrow_mut();
        while a.len() <= i as usize {
            a.push(JsValue::undefined());
        }
        a[i as usize] = v;
    }

    pub fn push(&self, v: &JsValue) -> u32 {
        self.0.borrow_mut().push(v.clone());
        self.length()
    }

    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.0.borrow().clone().into_iter()
    }

    pub fn to_vec(&self) -> Vec<JsValue> {
        self.0.borrow().clone()
    }
}

impl IntoIterator for Array {
    type Item = JsValue;
    type IntoIter = std::vec::IntoIter<JsValue>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}

impl FromIterator<JsValue> for Array {
    fn from_iter<I: IntoIterator<Item = JsValue>>(i: I) -> Self {
        Array(Rc::new(RefCell::new(i.into_iter().collect())))
    }
}

impl From<Array> for JsValue {
    fn from(a: Array) -> Self {
        JsValue::of(a)
    }
}
