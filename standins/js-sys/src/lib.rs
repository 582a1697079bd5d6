//! The few types of JavaScript that imports name.
use wasm_bindgen::{JsValue, ToJs};

#[derive(Clone, Debug, PartialEq)]
pub struct JsString(String);
impl From<String> for JsString {
    fn from(s: String) -> Self {
        JsString(s)
    }
}
impl From<&str> for JsString {
    fn from(s: &str) -> Self {
        JsString(s.into())
    }
}
impl From<&String> for JsString {
    fn from(s: &String) -> Self {
        JsString(s.clone())
    }
}
impl From<JsString> for String {
    fn from(s: JsString) -> Self {
        s.0
    }
}
impl From<JsString> for JsValue {
    fn from(s: JsString) -> Self {
        JsValue::Str(s.0)
    }
}
impl ToJs for JsString {
    fn to_js(self) -> JsValue {
        JsValue::Str(self.0)
    }
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Array(Vec<JsValue>);
impl Array {
    pub fn new() -> Self {
        Default::default()
    }
    pub fn push(&mut self, v: &JsValue) -> u32 {
        self.0.push(v.clone());
        self.0.len() as u32
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.0.clone()
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.0.get(i as usize).cloned().unwrap_or(JsValue::Undefined)
    }
    pub fn length(&self) -> u32 {
        self.0.len() as u32
    }
}
impl<T: Into<JsValue>> FromIterator<T> for Array {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        Array(i.into_iter().map(Into::into).collect())
    }
}
impl ToJs for Array {
    fn to_js(self) -> JsValue {
        JsValue::List(self.0)
    }
}
/// Bytes that may be shared.
#[derive(Clone, Debug, Default)]
pub struct Uint8Array(std::rc::Rc<std::cell::RefCell<Vec<u8>>>);
impl Uint8Array {
    pub fn new_with_length(n: u32) -> Self {
        Uint8Array(std::rc::Rc::new(std::cell::RefCell::new(vec![0; n as usize])))
    }
    pub fn length(&self) -> u32 {
        self.0.borrow().len() as u32
    }
    pub fn copy_from(&self, b: &[u8]) {
        self.0.borrow_mut().copy_from_slice(b)
    }
    pub fn copy_to(&self, b: &mut [u8]) {
        b.copy_from_slice(&self.0.borrow())
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.0.borrow().clone()
    }
}
impl From<&[u8]> for Uint8Array {
    fn from(b: &[u8]) -> Self {
        Uint8Array(std::rc::Rc::new(std::cell::RefCell::new(b.to_vec())))
    }
}
impl ToJs for &Uint8Array {
    fn to_js(self) -> JsValue {
        JsValue::List(self.0.borrow().iter().map(|b| (*b).into()).collect())
    }
}
