//! Values of JavaScript, as far as imports take and give them, and the hook that runs the imported functions.
use std::cell::RefCell;
use std::fmt;
pub use wasm_bindgen_macro::wasm_bindgen;

#[derive(Clone, PartialEq)]
pub enum JsValue {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    List(Vec<JsValue>),
    Big(String),
    Object(Vec<(String, JsValue)>),
    /// an object, known by its text only
    Other(String),
}
impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const NULL: JsValue = JsValue::Null;
    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            JsValue::Num(n) => Some(*n),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            JsValue::Bool(n) => Some(*n),
            _ => None,
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, JsValue::Null)
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self, JsValue::Undefined)
    }
    pub fn is_string(&self) -> bool {
        matches!(self, JsValue::Str(_))
    }
    pub fn from_str(s: &str) -> Self {
        JsValue::Str(s.into())
    }
    pub fn from_f64(n: f64) -> Self {
        JsValue::Num(n)
    }
}
impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            JsValue::Undefined => write!(f, "JsValue(undefined)"),
            JsValue::Null => write!(f, "JsValue(null)"),
            JsValue::Bool(b) => write!(f, "JsValue({b})"),
            JsValue::Num(n) => write!(f, "JsValue({n})"),
            JsValue::Str(s) => write!(f, "JsValue({s:?})"),
            JsValue::List(l) => write!(f, "JsValue({l:?})"),
            JsValue::Big(n) => write!(f, "JsValue({n}n)"),
            JsValue::Object(o) => write!(f, "JsValue({o:?})"),
            JsValue::Other(t) => write!(f, "JsValue({t})"),
        }
    }
}
pub trait ToJs {
    fn to_js(self) -> JsValue;
}
pub trait FromJs {
    fn from_js(v: JsValue) -> Self;
}
impl FromJs for JsValue {
    fn from_js(v: JsValue) -> Self {
        v
    }
}
impl FromJs for () {
    fn from_js(_: JsValue) -> Self {}
}
impl FromJs for String {
    fn from_js(v: JsValue) -> Self {
        v.as_string().expect("not a string")
    }
}
impl FromJs for Option<String> {
    fn from_js(v: JsValue) -> Self {
        (!matches!(v, JsValue::Null | JsValue::Undefined)).then(|| String::from_js(v))
    }
}
impl FromJs for Option<u32> {
    fn from_js(v: JsValue) -> Self {
        (!matches!(v, JsValue::Null | JsValue::Undefined)).then(|| v.as_f64().expect("not a number") as i64 as u32)
    }
}
impl ToJs for JsValue {
    fn to_js(self) -> JsValue {
        self
    }
}
impl ToJs for &JsValue {
    fn to_js(self) -> JsValue {
        self.clone()
    }
}
impl ToJs for &str {
    fn to_js(self) -> JsValue {
        JsValue::Str(self.into())
    }
}
impl ToJs for String {
    fn to_js(self) -> JsValue {
        JsValue::Str(self)
    }
}
impl ToJs for bool {
    fn to_js(self) -> JsValue {
        JsValue::Bool(self)
    }
}
impl<T: ToJs> ToJs for Option<T> {
    fn to_js(self) -> JsValue {
        self.map_or(JsValue::Undefined, T::to_js)
    }
}
impl<T: ToJs> ToJs for Vec<T> {
    fn to_js(self) -> JsValue {
        JsValue::List(self.into_iter().map(T::to_js).collect())
    }
}
impl<T: ToJs> ToJs for Box<[T]> {
    fn to_js(self) -> JsValue {
        self.into_vec().to_js()
    }
}
macro_rules! nums { ($($t:ty),*) => { $(
    impl ToJs for $t { fn to_js(self) -> JsValue { JsValue::Num(self as f64) } }
    impl From<$t> for JsValue { fn from(n: $t) -> Self { JsValue::Num(n as f64) } }
)* } }
nums!(u8, i8, u16, i16, u32, i32, f32, f64);
// a pointer has 32 bits there
impl ToJs for usize {
    fn to_js(self) -> JsValue {
        JsValue::Num(self as u32 as f64)
    }
}
impl From<usize> for JsValue {
    fn from(n: usize) -> Self {
        n.to_js()
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue::Str(s.into())
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue::Str(s)
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> Self {
        JsValue::Bool(b)
    }
}

pub struct Call<'a> {
    pub module: &'a str,
    pub name: &'a str,
    pub args: Vec<JsValue>,
}
pub struct Hook {
    /// how often the others go first, before and after
    pub pauses: Box<dyn FnMut() -> u64>,
    pub run: Box<dyn FnMut(Call) -> Result<JsValue, JsValue>>,
}
thread_local! { static HOOK: RefCell<Option<Hook>> = RefCell::new(None); }
pub fn hook(h: Option<Hook>) {
    HOOK.with(|c| *c.borrow_mut() = h)
}
pub async fn pause() {
    for _ in 0..HOOK.with(|h| (h.borrow_mut().as_mut().expect("no hook").pauses)()) {
        let mut once = false;
        std::future::poll_fn(|c| {
            if std::mem::replace(&mut once, true) {
                return std::task::Poll::Ready(());
            }
            c.waker().wake_by_ref();
            std::task::Poll::Pending
        })
        .await
    }
}
pub async fn call(module: &str, name: &str, args: Vec<JsValue>) -> Result<JsValue, JsValue> {
    pause().await;
    let r = HOOK.with(|h| (h.borrow_mut().as_mut().expect("no hook").run)(Call { module, name, args }));
    pause().await;
    r
}
/// An import that does not wait.
pub fn call_at_once(module: &str, name: &str, args: Vec<JsValue>) -> Result<JsValue, JsValue> {
    HOOK.with(|h| (h.borrow_mut().as_mut().expect("no hook").run)(Call { module, name, args }))
}
/// A member of an object.
pub fn get(o: &JsValue, name: &str) -> JsValue {
    match o {
        JsValue::Object(l) => l.iter().find(|(n, _)| n == name).map_or(JsValue::Undefined, |(_, v)| v.clone()),
        _ => JsValue::Undefined,
    }
}
/// What exported functions throw.
#[derive(Clone)]
pub struct JsError(String);
impl JsError {
    pub fn new(s: &str) -> Self {
        JsError(s.into())
    }
    pub fn text(&self) -> &str {
        &self.0
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> Self {
        JsError(e.to_string())
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> Self {
        JsValue::Other(format!("Error: {}", e.0))
    }
}
pub mod prelude {
    pub use super::{wasm_bindgen, JsError, JsValue};
}
