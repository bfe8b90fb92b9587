//! Stand-in for the JavaScript values the bindings create.

pub mod prelude {
    pub use crate::{wasm_bindgen, JsCast, JsError, JsValue, UnwrapThrowExt};
}
pub use wasm_bindgen_macro::wasm_bindgen;

use serde_json::{Map, Value};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum JsValue {
    Undefined,
    Plain(Value),
    /// an object other values may still refer to
    Object(Rc<RefCell<Map<String, Value>>>),
}

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const NULL: JsValue = JsValue::Plain(Value::Null);
    pub const TRUE: JsValue = JsValue::Plain(Value::Bool(true));
    pub const FALSE: JsValue = JsValue::Plain(Value::Bool(false));
    pub fn undefined() -> Self {
        Self::Undefined
    }
    pub fn null() -> Self {
        Self::NULL
    }
    pub fn from_str(s: &str) -> Self {
        Self::Plain(Value::String(s.into()))
    }
    pub fn from_f64(n: f64) -> Self {
        Self::Plain(serde_json::Number::from_f64(n).map_or(Value::Null, Value::Number))
    }
    pub fn from_bool(b: bool) -> Self {
        Self::Plain(Value::Bool(b))
    }
    pub fn as_string(&self) -> Option<String> {
        self.value().as_str().map(str::to_string)
    }
    pub fn as_f64(&self) -> Option<f64> {
        self.value().as_f64()
    }
    pub fn as_bool(&self) -> Option<bool> {
        self.value().as_bool()
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self, Self::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self, Self::Plain(Value::Null))
    }
    pub fn value(&self) -> Value {
        match self {
            Self::Undefined => Value::Null,
            Self::Plain(v) => v.clone(),
            Self::Object(o) => Value::Object(o.borrow().clone()),
        }
    }
}

impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        Self::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        Self::from_str(&s)
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> Self {
        Self::from_str(s)
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> Self {
        Self::from_bool(b)
    }
}
macro_rules! numbers {
    ($($t:ty),*) => {$(impl From<$t> for JsValue {
        fn from(n: $t) -> Self {
            Self::from_f64(n as f64)
        }
    })*};
}
numbers!(u8, u16, u32, usize, i32, f64);

pub trait JsCast: Sized {}
impl<T> JsCast for T {}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}

pub struct JsError(String);
impl JsError {
    pub fn new(message: &str) -> Self {
        Self(message.into())
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> Self {
        let mut m = Map::new();
        m.insert("message".into(), e.0.into());
        JsValue::Object(Rc::new(RefCell::new(m)))
    }
}
