//! Stand-in for the JavaScript built-ins the bindings use.

use serde_json::{Map, Value};
use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::JsValue;

macro_rules! object {
    ($name:ident) => {
        #[derive(Clone, Debug)]
        pub struct $name(Rc<RefCell<Map<String, Value>>>);
        impl From<$name> for JsValue {
            fn from(e: $name) -> Self {
                JsValue::Object(e.0)
            }
        }
        impl AsRef<JsValue> for $name {
            fn as_ref(&self) -> &JsValue {
                Box::leak(Box::new(JsValue::Object(self.0.clone())))
            }
        }
        impl std::ops::Deref for $name {
            type Target = JsValue;
            fn deref(&self) -> &JsValue {
                self.as_ref()
            }
        }
    };
}
object!(Error);
object!(Object);

impl Error {
    pub fn new(message: &str) -> Self {
        let e = Self(Rc::new(RefCell::new(Map::new())));
        e.0.borrow_mut().insert("message".into(), message.into());
        e.set_name("Error");
        e
    }
    pub fn set_name(&self, name: &str) {
        self.0.borrow_mut().insert("name".into(), name.into());
    }
    pub fn set_message(&self, message: &str) {
        self.0.borrow_mut().insert("message".into(), message.into());
    }
}

impl Object {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Self(Rc::new(RefCell::new(Map::new())))
    }
}

pub struct Reflect;
impl Reflect {
    pub fn set(target: &JsValue, key: &JsValue, value: &JsValue) -> Result<bool, JsValue> {
        match (target, key.as_string()) {
            (JsValue::Object(o), Some(k)) => {
                o.borrow_mut().insert(k, value.value());
                Ok(true)
            }
            _ => Err(JsValue::from_str("Reflect.set called on non-object")),
        }
    }
    pub fn get(target: &JsValue, key: &JsValue) -> Result<JsValue, JsValue> {
        match (target, key.as_string()) {
            (JsValue::Object(o), Some(k)) => Ok(o
                .borrow()
                .get(&k)
                .cloned()
                .map_or(JsValue::Undefined, JsValue::Plain)),
            _ => Err(JsValue::from_str("Reflect.get called on non-object")),
        }
    }
}

#[allow(non_snake_case)]
pub mod JSON {
    use super::*;
    /// `message` of an Error is not enumerable, `name` only once assigned; the rest is.
    pub fn stringify(value: &JsValue) -> Result<JsValue, JsValue> {
        Ok(JsValue::from_str(&value.value().to_string()))
    }
}
