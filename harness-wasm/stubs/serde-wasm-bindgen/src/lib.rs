//! Stand-in for the conversion of serialisable values to JavaScript values.

use wasm_bindgen::JsValue;

pub type Error = serde_json::Error;

pub fn to_value<T: serde::Serialize + ?Sized>(value: &T) -> Result<JsValue, Error> {
    serde_json::to_value(value).map(JsValue::Plain)
}
