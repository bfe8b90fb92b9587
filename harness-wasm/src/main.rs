//! Executes requests (one JSON line each) against the WebAssembly functions and answers with one
//! JSON line each.

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::catch_unwind;

fn call(q: &Value) -> Value {
    let a = &q["args"];
    let s = |i: usize| a[i].as_str().unwrap_or_default();
    let o = |i: usize| a[i].as_str().map(str::to_string);
    let text = |t: String| json!({"ok": t});
    match q["call"].as_str().unwrap_or_default() {
        "render" => match m_bus_wasm::m_bus_render(
            s(0),
            s(1),
            o(2),
            a[3].as_u64().map(|n| n as usize),
            a[4].as_bool(),
        ) {
            Ok(t) => text(t),
            Err(e) => json!({"err": e.value()}),
        },
        "decode" => match m_bus_wasm::m_bus_decode(s(0), o(1), a[2].as_bool()) {
            Ok(v) => json!({"ok": v.value()}),
            Err(e) => json!({"err": e.value()}),
        },
        "parse" => text(m_bus_wasm::m_bus_parse(s(0), s(1))),
        "parse_with_key" => text(m_bus_wasm::m_bus_parse_with_key(s(0), s(1), s(2))),
        other => panic!("unknown call {other}"),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::stdout().lock();
    for line in std::io::stdin().lock().lines() {
        let q: Value = serde_json::from_str(&line.expect("request")).expect("request");
        let r = catch_unwind(|| call(&q)).unwrap_or_else(|e| {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            json!({"panic": m})
        });
        writeln!(out, "{r}").expect("answer");
        out.flush().expect("answer");
    }
}
