#[path = "../../harness/src/probe_core.rs"]
mod probe_core;
#[path = "../../harness/src/probe_text.rs"]
mod probe_text;

type Sink = extern "C" fn(*mut u8, *const u8, usize);

fn answer(sink: Sink, to: *mut u8, f: impl FnOnce() -> String + std::panic::UnwindSafe) {
    static QUIET: std::sync::Once = std::sync::Once::new();
    QUIET.call_once(|| std::panic::set_hook(Box::new(|_| {})));
    let s = std::panic::catch_unwind(f).unwrap_or_else(|_| "panic".into());
    sink(to, s.as_ptr(), s.len());
}

/// # Safety
/// `d` and `n` describe bytes that stay in place during the call.
#[no_mangle]
pub unsafe extern "C" fn probe_core(what: u8, d: *const u8, n: usize, sink: Sink, to: *mut u8) {
    let d = std::slice::from_raw_parts(d, n);
    answer(sink, to, || probe_core::ask(what, d));
}

/// # Safety
/// `d` and `n` describe bytes that stay in place during the call: a flag, 16 bytes key, telegram.
#[no_mangle]
pub unsafe extern "C" fn probe_text(what: u8, d: *const u8, n: usize, sink: Sink, to: *mut u8) {
    let d = std::slice::from_raw_parts(d, n);
    answer(sink, to, || {
        let key: [u8; 16] = d[1..17].try_into().unwrap();
        probe_text::ask(what, &d[17..], (d[0] != 0).then_some(key))
    });
}
