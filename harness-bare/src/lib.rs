#[path = "../../harness/src/probe_core.rs"]
mod probe_core;
#[cfg(feature = "decryption")]
#[path = "../../harness/src/probe_key.rs"]
mod probe_key;

type Sink = extern "C" fn(*mut u8, *const u8, usize);

fn answer(sink: Sink, to: *mut u8, f: impl FnOnce() -> String + std::panic::UnwindSafe) {
    static QUIET: std::sync::Once = std::sync::Once::new();
    QUIET.call_once(|| std::panic::set_hook(Box::new(|_| {})));
    let s = std::panic::catch_unwind(f).unwrap_or_else(|_| "panic".into());
    sink(to, s.as_ptr(), s.len());
}

/// # Safety
/// `d` and `n` describe bytes that stay in place during the call.
#[no_mangle]
pub unsafe extern "C" fn probe_core(what: u8, d: *const u8, n: usize, sink: Sink, to: *mut u8) {
    let d = std::slice::from_raw_parts(d, n);
    answer(sink, to, || probe_core::ask(what, d));
}

/// # Safety
/// `d` and `n` describe bytes that stay in place during the call: 2 bytes manufacturer, 4 bytes
/// number, version, device, 16 bytes key, 2 bytes buffer size, application data.
#[cfg(feature = "decryption")]
#[no_mangle]
pub unsafe extern "C" fn probe_key(_: u8, d: *const u8, n: usize, sink: Sink, to: *mut u8) {
    let d = std::slice::from_raw_parts(d, n);
    answer(sink, to, || {
        let key: [u8; 16] = d[8..24].try_into().unwrap();
        let id = u32::from_le_bytes(d[2..6].try_into().unwrap());
        probe_key::open(&d[26..], u16::from_le_bytes([d[0], d[1]]), id, d[6], d[7], key, u16::from_le_bytes([d[24], d[25]]) as usize)
    });
}
