//! C25: the parser built with fewer features decodes the same. The questions in probe_*.rs are
//! answered by the checker's own build (every feature) and by libraries built from the same tree
//! with fewer features.

use super::sec::{self, KEY, METER};
use super::*;
use crate::gen::{self, LINK};
use crate::{probe_core, probe_key, probe_text};
use std::ffi::CString;
use std::sync::OnceLock;

pub fn spaces() -> Vec<Space> {
    vec![
        space("C25", "c25-tiny", "all byte strings of length 0..2 (thorough 3) as telegram and as application data", c25_tiny),
        space("C25", "c25-ci", "every CI byte x payload lengths 0..24 x 3 contents x 5 framings, and as application data", c25_ci),
        space("C25", "c25-mutate", "15 header kinds with records, wired, wireless and Format A: every byte replaced by every value", c25_mutate),
        space("C25", "c25-record", "every DIF x every VIF x 5 extension shapes x 2 data fills, complete and cut, as records", c25_record),
        space("C25", "c25-vife", "every VIF of the extension tables and every VIFE behind 4 VIFs on 2 data codes, as records", c25_vife),
        space("C25", "c25-chain", "DIFE chains of 0..14 x VIFE chains of 0..14 x 4 x 6 fills x 4 data field codes, as records", c25_chain),
        space("C25", "c25-lvar", "every LVAR byte x 6 VIFs x 3 fills, complete, one byte short and one byte longer, as records", c25_lvar),
        space("C25", "c25-bytes", "every two data bytes x 8 codings of numbers, dates and times, as records", c25_bytes),
        space("C25", "c25-records", "clear headers x every pair of 35 records with separators, wired and Format A, all outputs", c25_records),
        space(
            "C25",
            "c25-readings",
            "numbers of every coding x 14 value information blocks, dates, times and variable-length numbers, all outputs",
            c25_readings,
        ),
        space("C25", "c25-long", "manufacturer data, repeated records and long texts up to the longest telegram, all outputs", c25_long),
        space("C25", "c25-length", "total lengths 0..300 x 4 fills x 6 starts", c25_length),
        space("C25", "c25-key", "every security mode x 17 header kinds x ciphertext lengths 0..40 x key or not x 4 framings, all outputs", c25_key),
        space(
            "C25",
            "c25-open",
            "decryption without the standard library: 16 modes x 9 header kinds x 58 data lengths up to 240 x 4 buffer sizes x right or wrong key",
            c25_open,
        ),
    ]
}

type Sink = extern "C" fn(*mut String, *const u8, usize);
type Probe = unsafe extern "C" fn(u8, *const u8, usize, Sink, *mut String);

extern "C" fn sink(to: *mut String, p: *const u8, n: usize) {
    // SAFETY: `to` is the string handed over by `ask`, the bytes are those of a string of the library
    unsafe { (*to).push_str(&String::from_utf8_lossy(std::slice::from_raw_parts(p, n))) }
}

/// A function of a library, or `None` if that build does not exist (its features do not compile).
fn load(file: &str, name: &str) -> Option<Probe> {
    let path = CString::new(format!("{}/{file}", super::front::dir())).ok()?;
    let name = CString::new(name).ok()?;
    // SAFETY: the libraries are built by build.sh from harness-bare and harness-plain
    unsafe {
        let lib = libc::dlopen(path.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
        if lib.is_null() {
            return None;
        }
        let f = libc::dlsym(lib, name.as_ptr());
        (!f.is_null()).then(|| std::mem::transmute::<*mut libc::c_void, Probe>(f))
    }
}

fn ask(p: Probe, what: u8, d: &[u8]) -> String {
    let mut s = String::new();
    // SAFETY: as promised by the library
    unsafe { p(what, d.as_ptr(), d.len(), sink, &mut s) };
    s
}

fn bare() -> Option<Probe> {
    static P: OnceLock<Option<Probe>> = OnceLock::new();
    *P.get_or_init(|| load("target-bare/debug/libbare.so", "probe_core"))
}
fn embedded() -> Option<Probe> {
    static P: OnceLock<Option<Probe>> = OnceLock::new();
    *P.get_or_init(|| load("target-embedded/debug/libbare.so", "probe_core"))
}
fn opener() -> Option<Probe> {
    static P: OnceLock<Option<Probe>> = OnceLock::new();
    *P.get_or_init(|| load("target-embedded/debug/libbare.so", "probe_key"))
}
fn parsing() -> Option<Probe> {
    static P: OnceLock<Option<Probe>> = OnceLock::new();
    *P.get_or_init(|| load("target-plain/debug/libplain.so", "probe_core"))
}
fn plain() -> Option<Probe> {
    static P: OnceLock<Option<Probe>> = OnceLock::new();
    *P.get_or_init(|| load("target-plain/debug/libplain.so", "probe_text"))
}

/// The first line in which two answers differ.
fn differ(a: &str, b: &str) -> String {
    let (x, y) = a.lines().zip(b.lines()).find(|(x, y)| x != y).unwrap_or_else(|| (a.lines().last().unwrap_or(""), b.lines().last().unwrap_or("")));
    let at = x.bytes().zip(y.bytes()).take_while(|(p, q)| p == q).count().saturating_sub(40);
    let cut = |s: &str| s.char_indices().filter(|(i, _)| *i >= at).map(|(_, c)| c).take(160).collect::<String>();
    format!("…{} against …{}", cut(x), cut(y))
}

/// The interfaces without features.
fn core(ch: &mut Ch, what: u8, d: &[u8]) -> Result<String, Fail> {
    let full = probe_core::ask(what, d);
    for (name, p) in [("no feature", bare()), ("decryption only", embedded()), ("no decryption", parsing())] {
        let Some(p) = p else { continue };
        ch.ok();
        let less = ask(p, what, d);
        if less != full {
            return fail("core", format!("the build with {name} differs: {}", differ(&less, &full)));
        }
    }
    Ok(full)
}

/// The output interfaces; `key` may be given to a build that cannot use it.
fn texts(ch: &mut Ch, d: &[u8], key: Option<[u8; 16]>) -> Result<String, Fail> {
    let Some(p) = plain() else { return Ok(String::new()) };
    let mut q = vec![u8::from(key.is_some())];
    q.extend(key.unwrap_or_default());
    q.extend(d);
    // a key may only be refused where there is something to open
    let closed = !matches!(model::decode(d, None, Opt { skip_7c: true, ..model::opt() }), Ok(m) if !m.encrypted);
    let mut all = String::new();
    for what in 0..probe_text::WHAT {
        ch.ok();
        let less = ask(p, what, &q);
        let full = probe_text::ask(what, d, key);
        let refusal = key.is_some() && closed && less.starts_with('!');
        if less != full && !refusal && (key.is_none() || !closed || less != probe_text::ask(what, d, None)) {
            return fail("text", format!("output {what} of the build without decryption differs: {}", differ(&less, &full)));
        }
        all.push_str(if refusal { "refused" } else { &less });
    }
    Ok(all)
}

fn everything(ch: &mut Ch, d: &[u8]) -> Res {
    ch.note(|| format!("telegram={}", hex(d)));
    let a = core(ch, 0, d)?;
    let b = texts(ch, d, None)?;
    out(&(a, b))
}

fn c25_tiny(ch: &mut Ch) -> Res {
    let n = ch.n(ch.tier(3, 4));
    let d: Vec<u8> = (0..n).map(|_| ch.byte()).collect();
    ch.note(|| format!("bytes={}", hex(&d)));
    let a = core(ch, 0, &d)?;
    let b = core(ch, 1, &d)?;
    let c = if n < 2 { texts(ch, &d, None)? } else { String::new() };
    out(&(a, b, c))
}

fn c25_ci(ch: &mut Ch) -> Res {
    let ci = ch.byte();
    let n = ch.n(25);
    let mut p = vec![ci];
    p.extend(match ch.n(3) {
        0 => vec![0x00; n],
        1 => (0..n).map(|i| [0x01u8, 0x13, 0x05][i % 3]).collect(),
        _ => gen::pattern(n, ci),
    });
    if n % 8 == 0 || ch.thorough {
        let d = super::api::in_frame(ch, &p);
        return everything(ch, &d);
    }
    let k = ch.n(3);
    ch.note(|| format!("application data={} way={k}", hex(&p)));
    out(&match k {
        0 => core(ch, 1, &p)?,
        1 => core(ch, 0, &gen::long(0x08, 0x01, &p))?,
        _ => core(ch, 0, &gen::wireless(&LINK, &p))?,
    })
}

fn c25_mutate(ch: &mut Ch) -> Res {
    let mut p = ch.of(&super::link::headers());
    p.extend([0x01, 0x13, 0x05, 0x2F, 0x0C, 0x78, 0x78, 0x56, 0x34, 0x12]);
    let k = ch.n(3);
    let mut d = match k {
        0 => gen::long(0x08, 0x01, &p),
        1 => gen::wireless(&LINK, &p),
        _ => gen::format_a(&gen::wireless(&LINK, &p)),
    };
    let i = ch.n(d.len());
    d[i] = ch.byte();
    if k == 0 && ch.flag() {
        let n = d.len();
        d[n - 2] = model::checksum(&d[4..n - 2]);
    }
    ch.note(|| format!("telegram={}", hex(&d)));
    if ch.thorough {
        return everything(ch, &d);
    }
    out(&core(ch, 0, &d)?)
}

fn c25_record(ch: &mut Ch) -> Res {
    let dif = ch.byte();
    let vif = ch.byte();
    let shape = ch.n(ch.tier(2, 5));
    let mut d = vec![dif];
    if dif & 0x80 != 0 {
        d.extend([&[0x00u8][..], &[0xFF, 0x7F], &[0x40], &[0x81, 0x82, 0x03], &[0xFF; 10]][shape]);
    }
    d.push(vif);
    if vif & 0x80 != 0 {
        d.extend([&[0x00u8][..], &[0xFD, 0x3B], &[0xFF, 0x7F], &[0x7D], &[0xFC, 0x74]][shape]);
    }
    d.extend(if ch.flag() { gen::pattern(20, 0x11) } else { vec![0x99; 20] });
    if ch.thorough && ch.flag() {
        d.truncate(d.len() - 18);
    }
    ch.note(|| format!("records={}", hex(&d)));
    out(&core(ch, 1, &d)?)
}

fn c25_vife(ch: &mut Ch) -> Res {
    let code = ch.of(&[0x04u8, 0x0C]);
    let first = ch.of(&[0x93u8, 0xFD, 0xFB, 0xFC, 0xFF, 0xED]);
    let mut d = vec![code, first, ch.byte()];
    if d[2] & 0x80 != 0 {
        d.push(ch.byte());
        if d[3] & 0x80 != 0 {
            d.push(0x3B);
        }
    }
    d.extend([0x12, 0x34, 0x56, 0x78]);
    ch.note(|| format!("records={}", hex(&d)));
    out(&core(ch, 1, &d)?)
}

fn c25_records(ch: &mut Ch) -> Res {
    let mut hs = super::ann::clear_headers();
    hs.push(gen::long_tpl(0x76, 0));
    let mut p = ch.of(&hs);
    p.extend(gen::any_record(ch));
    if ch.thorough {
        p.extend(gen::between(ch));
    }
    p.extend(gen::any_record(ch));
    let d = if ch.flag() { gen::long(0x08, 0x01, &p) } else { gen::format_a(&gen::wireless(&LINK, &p)) };
    everything(ch, &d)
}

fn c25_readings(ch: &mut Ch) -> Res {
    let p = gen::reading(ch);
    let d = stream(&p);
    if ch.thorough {
        return everything(ch, &d);
    }
    ch.note(|| format!("telegram={}", hex(&d)));
    out(&core(ch, 0, &d)?)
}

fn c25_long(ch: &mut Ch) -> Res {
    let mut p = ch.of(&[vec![0x78], gen::long_tpl(0x72, 0), gen::short_tpl(0x0500)]);
    let room = 240 - p.len();
    p.extend(match ch.n(4) {
        0 => super::table::text_record(&gen::long_text(ch)),
        1 => gen::many(ch, room),
        2 => gen::tail(ch, room),
        _ => gen::run(ch, room),
    });
    p.truncate(246);
    let d = if ch.flag() { gen::long(0x08, 0x01, &p) } else { gen::wireless(&LINK, &p) };
    ch.note(|| format!("telegram={}", hex(&d)));
    if ch.thorough {
        return everything(ch, &d);
    }
    out(&core(ch, 0, &d)?)
}

fn c25_length(ch: &mut Ch) -> Res {
    let n = ch.n(301);
    let f = ch.n(4);
    let mut d = match ch.n(6) {
        0 => vec![],
        1 => vec![0x68, 0xFF, 0xFF, 0x68, 0x08, 0x01, 0x72],
        2 => vec![n as u8, 0x44, 0x93, 0x15, 0x78, 0x56, 0x34, 0x12, 0x33, 0x03, 0x78],
        3 => vec![0xE5],
        4 => vec![0x10, 0x5B, 0x01, 0x5C, 0x16],
        _ => vec![(n as u8).wrapping_sub(1), 0x44, 0x93, 0x15, 0x78, 0x56, 0x34, 0x12, 0x33, 0x03, 0x78],
    };
    let rest = n.saturating_sub(d.len());
    d.extend(match f {
        0 => vec![0; rest],
        1 => vec![0xFF; rest],
        2 => gen::pattern(rest, 0x5A),
        _ => (0..rest).map(|i| [0x01u8, 0x13, 0x05][i % 3]).collect(),
    });
    everything(ch, &d)
}

fn c25_key(ch: &mut Ch) -> Res {
    let k = ch.of(&sec::ALL);
    let cfg = (ch.n(32) as u16) << 8 | ch.of(&[0u16, 0x10]);
    let n = if ch.thorough { ch.n(41) } else { ch.of(&[0usize, 1, 2, 15, 16, 17, 32, 40]) };
    let framing = ch.n(ch.tier(1, 4));
    let d = sec::telegram(k, &METER, cfg, &sec::plaintext(n), framing);
    let key = ch.flag().then_some(KEY);
    ch.note(|| format!("telegram={} key={}", hex(&d), key.is_some()));
    let a = core(ch, 0, &d)?;
    let b = texts(ch, &d, key)?;
    out(&(a, b))
}

fn c25_open(ch: &mut Ch) -> Res {
    let Some(p) = opener() else { return refused(&"not built") };
    let k = ch.of(&sec::ALL);
    let mode = ch.n(16) as u16;
    let n = ch.n(58);
    let n = [64, 96, 128, 208, 240].get(n.wrapping_sub(53)).copied().unwrap_or(n);
    let mut d = sec::header(k, &METER, mode << 8 | (n as u16 / 16) << 4);
    let iv = if mode == 5 { model::iv5(METER.mfr, 12345678, METER.version, METER.device, METER.acc) } else { [0; 16] };
    d.extend(model::aes::cbc_encrypt(&KEY, &iv, &sec::plaintext(n)));
    let size = ch.of(&[0usize, n.saturating_sub(1), n, 256]);
    let id = if ch.flag() { 12345678u32 } else { 12345679 };
    ch.note(|| format!("application data={} meter {id} buffer {size}", hex(&d)));
    let mut q = METER.mfr.to_le_bytes().to_vec();
    q.extend(id.to_le_bytes());
    q.extend([METER.version, METER.device]);
    q.extend(KEY);
    q.extend((size as u16).to_le_bytes());
    q.extend(&d);
    ch.ok();
    let less = ask(p, 0, &q);
    let full = probe_key::open(&d, METER.mfr, id, METER.version, METER.device, KEY, size);
    if less != full {
        return fail("open", format!("decryption without the standard library differs: {}", differ(&less, &full)));
    }
    out(&full)
}

fn c25_chain(ch: &mut Ch) -> Res {
    let code = ch.of(&[0x01u8, 0x0C, 0x0D, 0x05]);
    let (a, b) = (ch.n(15), ch.n(15));
    let x = ch.of(&[0x00u8, 0x40, 0x7F, 0x15]);
    let y = ch.of(&[0x3Bu8, 0x00, 0x7F, 0x7D, 0x7C, 0x22]);
    let mut d = vec![code | if a > 0 { 0x80 } else { 0 }];
    d.extend((1..=a).map(|i| x | if i < a { 0x80 } else { 0 }));
    d.push(0x13 | if b > 0 { 0x80 } else { 0 });
    d.extend((1..=b).map(|i| y | if i < b { 0x80 } else { 0 }));
    d.extend([0x02, 0x31, 0x32, 0x33, 0x01, 0x13, 0x05]);
    ch.note(|| format!("records={}", hex(&d)));
    out(&core(ch, 1, &d)?)
}

fn c25_lvar(ch: &mut Ch) -> Res {
    let lvar = ch.byte();
    let vif = ch.of(&[0x13u8, 0x78, 0x6D, 0x7F, 0x7C, 0x5A]);
    let n = match lvar {
        0x00..=0xBF => lvar as usize,
        0xC0..=0xDF => lvar as usize & 0x0F,
        0xF0..=0xF6 => 4 * (lvar as usize - 0xEC),
        _ => lvar as usize & 0x0F,
    };
    let n = (n + ch.n(3)).saturating_sub(1);
    let mut d = vec![0x0D, vif, lvar];
    d.extend(match ch.n(3) {
        0 => gen::pattern(n, 0x31),
        1 => vec![0xFF; n],
        _ => vec![0x39; n],
    });
    ch.note(|| format!("records={}", hex(&d)));
    out(&core(ch, 1, &d)?)
}

fn c25_bytes(ch: &mut Ch) -> Res {
    let mut d = ch.of(&[
        vec![0x02u8, 0x13],
        vec![0x0A, 0x13],
        vec![0x05, 0x5B, 0x12, 0x34],
        vec![0x02, 0x6C],
        vec![0x04, 0x6D, 0x1E, 0x0C],
        vec![0x06, 0x6D, 0x1E, 0x0C, 0x3F, 0x55],
        vec![0x03, 0x6D, 0x11],
        vec![0x0D, 0x78, 0x02],
    ]);
    d.extend([ch.byte(), ch.byte()]);
    ch.note(|| format!("records={}", hex(&d)));
    out(&core(ch, 1, &d)?)
}
