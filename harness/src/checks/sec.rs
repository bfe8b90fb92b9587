//! C11 encrypted payloads stay closed, C12 decryption, C23 decrypted hex view.

use super::*;
use crate::gen;
use crate::model::{aes, iv5, MOut};
use crate::seg;
use m_bus_core::decryption::{DecryptionError, EncryptedPayload, KeyContext, KeyProvider, StaticKeyProvider};
use m_bus_core::{DeviceType, ManufacturerCode, SecurityMode};
use m_bus_parser::user_data::UserDataBlock;
use m_bus_parser::{render_bytes, OutputFormat, RenderOptions};

pub fn spaces() -> Vec<Space> {
    vec![
        space(
            "C11",
            "c11-modes",
            "every security mode x 17 header kinds x 4 framings with a payload of recognisable records at 18 offsets, all output formats",
            c11_modes,
        ),
        space(
            "C11",
            "c11-header",
            "17 header kinds x 4 framings with every value of every header byte behind the CI (thorough: of every two neighbouring ones), wherever that is still encrypted",
            c11_header,
        ),
        space("C11", "c11-bytes", "17 header kinds with every value of every one of 20 ciphertext bytes: canonical output differs only in raw hex", c11_bytes),
        space("C11", "c11-length", "17 header kinds with ciphertexts of every length up to the longest telegram in 6 contents, 4 framings", c11_length),
        space("C11", "c11-stream", "17 header kinds with every ciphertext of 1 or 2 (thorough 3) bytes", c11_stream),
        space("C11", "c11-key", "every output of 35 telegrams with 9 keys: no spelling of the key in it", c11_key),
        space("C11", "c11-ci", "every CI byte x payload lengths 0..24 x 3 contents, wired and wireless, where not encrypted: a key changes nothing but its own note", c11_ci),
        space("C11", "c11-clear", "cleartext telegrams of 17 header kinds x every pair of 35 records: a key changes nothing but its own note", c11_clear),
        space(
            "C12",
            "c12-length",
            "mode 5 and 7, 13 header kinds, 4 framings, payloads of every length up to the longest telegram, sent by a model sender",
            c12_length,
        ),
        space(
            "C12",
            "c12-blocks",
            "every announced block count with every payload length up to the longest telegram, mode 5 and 7, 5 header kinds",
            c12_blocks,
        ),
        space("C12", "c12-iv", "every value of every identity, access number and status byte, 9 header kinds, mode 5", c12_iv),
        space("C12", "c12-identity", "every manufacturer word x access numbers 0, 1, 255 in the link header and in the long header", c12_identity),
        space("C12", "c12-key", "every value of every key byte and every value of every byte of one ciphertext block", c12_key),
        space("C12", "c12-records", "every pair of 35 records encrypted, 6 header kinds, right and wrong key", c12_records),
        space("C12", "c12-config", "every configuration word, 4 header kinds, with and without key", c12_config),
        space("C12", "c12-api", "payload decryption call: every mode x every data length 0..52 x 9 buffer sizes x key present or not", c12_api),
        space(
            "C12",
            "c12-block-api",
            "application-layer decryption calls on every CI byte: mode 0, 5, 7, 13 x data lengths x buffer sizes x key present, absent",
            c12_block_api,
        ),
        space("C12", "c12-fleet", "key stores of capacity 5, 8, 16, 33, 64, 257: every number of additions up to two beyond it in 8 identity patterns, every meter and its one-bit neighbours looked up", c12_fleet),
        space("C12", "c12-store", "key store capacities 0..4: every history of up to 5 (thorough 6) additions out of 6, all lookups after each", c12_store),
        space("C23", "c23-length", "13 header kinds, mode 5 and 7, 5 framings, payloads of every length up to the longest telegram", c23_length),
        space("C23", "c23-records", "every pair of 35 records with separators, encrypted, 8 header kinds", c23_records),
        space("C23", "c23-tail", "manufacturer data and continuation marks of every length up to the longest telegram x 4 contents x 4 leads encrypted behind 8 headers", c23_tail),
        space("C23", "c23-modes", "every configuration byte pair (mode x block count), 13 header kinds, key or not", c23_modes),
        space("C23", "c23-bytes", "every value of every byte of encrypted telegrams of 8 header kinds", c23_bytes),
        space("C23", "c23-plain", "plaintexts of every 1 or 2 bytes in front of filler, wired and wireless", c23_plain),
    ]
}

// ---------------------------------------------------------------------------------- model sender

#[derive(Clone, Debug)]
pub struct Meter {
    pub mfr: u16,
    pub id: [u8; 4],
    pub version: u8,
    pub device: u8,
    pub acc: u8,
    pub status: u8,
}

pub const METER: Meter = Meter { mfr: 0x4024, id: [0x78, 0x56, 0x34, 0x12], version: 1, device: 7, acc: 0x55, status: 0 };
/// link address of wireless telegrams whose header carries its own identity
const RADIO: Meter = Meter { mfr: 0x1593, id: [0x21, 0x43, 0x65, 0x87], version: 0x33, device: 3, acc: 0, status: 0 };

pub const KEY: [u8; 16] = [0xF8, 0xB2, 0x4F, 0x12, 0xF9, 0xD1, 0x13, 0xF6, 0x80, 0xBE, 0xE7, 0x65, 0xFD, 0xE6, 0x7E, 0xC0];

/// Header kinds; the first 8 carry mode-controlled encryption the decoder can undo.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    WiredLong,
    WiredLongMsb,
    WiredEllLong,
    RadioLong,
    RadioShort,
    RadioEllShort,
    RadioEllLong,
    RadioLongMsb,
    RadioA5,
    RadioA0,
    RadioAF,
    WiredShort,
    WiredEll8D,
    RadioEll8D,
    RadioEll8E,
    RadioEllMsb,
    WiredEllMsb,
}
use K::*;
pub const OPEN: [K; 13] = [WiredLong, WiredLongMsb, WiredEllLong, RadioLong, RadioShort, RadioEllShort, RadioEllLong, RadioLongMsb, RadioA5, RadioA0, RadioAF, RadioEllMsb, WiredEllMsb];
pub const ALL: [K; 17] = [
    WiredLong,
    WiredLongMsb,
    WiredEllLong,
    RadioLong,
    RadioShort,
    RadioEllShort,
    RadioEllLong,
    RadioLongMsb,
    RadioA5,
    RadioA0,
    RadioAF,
    WiredShort,
    WiredEll8D,
    RadioEll8D,
    RadioEll8E,
    RadioEllMsb,
    WiredEllMsb,
];

pub fn header(k: K, m: &Meter, cfg: u16) -> Vec<u8> {
    let c = cfg.to_le_bytes();
    let short = |ci: u8| vec![ci, m.acc, m.status, c[0], c[1]];
    let long = |ci: u8| {
        let mut id = m.id;
        if ci == 0x76 {
            id.reverse();
        }
        let mut v = vec![ci];
        v.extend(id);
        v.extend(m.mfr.to_le_bytes());
        v.extend([m.version, m.device, m.acc, m.status, c[0], c[1]]);
        v
    };
    let ell = |v: Vec<u8>| [vec![0x8C, 0x20, 0x77], v].concat();
    match k {
        WiredLong | RadioLong => long(0x72),
        WiredLongMsb | RadioLongMsb => long(0x76),
        WiredEllLong | RadioEllLong => ell(long(0x72)),
        WiredEllMsb | RadioEllMsb => ell(long(0x76)),
        RadioShort | WiredShort => short(0x7A),
        RadioEllShort => ell(short(0x7A)),
        RadioA5 => short(0xA5),
        RadioAF => short(0xAF),
        RadioA0 => {
            let mut v = short(0xA0);
            v.insert(1, 0x33);
            v
        }
        WiredEll8D | RadioEll8D => vec![0x8D, 0x21, 0x55, 0x01, 0x02, 0x03, 0x04, 0xAA, 0xBB],
        RadioEll8E => vec![0x8E, 0x22, 0x56, 0x93, 0x15, 0x78, 0x56, 0x34, 0x12, 0x01, 0x07, 0x0A, 0x0B, 0x0C, 0x0D, 0xCC, 0xDD],
    }
}

fn is_wired(k: K) -> bool {
    matches!(k, WiredLong | WiredLongMsb | WiredEllLong | WiredEllMsb | WiredShort | WiredEll8D)
}
fn own_identity(k: K) -> bool {
    matches!(k, WiredLong | WiredLongMsb | WiredEllLong | RadioLong | RadioEllLong | RadioLongMsb | RadioEllMsb | WiredEllMsb)
}

/// Telegram with the given bytes behind the header. `framing`: see link::framing.
pub fn telegram(k: K, m: &Meter, cfg: u16, payload: &[u8], framing: usize) -> Vec<u8> {
    let mut p = header(k, m, cfg);
    p.extend(payload);
    if is_wired(k) {
        return gen::long(0x08, 0x01, &p);
    }
    let l = if own_identity(k) { &RADIO } else { m };
    let f = gen::wireless(&gen::Link { c: 0x44, mfr: l.mfr.to_le_bytes(), id: l.id, version: l.version, device: l.device }, &p);
    super::link::framing(framing, &f)
}

/// Most bytes that fit behind the header.
pub fn room(k: K, framing: usize) -> usize {
    (if is_wired(k) { 253 } else { super::link::ROOM[framing] }) - header(k, &METER, 0).len()
}

/// Ciphertext a sender makes of `plain`: the announced blocks, or all whole ones.
pub fn seal(k: K, m: &Meter, cfg: u16, plain: &[u8], key: &[u8; 16]) -> Vec<u8> {
    let iv = if cfg >> 8 & 0x1F == 7 {
        [0; 16]
    } else {
        let id = model::bcd_id(&m.id).unwrap_or(0);
        // CI A0..AF: the device type is the upper half of its byte
        let device = if matches!(k, RadioA0 | RadioA5 | RadioAF) { m.device >> 4 } else { m.device };
        iv5(m.mfr, id, m.version, device, m.acc)
    };
    let n = (cfg >> 4 & 0xF) as usize;
    let n = if n == 0 { plain.len() } else { plain.len().min(16 * n) };
    [aes::cbc_encrypt(key, &iv, &plain[..n]), plain[n..].to_vec()].concat()
}

pub fn sealed(k: K, m: &Meter, cfg: u16, plain: &[u8], framing: usize) -> Vec<u8> {
    telegram(k, m, cfg, &seal(k, m, cfg, plain, &KEY), framing)
}

/// Whether the last bytes of a radio telegram happen to be a CRC, so that a receiver drops them.
pub fn crc_by_chance(d: &[u8]) -> bool {
    !d.is_empty() && d[0] as usize + 1 == d.len() && d[0] != 0x68 && model::trailing_crc(d).is_some()
}

/// Plaintext of any length that is made of records.
pub fn plaintext(n: usize) -> Vec<u8> {
    let mut v = vec![0x2F, 0x2F];
    let mut i = 0u8;
    while v.len() < n {
        v.extend([0x04, 0x13, i, 2, 3, 4, 0x02, 0x5B, 0x17, i, 0x0A, 0x5B, i % 10, 0x12]);
        i = i.wrapping_add(1);
    }
    v.truncate(n);
    v
}

// ------------------------------------------------------------------------------------------- C11

pub const FORMATS: [OutputFormat; 8] = [
    OutputFormat::Table,
    OutputFormat::Json,
    OutputFormat::Yaml,
    OutputFormat::Csv,
    OutputFormat::Mermaid,
    OutputFormat::Annotated,
    OutputFormat::AnnotatedText,
    OutputFormat::Xml,
];

fn closed(ch: &mut Ch, d: &[u8]) -> Result<DecodedOutput, Fail> {
    let o = match decode(d, None) {
        Ok(o) => o,
        Err(e) => return fail("rejected", format!("decoder fails with {}", e.code())),
    };
    ch.ok();
    if !o.records.is_empty() {
        return fail("records", format!("{} records from ciphertext", o.records.len()));
    }
    if o.security.payload_protection != "encrypted" || o.security.decryption_state != "key_missing" || o.security.key_supplied {
        return fail("state", format!("security state {:?}", o.security));
    }
    if o.decode_state != "partial" || !o.diagnostics.iter().any(|d| d.code == "security.key_missing" && d.layer == "security") {
        return fail("state", format!("decode state {} with {:?}", o.decode_state, o.diagnostics));
    }
    if o.security.decrypted_payload_hex.is_some() {
        return fail("state", "decrypted payload without a key");
    }
    Ok(o)
}

/// Removes the members that show raw bytes.
fn without_raw(o: &DecodedOutput) -> String {
    let mut v = super::fmt::document(o);
    if let Some(m) = v.as_object_mut() {
        m.remove("raw");
    }
    if let Some(m) = v["security"].as_object_mut() {
        m.remove("encrypted_payload_hex");
    }
    v.to_string()
}

fn csv_records(text: &str) -> Option<bool> {
    let rows = super::fmt::parse_csv(text).ok()?;
    Some(rows.first()?.iter().any(|h| h.starts_with("record_") && h != "record_count"))
}

fn views(ch: &mut Ch, d: &[u8], k: K, marks: &[&str]) -> Result<(), Fail> {
    for f in FORMATS {
        if f == OutputFormat::Xml && own_identity(k) && is_wired(k) {
            continue; // documented exception: libmbus output of wired telegrams ignores encryption
        }
        let r = render_bytes(d, f, &RenderOptions { decode: options(None), table_width: None });
        ch.ok();
        let t = match r {
            Ok(t) => t,
            Err(_) if f == OutputFormat::Xml => continue,
            Err(e) => return fail("format", format!("{} fails with {}", f.as_str(), e.code())),
        };
        for m in marks {
            if t.contains(m) {
                return fail("shown", format!("{} shows {m:?} from the ciphertext", f.as_str()));
            }
        }
        let bad = match f {
            OutputFormat::Csv => csv_records(&t) != Some(false),
            OutputFormat::Mermaid => t.lines().any(|l| l.trim_start().starts_with("R0[")),
            OutputFormat::Xml => t.contains("<DataRecord"),
            OutputFormat::Annotated => {
                let v: Value = serde_json::from_str(&t).unwrap_or(Value::Null);
                v["decrypted"] != Value::Bool(false) || v["segments"].as_array().is_none_or(|s| s.iter().any(|s| !s["group"].is_null()))
            }
            OutputFormat::AnnotatedText => t.contains("DIF") || t.contains("VIF"),
            OutputFormat::Table | OutputFormat::Json | OutputFormat::Yaml => !t.contains("key_missing"),
            _ => false,
        };
        if bad {
            return fail("shown", format!("{} presents the ciphertext as records", f.as_str()));
        }
    }
    Ok(())
}

/// mode bits of the kinds that have a configuration word; the ELL kinds are always encrypted
fn has_mode(k: K) -> bool {
    !matches!(k, WiredEll8D | RadioEll8D | RadioEll8E)
}

fn c11_modes(ch: &mut Ch) -> Res {
    let k = ch.of(&ALL);
    let mode = if has_mode(k) { 1 + ch.n(31) } else { 0 };
    let framing = if is_wired(k) { 0 } else { ch.n(4) };
    let pad = ch.n(18);
    let mut p = vec![0x2F; pad];
    p.extend([0x0D, 0x78, 6, b'W', b'Z', b'Y', b'X', b'Q', b'J', 0x0C, 0x13, 0x59, 0x73, 0x91, 0x86]);
    let d = telegram(k, &METER, (mode as u16) << 8 | 0x20, &p, framing);
    ch.note(|| format!("bytes={}", hex(&d)));
    let o = closed(ch, &d)?;
    views(ch, &d, k, &["JQXYZW", "86917.359", "86917359"])?;
    out(&(without_raw(&o), pad))
}

fn c11_header(ch: &mut Ch) -> Res {
    let k = ch.of(&ALL);
    let framing = if is_wired(k) { 0 } else { ch.n(4) };
    let mut p = header(k, &METER, 0x0520);
    let i = 1 + ch.n(p.len() - 1);
    p[i] = ch.byte();
    if ch.thorough && framing == 0 && i + 1 < p.len() {
        p[i + 1] = ch.byte();
    }
    p.extend([0x0D, 0x78, 6, b'W', b'Z', b'Y', b'X', b'Q', b'J', 0x0C, 0x13, 0x59, 0x73, 0x91, 0x86]);
    let d = if is_wired(k) {
        gen::long(0x08, 0x01, &p)
    } else {
        super::link::framing(
            framing,
            &gen::wireless(&gen::Link { c: 0x44, mfr: RADIO.mfr.to_le_bytes(), id: RADIO.id, version: RADIO.version, device: RADIO.device }, &p),
        )
    };
    ch.note(|| format!("bytes={}", hex(&d)));
    match model::decode(&d, None, Opt { skip_7c: true, ..model::opt() }) {
        Ok(m) if m.json["security"]["payload_protection"] == "encrypted" => {}
        _ => return refused(&"in the clear"),
    }
    let o = closed(ch, &d)?;
    views(ch, &d, k, &["JQXYZW", "86917.359", "86917359"])?;
    out(&(without_raw(&o), i))
}

fn c11_bytes(ch: &mut Ch) -> Res {
    let k = ch.of(&ALL);
    let base = [vec![0x0D, 0x78, 0x03, b'c', b'b', b'a'], plaintext(14)].concat();
    let mut p = base.clone();
    let i = ch.n(p.len());
    p[i] = ch.byte();
    let cfg = if ch.flag() { 0x0500 } else { 0x0710 };
    let a = telegram(k, &METER, cfg, &base, 0);
    let b = telegram(k, &METER, cfg, &p, 0);
    ch.note(|| format!("bytes={} and {}", hex(&a), hex(&b)));
    let (oa, ob) = (closed(ch, &a)?, closed(ch, &b)?);
    let w = without_raw(&ob);
    // a byte that happens to complete a trailing CRC changes the framing itself
    if oa.raw.payload_hex.as_ref().map(String::len) != ob.raw.payload_hex.as_ref().map(String::len) {
        return refused(&"framing");
    }
    if without_raw(&oa) != w {
        return fail("interference", format!("ciphertext byte {i} changes the output: {w}"));
    }
    let show = |d: &[u8]| -> Result<Vec<Value>, Fail> {
        match render_bytes(d, OutputFormat::Annotated, &RenderOptions::default()) {
            Ok(t) => {
                let mut v: Value = serde_json::from_str(&t).unwrap_or(Value::Null);
                let s = v["segments"].as_array_mut().map(std::mem::take).unwrap_or_default();
                Ok(s.into_iter().map(|s| serde_json::json!([s["start"], s["end"], s["kind"], s["group"]])).collect())
            }
            Err(e) => fail("format", e.code().to_string()),
        }
    };
    if show(&a)? != show(&b)? {
        return fail("interference", format!("ciphertext byte {i} changes the segments"));
    }
    out(&(w, p))
}

fn c11_length(ch: &mut Ch) -> Res {
    let k = ch.of(&ALL);
    let framing = if is_wired(k) { 0 } else { ch.n(4) };
    let n = ch.n(room(k, framing) + 1);
    let p: Vec<u8> = match ch.n(6) {
        0 => vec![0; n],
        1 => vec![0x2F; n],
        2 => gen::pattern(n, 7),
        3 => plaintext(n),
        4 => vec![0x0F; n],
        _ => vec![0x7F; n],
    };
    let d = telegram(k, &METER, 0x0500, &p, framing);
    ch.note(|| format!("bytes={}", hex(&d)));
    let o = closed(ch, &d)?;
    views(ch, &d, k, &[])?;
    let want = hex(&[header(k, &METER, 0x0500), p].concat());
    if o.security.encrypted_payload_hex.as_deref() != Some(&want) {
        return fail("raw", format!("raw payload {:?}, sent {want}", o.security.encrypted_payload_hex));
    }
    out(&want)
}

fn c11_stream(ch: &mut Ch) -> Res {
    let k = ch.of(&ALL);
    let n = 1 + ch.n(ch.tier(2, 3));
    let p: Vec<u8> = (0..n).map(|_| ch.byte()).collect();
    let d = telegram(k, &METER, 0x0500, &p, 0);
    ch.note(|| format!("bytes={}", hex(&d)));
    if crc_by_chance(&d) {
        return refused(&"trailing CRC");
    }
    let o = closed(ch, &d)?;
    out(&o.raw.payload_hex)
}

fn spellings(k: &[u8; 16]) -> Vec<String> {
    let b = |f: &dyn Fn(&u8) -> String, sep: &str| k.iter().map(f).collect::<Vec<_>>().join(sep);
    let mut v = vec![
        b(&|x| format!("{x:02x}"), ""),
        b(&|x| format!("{x:02x}"), " "),
        b(&|x| format!("{x:02x}"), ":"),
        b(&|x| format!("{x:02x}"), ", "),
        b(&|x| format!("0x{x:02x}"), ", "),
        b(&|x| format!("{x}"), ", "),
        b(&|x| format!("{x}"), ","),
    ];
    v.push(k.iter().rev().map(|x| format!("{x:02x}")).collect());
    v
}

fn c11_key(ch: &mut Ch) -> Res {
    let mut t = super::table::telegrams();
    for k in OPEN {
        t.push(sealed(k, &METER, 0x0500, &plaintext(40), 0));
    }
    let d = ch.of(&t);
    let key: [u8; 16] = match ch.n(9) {
        0 => KEY,
        i => std::array::from_fn(|j| (j as u8).wrapping_mul(17).wrapping_add(0x9B).wrapping_mul(i as u8 * 2 + 1)),
    };
    ch.note(|| format!("bytes={} key={}", hex(&d), hex(&key)));
    let legacy = ["json-legacy", "yaml-legacy", "csv-wide", "annotated-legacy", "hexview-legacy", "json", "nonsense"];
    let mut all: Vec<String> = Vec::new();
    for f in FORMATS {
        all.push(match render_bytes(&d, f, &RenderOptions { decode: options(Some(key)), table_width: None }) {
            Ok(t) => t,
            Err(e) => format!("{} {e} {e:?}", e.code()),
        });
    }
    for f in legacy {
        all.push(m_bus_parser::serialize_mbus_data(&hex(&d), f, Some(&key)));
    }
    all.push(match decode(&d, Some(key)) {
        Ok(o) => format!("{o:?}"),
        Err(e) => format!("{e:?} {e}"),
    });
    let sp = spellings(&key);
    for t in &all {
        ch.ok();
        let flat = t.to_ascii_lowercase();
        let tight: String = flat.chars().filter(|c| !c.is_whitespace()).collect();
        for s in &sp {
            let st: String = s.chars().filter(|c| !c.is_whitespace()).collect();
            if flat.contains(s.as_str()) || tight.contains(&st) {
                return fail("key", format!("the key appears as {s:?} in {:.60}", t));
            }
        }
    }
    out(&(d, key))
}

fn c11_clear(ch: &mut Ch) -> Res {
    let mut p = ch.of(&super::link::headers());
    p.extend(gen::any_record(ch));
    p.extend(gen::any_record(ch));
    if ch.flag() {
        p.pop();
    }
    let d = if ch.flag() { gen::long(0x08, 0x01, &p) } else { gen::wireless(&gen::LINK, &p) };
    clear(ch, &d)
}

fn c11_ci(ch: &mut Ch) -> Res {
    let mut p = vec![ch.byte()];
    let n = ch.n(25);
    p.extend(match ch.n(3) {
        0 => vec![0x00; n],
        1 => (0..n).map(|i| [0x01u8, 0x13, 0x05][i % 3]).collect(),
        _ => (0..n).map(|i| (i * 0x11 % 0x9A) as u8 & 0x77).collect(),
    });
    let d = if ch.flag() { gen::long(0x08, 0x01, &p) } else { gen::wireless(&gen::LINK, &p) };
    clear(ch, &d)
}

fn clear(ch: &mut Ch, d: &[u8]) -> Res {
    match model::decode(d, None, Opt { skip_7c: true, ..model::opt() }) {
        Ok(m) if !m.encrypted => (),
        _ => return refused(&"encrypted"),
    }
    ch.note(|| format!("bytes={} key={}", hex(d), hex(&KEY)));
    let (Ok(a), Ok(b)) = (decode(d, None), decode(d, Some(KEY))) else {
        return fail("rejected", "decoder refuses a cleartext telegram");
    };
    ch.ok();
    let (mut va, mut vb) = (super::fmt::document(&a), super::fmt::document(&b));
    if vb["security"]["key_supplied"] != Value::Bool(true) {
        return fail("note", "key_supplied is not set");
    }
    va["security"]["key_supplied"] = Value::Null;
    vb["security"]["key_supplied"] = Value::Null;
    let diags = |v: &mut Value| v["diagnostics"].as_array_mut().map(std::mem::take).unwrap_or_default();
    let (da, mut db) = (diags(&mut va), diags(&mut vb));
    let n = db.len();
    db.retain(|d| d["code"] != "security.key_unused");
    if db.len() + 1 != n {
        return fail("note", format!("{} notes about the unused key", n - db.len()));
    }
    va["diagnostics"] = Value::Null;
    vb["diagnostics"] = Value::Null;
    if da != db {
        return fail("diagnostics", format!("{da:?} became {db:?}"));
    }
    if let Some(x) = model::jdiff("", &vb, &va) {
        return fail("changed", x);
    }
    for f in [OutputFormat::Annotated, OutputFormat::AnnotatedText, OutputFormat::Xml] {
        let r = |k| render_bytes(d, f, &RenderOptions { decode: options(k), table_width: None }).map_err(|e| e.code());
        ch.ok();
        if r(None) != r(Some(KEY)) {
            return fail("changed", format!("{} differs", f.as_str()));
        }
    }
    out(&va.to_string())
}

// ------------------------------------------------------------------------------------------- C12

const PARTS: [&str; 4] = ["security", "records", "decode_state", "diagnostics"];

fn opened(ch: &mut Ch, d: &[u8], plain: &[u8]) -> Res {
    let r = compare(ch, d, Some(KEY), &PARTS)?;
    if crc_by_chance(d) {
        return Ok(r);
    }
    match decode(d, Some(KEY)) {
        Ok(o) => {
            if o.security.decrypted_payload_hex.as_deref() != Some(&hex(plain)) {
                return fail("plaintext", format!("decrypted {:?}, sent {}", o.security.decrypted_payload_hex, hex(plain)));
            }
            if o.security.decryption_state != "decrypted_unverified" {
                return fail("state", o.security.decryption_state);
            }
            ch.ok();
            Ok(r)
        }
        Err(_) if plain.is_empty() => Ok(r),
        Err(e) => fail("rejected", e.code().to_string()),
    }
}

fn c12_length(ch: &mut Ch) -> Res {
    let k = ch.of(&OPEN);
    let mode = ch.of(&[0x0500u16, 0x0700]);
    let framing = if is_wired(k) { 0 } else { ch.n(4) };
    let n = ch.n(room(k, framing) + 1);
    let plain = if ch.flag() { plaintext(n) } else { gen::pattern(n, n as u8) };
    let d = sealed(k, &METER, mode, &plain, framing);
    if crc_by_chance(&sealed(k, &METER, mode, &plain, 0)) {
        return compare(ch, &d, Some(KEY), &PARTS);
    }
    opened(ch, &d, &plain)
}

fn c12_blocks(ch: &mut Ch) -> Res {
    let k = ch.of(&[WiredLong, RadioLong, RadioShort, RadioEllShort, RadioEllLong]);
    let blocks = ch.n(16) as u16;
    let mode = ch.of(&[0x0500u16, 0x0700]);
    let n = ch.n(room(k, 0) + 1);
    let plain = plaintext(n);
    let low = ch.of(&[0u16, 0x0F]);
    let d = sealed(k, &METER, mode | blocks << 4 | low, &plain, 0);
    opened(ch, &d, &plain)
}

/// A meter with one byte of its identity, access number or status replaced by any value.
fn any_meter(ch: &mut Ch, all: bool) -> Meter {
    let mut m = METER;
    let b = if all { ch.byte() } else { ch.of(&[0x00u8, 0x01, 0x0F, 0x10, 0x1F, 0x55, 0x7F, 0x80, 0x99, 0xA0, 0xFE, 0xFF]) };
    match ch.n(10) {
        0 => m.mfr = m.mfr & 0xFF00 | u16::from(b),
        1 => m.mfr = m.mfr & 0x00FF | u16::from(b) << 8,
        i @ 2..=5 => m.id[i - 2] = b,
        6 => m.version = b,
        7 => m.device = b,
        8 => m.acc = b,
        _ => m.status = b,
    }
    m
}

/// An encrypted telegram of any meter, or with any record, and the key to try.
pub fn any_sealed(ch: &mut Ch, all: bool) -> (Vec<u8>, Option<[u8; 16]>) {
    let k = ch.of(&OPEN);
    let cfg = ch.of(&[0x0500u16, 0x0700]);
    if ch.flag() {
        let m = any_meter(ch, all || ch.thorough);
        return (sealed(k, &m, cfg, &plaintext(33), 0), Some(KEY));
    }
    let mut plain = gen::any_record(ch);
    if ch.thorough {
        plain.extend(gen::between(ch));
        plain.extend(gen::any_record(ch));
    }
    plain.extend([0x02, 0x5B, 0x17, 0x01]);
    let framing = ch.n(2);
    (sealed(k, &METER, cfg, &plain, framing), ch.of(&[None, Some(KEY), Some([0x11; 16])]))
}

fn c12_iv(ch: &mut Ch) -> Res {
    let k = ch.of(&OPEN);
    let m = any_meter(ch, true);
    let plain = plaintext(33);
    let d = sealed(k, &m, 0x0500, &plain, 0);
    if model::bcd_id(&m.id).is_none() || model::manufacturer(m.mfr).is_none() {
        return compare(ch, &d, Some(KEY), &PARTS);
    }
    opened(ch, &d, &plain)
}

fn c12_identity(ch: &mut Ch) -> Res {
    let k = ch.of(&[WiredLong, RadioLong, RadioShort, RadioEllShort]);
    let mut m = METER;
    m.mfr = (ch.n(256) << 8 | ch.n(256)) as u16;
    m.acc = ch.of(&[0u8, 1, 255]);
    let plain = plaintext(20);
    let d = sealed(k, &m, 0x0500, &plain, 0);
    if model::manufacturer(m.mfr).is_none() {
        return compare(ch, &d, Some(KEY), &PARTS);
    }
    opened(ch, &d, &plain)
}

fn c12_key(ch: &mut Ch) -> Res {
    let k = ch.of(&[WiredLong, RadioShort]);
    let mut key = KEY;
    let mut cipher = seal(k, &METER, 0x0500, &plaintext(50), &KEY);
    let i = ch.n(16);
    let b = ch.byte();
    match ch.n(4) {
        0 => key[i] = b,
        j => cipher[16 * (j - 1) + i] = b,
    }
    let d = telegram(k, &METER, 0x0500, &cipher, 0);
    compare(ch, &d, Some(key), &PARTS)
}

fn c12_records(ch: &mut Ch) -> Res {
    let k = ch.of(&[WiredLong, WiredLongMsb, RadioLong, RadioShort, RadioEllShort, RadioEllLong]);
    let mut plain = gen::any_record(ch);
    plain.extend(gen::between(ch));
    plain.extend(gen::any_record(ch));
    let cfg = ch.of(&[0x0500u16, 0x0700, 0x0510]);
    let d = sealed(k, &METER, cfg, &plain, 0);
    if ch.flag() {
        let mut wrong = KEY;
        wrong[15] ^= 1;
        return compare(ch, &d, Some(wrong), &PARTS);
    }
    opened(ch, &d, &plain)
}

fn c12_config(ch: &mut Ch) -> Res {
    let k = ch.of(&[WiredLong, RadioLong, RadioShort, WiredShort]);
    let cfg = (ch.n(256) << 8 | ch.n(256)) as u16;
    let d = telegram(k, &METER, cfg, &plaintext(37), 0);
    let key = ch.flag().then_some(KEY);
    compare(ch, &d, key, &PARTS)
}

fn err_name(e: &DecryptionError) -> &'static str {
    match e {
        DecryptionError::UnsupportedMode(_) => "mode",
        DecryptionError::KeyNotFound => "key",
        DecryptionError::InvalidDataLength => "length",
        DecryptionError::NotEncrypted => "clear",
        DecryptionError::UnknownEncryptionState => "state",
        _ => "other",
    }
}

fn c12_api(ch: &mut Ch) -> Res {
    let mode = ch.n(32) as u8;
    let n = ch.n(53);
    let size = ch.of(&[0usize, 1, n.saturating_sub(16), n.saturating_sub(1), n, n + 1, n + 16, 64, 255]);
    let known = ch.flag();
    ch.note(|| format!("mode={mode} data={n} bytes buffer={size} key known={known}"));
    let plain = gen::pattern(n, 3);
    let iv = if mode == 5 { iv5(METER.mfr, 12345678, 9, 7, 0x50) } else { [0; 16] };
    let cipher = if mode == 0 { plain.clone() } else { aes::cbc_encrypt(&KEY, &iv, &plain) };
    let Ok(manufacturer) = ManufacturerCode::from_id(METER.mfr) else {
        return fail("manufacturer", "valid code refused");
    };
    let ctx = KeyContext {
        manufacturer,
        identification_number: 12345678,
        version: 9,
        device_type: DeviceType::from(7),
        security_mode: SecurityMode::from_bits(mode),
        access_number: 0x50,
    };
    let mut store = StaticKeyProvider::<2>::new();
    let _ = store.add_key(METER.mfr, 87654321, [1; 16]);
    if known {
        let _ = store.add_key(METER.mfr, 12345678, KEY);
    }
    let mut buf = vec![0xC9u8; size];
    let r = EncryptedPayload::new(&cipher, ctx).decrypt_into(&store, &mut buf);
    ch.ok();
    let supported = matches!(mode, 0 | 5 | 7);
    match r {
        Ok(len) => {
            if !known || !supported || size < n || (n == 0 && mode != 0) {
                return fail("accepted", format!("{len} bytes although key known={known}, mode={mode}, buffer {size} of {n}"));
            }
            if len != n || buf[..n] != plain[..] {
                return fail("plaintext", format!("decrypted {} bytes to {}, sent {}", len, hex(&buf[..n.min(size)]), hex(&plain)));
            }
            if buf[n..].iter().any(|b| *b != 0xC9) {
                return fail("overrun", "bytes behind the plaintext were changed");
            }
            out(&(mode, buf))
        }
        Err(e) => {
            if known && supported && size >= n && !(n == 0 && mode != 0) {
                return fail("refused", format!("{e:?} for mode {mode}, {n} bytes, buffer {size}"));
            }
            let ok = match err_name(&e) {
                "key" => !known,
                "mode" => !supported,
                "length" => size < n || n == 0,
                _ => false,
            };
            if !ok {
                return fail("error", format!("{e:?} for key known={known}, mode {mode}, {n} bytes, buffer {size}"));
            }
            if buf.iter().any(|b| *b != 0xC9) {
                return fail("bytes", "bytes were delivered together with an error");
            }
            refused(&err_name(&e))
        }
    }
}

fn c12_block_api(ch: &mut Ch) -> Res {
    let ci = ch.byte();
    let mode = ch.of(&[0u8, 5, 7, 13]);
    let n = ch.of(&[0usize, 1, 15, 16, 17, 32, 40]);
    let mut p = match ci {
        0x72 | 0x76 => header(if ci == 0x72 { WiredLong } else { WiredLongMsb }, &METER, u16::from(mode) << 8),
        0x8C => header(if ch.flag() { RadioEllShort } else { RadioEllLong }, &METER, u16::from(mode) << 8),
        0xA0 => header(RadioA0, &METER, u16::from(mode) << 8),
        0x7A | 0xA1..=0xAF => {
            let mut v = header(RadioShort, &METER, u16::from(mode) << 8);
            v[0] = ci;
            v
        }
        _ => vec![ci, 0x12, 0x34, 0x56, 0x78, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x10, 0x11, 0x12],
    };
    let plain = gen::pattern(n, 9);
    let iv = if mode == 5 { iv5(METER.mfr, 12345678, METER.version, METER.device, METER.acc) } else { [0; 16] };
    p.extend(if mode == 0 { plain.clone() } else { aes::cbc_encrypt(&KEY, &iv, &plain) });
    let size = ch.of(&[0usize, n.saturating_sub(1), n, n + 5, 256]);
    let known = ch.flag();
    let with_context = ch.flag();
    ch.note(|| format!("application data={} buffer={size} key known={known} context given={with_context}", hex(&p)));
    let Ok(block) = UserDataBlock::try_from(p.as_slice()) else {
        ch.ok();
        return if model::app(&p).is_none() { refused(&"unsupported") } else { fail("rejected", "application data rejected") };
    };
    let mut store = StaticKeyProvider::<2>::new();
    if known {
        let _ = store.add_key(METER.mfr, 12345678, KEY);
    }
    let mut buf = vec![0xC9u8; size];
    let Ok(man) = ManufacturerCode::from_id(METER.mfr) else {
        return fail("manufacturer", "valid code refused");
    };
    let r = if with_context {
        block.decrypt_variable_data_with_context(&store, man, 12345678, METER.version, DeviceType::from(METER.device), &mut buf)
    } else {
        block.decrypt_variable_data(&store, &mut buf)
    };
    ch.ok();
    let kind = model::app(&p);
    let usable = match kind {
        Some(model::App::Long { .. }) => true,
        Some(model::App::Short { .. }) => with_context,
        _ => false,
    };
    let should = usable && known && matches!(mode, 5 | 7) && size >= n && n > 0;
    match r {
        Ok(len) => {
            if !should {
                return fail("accepted", format!("{len} bytes delivered"));
            }
            if len != n || buf[..n] != plain[..] {
                return fail("plaintext", format!("delivered {}, sent {}", hex(&buf[..len.min(size)]), hex(&plain)));
            }
            out(&(ci, mode, buf))
        }
        Err(e) => {
            if should {
                return fail("refused", format!("{e:?}"));
            }
            if buf.iter().any(|b| *b != 0xC9) {
                return fail("bytes", "bytes were delivered together with an error");
            }
            refused(&(err_name(&e), ci))
        }
    }
}

fn history<const N: usize>(ch: &mut Ch, ops: &[(u16, u32, u8)]) -> Res {
    let mut store = StaticKeyProvider::<N>::new();
    let mut list: Vec<(u16, u32, u8)> = Vec::new();
    let probes: [(u16, u32); 7] = [(0x4024, 1), (0x4024, 2), (0x1593, 1), (0x1593, 2), (0x4024, 0), (0x4025, 1), (0x0421, 0)];
    let mut seen = Vec::new();
    for (m, id, k) in std::iter::once(None).chain(ops.iter().map(Some)).map(|o| o.copied().unwrap_or((0, 0, 255))) {
        if k != 255 {
            let r = store.add_key(m, id, [k; 16]);
            ch.ok();
            if list.len() < N {
                if let Err(e) = r {
                    return fail("add", format!("key {} of {N} refused: {e:?}", list.len() + 1));
                }
                list.push((m, id, k));
            } else if r.is_ok() {
                return fail("add", format!("key accepted beyond the capacity of {N}"));
            }
        }
        for (m, id) in probes {
            let Ok(manufacturer) = ManufacturerCode::from_id(m) else {
                return fail("manufacturer", "valid code refused");
            };
            let ctx = KeyContext {
                manufacturer,
                identification_number: id,
                version: 0,
                device_type: DeviceType::from(7),
                security_mode: SecurityMode::from_bits(5),
                access_number: 0,
            };
            let want = list.iter().find(|e| (e.0, e.1) == (m, id)).map(|e| e.2);
            ch.ok();
            let got = match store.get_key(&ctx) {
                Ok(k) if k.len() == 16 && k.iter().all(|b| *b == k[0]) => Some(k[0]),
                Ok(k) => return fail("lookup", format!("key {}", hex(k))),
                Err(DecryptionError::KeyNotFound) => None,
                Err(e) => return fail("lookup", format!("{e:?}")),
            };
            if got != want {
                return fail("lookup", format!("key {got:?} for meter {m:04X}/{id} after {list:?}, expected {want:?}"));
            }
            seen.push(got);
        }
    }
    out(&(N, seen, list.len()))
}

fn c12_store(ch: &mut Ch) -> Res {
    let cap = ch.n(5);
    let n = ch.n(ch.tier(6, 7));
    const OPS: [(u16, u32, u8); 6] = [(0x4024, 1, 1), (0x4024, 1, 2), (0x4024, 2, 3), (0x1593, 1, 4), (0x1593, 2, 5), (0x4024, 0, 0)];
    let ops: Vec<_> = (0..n).map(|_| ch.of(&OPS)).collect();
    ch.note(|| format!("capacity={cap} additions={ops:?}"));
    match cap {
        0 => history::<0>(ch, &ops),
        1 => history::<1>(ch, &ops),
        2 => history::<2>(ch, &ops),
        3 => history::<3>(ch, &ops),
        _ => history::<4>(ch, &ops),
    }
}

/// Meter `i` of a fleet: manufacturer id, identification number.
fn meter(pattern: usize, i: usize) -> (u16, u32) {
    let n = i as u32;
    match pattern {
        0 => (0x4024, n),
        1 => (0x4024, 99_999_999 - n),
        2 => (0x4024, n * 65_536 % 100_000_000 + n / 1525),
        3 => (0x0421 + (n % 26) as u16 + 32 * (n / 26) as u16, 12_345_678),
        4 => ([0x4024, 0x1593, 0x0421][i % 3], n / 3),
        5 => (0x4024, n / 2),
        6 => (0x1593, (n * 7919 + 13) % 257),
        _ => (0x4024, 0xFFFF_FFFF - n * 256),
    }
}

fn fleet<const N: usize>(ch: &mut Ch) -> Res {
    let pattern = ch.n(8);
    let n = ch.n(N + 3);
    ch.note(|| format!("capacity={N} additions={n} pattern={pattern}"));
    let mut store = StaticKeyProvider::<N>::new();
    let mut list: Vec<((u16, u32), [u8; 16])> = Vec::new();
    for i in 0..n {
        let (m, id) = meter(pattern, i);
        let key: [u8; 16] = std::array::from_fn(|p| (i * (2 * p + 1) + p + (i >> 8)) as u8);
        let r = store.add_key(m, id, key);
        ch.ok();
        if r.is_ok() != (i < N) {
            return fail("add", format!("addition {} to a store of {N}: {r:?}", i + 1));
        }
        if i < N {
            list.push(((m, id), key));
        }
    }
    let mut first = std::collections::HashMap::new();
    for (who, key) in &list {
        first.entry(*who).or_insert(*key);
    }
    for i in 0..n.max(2) {
        let (m, id) = meter(pattern, i);
        let near = (0..32).map(|b| (m, id ^ 1 << b)).chain((0..15).map(|b| (m ^ 1 << b, id)));
        for (m, id) in std::iter::once((m, id)).chain(near) {
            let Ok(manufacturer) = ManufacturerCode::from_id(m) else {
                continue;
            };
            let ctx = KeyContext {
                manufacturer,
                identification_number: id,
                version: i as u8,
                device_type: DeviceType::from(7),
                security_mode: SecurityMode::from_bits(5),
                access_number: 0,
            };
            ch.ok();
            let (got, want) = (store.get_key(&ctx), first.get(&(m, id)));
            if !match (&got, want) {
                (Ok(k), Some(w)) => *k == w,
                (Err(DecryptionError::KeyNotFound), None) => true,
                _ => false,
            } {
                return fail("lookup", format!("{got:?} for meter {m:04X}/{id} among {} keys, expected {want:?}", list.len()));
            }
        }
    }
    out(&(N, pattern, n))
}

fn c12_fleet(ch: &mut Ch) -> Res {
    match ch.n(6) {
        0 => fleet::<5>(ch),
        1 => fleet::<8>(ch),
        2 => fleet::<16>(ch),
        3 => fleet::<33>(ch),
        4 => fleet::<64>(ch),
        _ => fleet::<257>(ch),
    }
}

// ------------------------------------------------------------------------------------------- C23

/// The view the model expects: bytes, segments, and whether the plaintext is shown.
fn view(d: &[u8], m: Option<&MOut>) -> Option<(Vec<u8>, Vec<seg::Seg>, bool)> {
    let o = Opt { skip_7c: true, ..model::opt() };
    let plain = match m.and_then(|m| m.decrypted.as_ref()) {
        Some(p) => p,
        None => return Some((d.to_vec(), seg::segments(d, false, o)?, false)),
    };
    let m = m.unwrap();
    let b = if m.protocol == "wired" {
        let mut b = d.to_vec();
        let end = b.len() - 2;
        b[end - plain.len()..end].copy_from_slice(plain);
        b[end] = model::checksum(&b[4..end]);
        b
    } else {
        let mut b = m.normalized.clone();
        if let Some(c) = model::trailing_crc(&b) {
            b.truncate(c);
        }
        let end = b.len();
        b[end - plain.len()..].copy_from_slice(plain);
        b[0] = (end - 1) as u8;
        b
    };
    let s = seg::segments(&b, true, o)?;
    Some((b, s, true))
}

fn seg_rows(v: &Value) -> Vec<(usize, usize, String, Option<u64>, String)> {
    let camel = |s: &str| s.split('_').map(|w| w[..1].to_ascii_uppercase() + &w[1..]).collect::<String>();
    v.as_array()
        .into_iter()
        .flatten()
        .map(|s| {
            (
                s["start"].as_u64().unwrap_or(u64::MAX) as usize,
                s["end"].as_u64().unwrap_or(0) as usize,
                camel(s["kind"].as_str().unwrap_or("??")),
                s["group"].as_u64(),
                camel(s["layer"].as_str().unwrap_or("??")),
            )
        })
        .collect()
}

fn seg_want(s: &[seg::Seg]) -> Vec<(usize, usize, String, Option<u64>, String)> {
    s.iter().map(|s| (s.start, s.end, s.kind.to_string(), s.group.map(|g| g as u64), s.layer.to_string())).collect()
}

fn bytes_of(v: &Value) -> Vec<u8> {
    v.as_array().into_iter().flatten().map(|b| b.as_u64().unwrap_or(0) as u8).collect()
}

fn c23(ch: &mut Ch, d: &[u8], key: Option<[u8; 16]>) -> Res {
    ch.note(|| format!("bytes={}{}", hex(d), key.map(|k| format!(" key={}", hex(&k))).unwrap_or_default()));
    let o = Opt { skip_7c: true, ..model::opt() };
    let got = render_bytes(d, OutputFormat::Annotated, &RenderOptions { decode: options(key), table_width: None });
    ch.ok();
    let closed = model::decode(d, None, o);
    let t = match (&got, &closed) {
        (Err(_), Err(_)) => return refused(&d.len()),
        (Err(e), Ok(_)) => return fail("refused", e.code().to_string()),
        (Ok(_), Err(_)) => return fail("accepted", "view of a rejected telegram"),
        (Ok(t), Ok(_)) => t,
    };
    let v: Value = match serde_json::from_str(t) {
        Ok(v) => v,
        Err(e) => return fail("json", e.to_string()),
    };
    let m = model::decode(d, key.as_ref(), o).ok();
    if m.as_ref().is_some_and(|m| m.recs.overflow) {
        return refused(&"capacity");
    }
    let Some((bytes, segs, shown)) = view(d, m.as_ref()) else {
        return refused(&"plaintext changes the framing");
    };
    if v["decrypted"] != Value::Bool(shown) {
        return fail("decrypted", format!("decrypted is {}, expected {shown}", v["decrypted"]));
    }
    if bytes_of(&v["bytes"]) != bytes {
        return fail("bytes", format!("view {}, expected {}", hex(&bytes_of(&v["bytes"])), hex(&bytes)));
    }
    let (a, b) = (seg_rows(&v["segments"]), seg_want(&segs));
    if a != b {
        let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        return fail("segment", format!("segment {i}: {:?}, model {:?}", a.get(i), b.get(i)));
    }
    for (s, w) in v["segments"].as_array().into_iter().flatten().zip(&segs) {
        let detail = s["detail"].as_str().unwrap_or("");
        if !w.quotes(detail) {
            return fail("detail", format!("{} at {}..{} is described as {detail:?}", w.kind, w.start, w.end));
        }
    }
    if shown {
        if bytes_of(&v["original"]["bytes"]) != d {
            return fail("original", "the original bytes are not the telegram");
        }
        let Some(os) = seg::segments(d, false, o) else {
            return fail("model", "no segments");
        };
        if seg_rows(&v["original"]["segments"]) != seg_want(&os) {
            return fail("original", "segments of the original");
        }
        // the view decodes to the same link and header
        let Ok(w) = decode(&bytes, None) else {
            return fail("frame", "the view is not a valid frame");
        };
        if Some(w.protocol.as_str()) != m.as_ref().map(|m| m.protocol) {
            return fail("frame", "the view is a frame of another kind");
        }
    } else if !v["original"].is_null() {
        return fail("original", "original bytes in a view that is the original");
    }
    ch.ok();
    out(&(shown, b))
}

fn c23_length(ch: &mut Ch) -> Res {
    let k = ch.of(&OPEN);
    let cfg = ch.of(&[0x0500u16, 0x0710]);
    let framing = if is_wired(k) { 0 } else { ch.n(4) };
    let n = ch.n(room(k, framing) + 1);
    let plain = plaintext(n);
    let d = sealed(k, &METER, cfg, &plain, framing);
    let key = if ch.flag() { Some(KEY) } else { None };
    c23(ch, &d, key)
}

fn c23_records(ch: &mut Ch) -> Res {
    let k = ch.of(&OPEN[..8]);
    let mut plain = gen::between(ch);
    plain.extend(gen::any_record(ch));
    plain.extend(gen::any_record(ch));
    plain.extend(gen::between(ch));
    let d = sealed(k, &METER, 0x0500, &plain, 0);
    c23(ch, &d, Some(KEY))
}

fn c23_modes(ch: &mut Ch) -> Res {
    let k = ch.of(&ALL);
    let cfg = (ch.n(256) << 8 | ch.n(16) << 4) as u16;
    let plain = plaintext(50);
    let d = sealed(k, &METER, cfg, &plain, 0);
    let key = ch.flag().then_some(KEY);
    c23(ch, &d, key)
}

fn c23_bytes(ch: &mut Ch) -> Res {
    let k = ch.of(&OPEN[..8]);
    let mut d = sealed(k, &METER, 0x0500, &plaintext(24), 0);
    let i = ch.n(d.len());
    let b = ch.byte();
    d[i] = b;
    if is_wired(k) && i + 2 < d.len() && ch.flag() {
        let end = d.len() - 2;
        d[end] = model::checksum(&d[4..end]);
    }
    c23(ch, &d, Some(KEY))
}

fn c23_plain(ch: &mut Ch) -> Res {
    let k = ch.of(&[WiredLong, RadioShort]);
    let a = ch.byte();
    let mut plain = vec![a];
    if ch.flag() {
        plain.push(ch.byte());
    }
    plain.extend([0x13, 0x05, 0x00, 0x01, 0x13, 0x07, 0x2F]);
    let n = ch.of(&[16usize, 17]);
    plain.resize(n, 0x2F);
    let d = sealed(k, &METER, 0x0500, &plain, 0);
    c23(ch, &d, Some(KEY))
}

fn c23_tail(ch: &mut Ch) -> Res {
    let k = ch.of(&OPEN[..8]);
    let plain = gen::tail(ch, 210);
    let d = sealed(k, &METER, 0x0500, &plain, 0);
    c23(ch, &d, Some(KEY))
}
