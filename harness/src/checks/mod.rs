//! The checks. Every space is a bounded choice tree; `desc` states its bound.

mod ann;
pub mod api;
mod feat;
mod fmt;
mod front;
mod ident;
mod legacy;
mod link;
mod rec;
mod sec;
mod ser;
mod table;
mod text;
mod total;
mod xml;

use crate::fw::*;
use crate::model::{self, Comp, MRecs, MVal, Opt};
use m_bus_parser::output::{DecodedOutput, RecordOutput};
use m_bus_parser::user_data::{self, DataRecord};
use m_bus_parser::{DecodeOptions, OutputError};
use serde_json::Value;

pub fn spaces() -> Vec<Space> {
    let mut v = Vec::new();
    v.extend(total::spaces());
    v.extend(xml::spaces());
    v.extend(front::spaces());
    v.extend(link::spaces());
    v.extend(rec::spaces());
    v.extend(text::spaces());
    v.extend(ann::spaces());
    v.extend(table::spaces());
    v.extend(fmt::spaces());
    v.extend(sec::spaces());
    v.extend(ident::spaces());
    v.extend(api::spaces());
    v.extend(legacy::spaces());
    v.extend(feat::spaces());
    v.extend(ser::spaces());
    v
}

pub fn assumptions(prop: &str) -> Vec<&'static str> {
    let mut v = vec![
        "the reference model in harness/src/model.rs and vif.rs states the intended behaviour; it is hand-written from EN 13757 and the repository's documented output contract",
        "behaviour outside the stated bounds of the choice trees is not covered",
        "texts of diagnostics and error messages are not compared, only codes, layers and offsets",
    ];
    match prop {
        "C09" => {
            v.push("years are reported as the encoded two/three digit number; century and summer-time/time-invalid bits are not interpreted by the decoder")
        }
        "C25" => v.push("a feature set that does not compile is not compared"),
        "C10" | "C07" => v.push("floating point results are compared with relative tolerance 1e-12"),
        _ => {}
    }
    v
}

pub fn space(prop: &'static str, name: &'static str, desc: &'static str, case: Case) -> Space {
    Space { prop, name, cfg: Cfg::Std, desc, thorough_only: false, case }
}
pub fn both(mut s: Space) -> Space {
    s.cfg = Cfg::Both;
    s
}
pub fn deep(mut s: Space) -> Space {
    s.thorough_only = true;
    s
}

pub fn options(key: Option<[u8; 16]>) -> DecodeOptions {
    DecodeOptions { key, include_enrichment: false }
}

pub fn decode(d: &[u8], key: Option<[u8; 16]>) -> Result<DecodedOutput, OutputError> {
    m_bus_parser::decode_bytes(d, &options(key))
}

pub fn to_value(o: &DecodedOutput) -> Value {
    let mut v = serde_json::to_value(o).unwrap_or(Value::Null);
    model::strip_messages(&mut v);
    v
}

/// Keeps the named members of the top-level object. `a.b` selects one nested member.
pub fn project(v: &Value, members: &[&str]) -> Value {
    let mut m = serde_json::Map::new();
    for name in members {
        let got = match name.split_once('.') {
            Some((a, b)) => v.get(a).and_then(|x| x.get(b)),
            None => v.get(name),
        };
        m.insert(name.to_string(), got.cloned().unwrap_or(Value::Null));
    }
    Value::Object(m)
}

/// Compares the named parts of the canonical output with the model. Returns the outcome digest.
pub fn compare(ch: &mut Ch, d: &[u8], key: Option<[u8; 16]>, members: &[&str]) -> Res {
    ch.note(|| format!("bytes={}{}", hex(d), key.map(|k| format!(" key={}", hex(&k))).unwrap_or_default()));
    let got = decode(d, key);
    let want = model::decode(d, key.as_ref(), Opt { skip_7c: true, ..model::opt() });
    ch.ok();
    match (got, want) {
        (Err(e), Err(code)) => {
            if e.code() != code {
                return fail("error-code", format!("implementation fails with {}, model with {code}", e.code()));
            }
            refused(&code)
        }
        (Err(e), Ok(m)) => {
            if m.recs.overflow {
                return refused(&"overflow");
            }
            fail("rejected", format!("implementation fails with {}, model accepts as {}", e.code(), m.protocol))
        }
        (Ok(o), Err(code)) => fail("accepted", format!("implementation accepts as {} {}, model fails with {code}", o.protocol, o.frame.kind)),
        (Ok(o), Ok(m)) => {
            if m.recs.overflow {
                return refused(&"overflow");
            }
            let (a, b) = (project(&to_value(&o), members), project(&m.json, members));
            if let Some(diff) = model::jdiff("", &a, &b) {
                return fail("field", diff);
            }
            out(&a.to_string())
        }
    }
}

/// Decodes a record stream through a header-less long frame.
pub fn stream(data: &[u8]) -> Vec<u8> {
    let mut p = vec![0x78];
    p.extend(data);
    crate::gen::long(0x08, 0x01, &p)
}

/// Parts of a record compared by the record checks.
pub const PART: u32 = 1;
pub const DIB: u32 = 2;
pub const VAL: u32 = 4;
pub const QTY: u32 = 8;
pub const CODING: u32 = 16;

pub fn record_diff(i: usize, r: &RecordOutput, m: &model::MRec, data: &[u8], mask: u32) -> Option<String> {
    macro_rules! d {
        ($name:expr, $a:expr, $b:expr) => {
            if $a != $b {
                return Some(format!("record {i} {}: implementation {:?}, model {:?}", $name, $a, $b));
            }
        };
    }
    if mask & PART != 0 {
        d!("index", r.index, i);
        d!("header", r.header_hex, model::spaced(&data[m.start..m.data_start]));
        d!("data", r.data_hex, model::spaced(&data[m.data_start..m.end]));
    }
    if mask & DIB != 0 {
        d!("function", r.function, m.function);
        if m.vi.is_some() {
            d!("storage", r.storage_number, m.storage);
            d!("tariff", r.tariff, m.tariff);
            d!("subunit", r.subunit, m.subunit);
        }
    }
    if mask & VAL != 0 {
        d!("kind", r.value.kind, m.kind());
        match (&r.value.value, m.value()) {
            (None, None) => {}
            (Some(a), Some(b)) if model::jeq(a, &b) => {}
            (a, b) => return Some(format!("record {i} value: implementation {a:?}, model {b:?}")),
        }
    }
    if mask & QTY != 0 {
        let labels: Vec<&str> = m.vi.as_ref().map(|v| v.labels.clone()).unwrap_or_default();
        d!("quantities", r.quantities, labels);
        d!("unit", r.unit, m.vi.as_ref().and_then(|v| crate::vif::unit_text(&v.units)));
    }
    if mask & CODING != 0 {
        d!("coding", r.data_coding, m.coding);
    }
    None
}

/// Compares the unscaled value of a parsed record with the model.
pub fn value_diff(i: usize, r: &DataRecord, m: &model::MRec) -> Option<String> {
    use m_bus_parser::user_data::data_information::{DataType as T, SingleEveryOrInvalid as S};
    fn part<V: std::fmt::Debug>(s: &S<V>) -> String {
        match s {
            S::Single(v) => format!("{v:?}"),
            S::Every() => "every".into(),
            S::Invalid() => "invalid".into(),
            _ => "other".into(),
        }
    }
    const MONTHS: [&str; 12] = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];
    let close = |x: f64, y: f64| (x.is_nan() && y.is_nan()) || x == y || (x - y).abs() <= 1e-12 * y.abs();
    let time = |kind: &str, got: &[(&str, String)]| match &m.val {
        MVal::Time(k, c) => {
            let want: Vec<(&str, String)> = c
                .iter()
                .map(|(n, v)| match v {
                    Comp::Single(v) => (*n, v.to_string()),
                    Comp::Month(v) => (*n, MONTHS[usize::from(*v) - 1].to_string()),
                    Comp::Every => (*n, "every".to_string()),
                    Comp::Invalid => (*n, "invalid".to_string()),
                })
                .collect();
            *k == kind && got == want
        }
        _ => false,
    };
    let same = match (r.value(), &m.val) {
        (None, MVal::None) => true,
        (Some(T::ManufacturerSpecific(_)), MVal::Mfr) => true,
        (Some(T::Number(x) | T::LossyNumber(x)), MVal::Num(d)) => {
            close(*x, format!("{}{}", if d.neg { "-" } else { "" }, d.digits).parse().unwrap_or(f64::NAN))
        }
        (Some(T::Number(x) | T::LossyNumber(x)), MVal::Real(y)) => close(*x, f64::from(*y)),
        (Some(T::Text(t)), MVal::Text(u)) => &t.to_string() == u,
        (Some(T::Date(d, m, y)), _) => time("date", &[("day", part(d)), ("month", part(m)), ("year", part(y))]),
        (Some(T::Time(s, m, h)), _) => time("time", &[("hour", part(h)), ("minute", part(m)), ("second", part(s))]),
        (Some(T::DateTime(d, m, y, h, n)), _) => {
            time("datetime", &[("day", part(d)), ("month", part(m)), ("year", part(y)), ("hour", part(h)), ("minute", part(n))])
        }
        (Some(T::DateTimeWithSeconds(d, m, y, h, n, s)), _) => {
            time("datetime", &[("day", part(d)), ("month", part(m)), ("year", part(y)), ("hour", part(h)), ("minute", part(n)), ("second", part(s))])
        }
        _ => false,
    };
    (!same).then(|| format!("record {i} value of the record parser {:?}, model {:?}", r.value(), m.val))
}

fn records_diff(o: &DecodedOutput, m: &MRecs, data: &[u8], mask: u32) -> Option<String> {
    // the number of records before an error matters to every record check
    if o.records.len() != m.recs.len() {
        return Some(format!("{} records, model has {}", o.records.len(), m.recs.len()));
    }
    for (i, (r, q)) in o.records.iter().zip(&m.recs).enumerate() {
        if let Some(d) = record_diff(i, r, q, data, mask) {
            return Some(d);
        }
    }
    if mask & PART != 0 {
        let got: Vec<(bool, Option<usize>)> = o.diagnostics.iter().filter(|d| d.code == "application.record_partial").map(|d| (true, d.offset_start)).collect();
        let want: Vec<(bool, Option<usize>)> = m.error.iter().map(|e| (true, Some(*e))).collect();
        if got != want {
            return Some(format!("reported failure {got:?}, model {want:?}"));
        }
    }
    None
}

/// Compares records that arrive behind any application header, in the clear or encrypted, wired
/// or by radio, with the model.
pub fn check_records_in(ch: &mut Ch, data: &[u8], mask: u32) -> Res {
    let k = ch.of(&sec::OPEN);
    let shut = ch.flag();
    let mut data = data.to_vec();
    if shut {
        // whole blocks; the filler is part of the record data
        data.resize(data.len().div_ceil(16).max(1) * 16, 0x2F);
    }
    let framing = k as usize % 2;
    let cfg = match data.len() / 16 {
        _ if !shut => 0,
        n if n % 2 == 0 => 0x0500,
        n => 0x0500 | (n << 4) as u16,
    };
    let content = if shut { sec::seal(k, &sec::METER, cfg, &data, &sec::KEY) } else { data.clone() };
    let key = shut.then_some(sec::KEY);
    let d = sec::telegram(k, &sec::METER, cfg, &content, framing);
    ch.note(|| format!("bytes={} records={}", hex(&d), hex(&data)));
    if sec::crc_by_chance(&sec::telegram(k, &sec::METER, cfg, &content, 0)) {
        return refused(&"radio CRC by chance");
    }
    let o = match decode(&d, key) {
        Ok(o) => o,
        Err(e) => return fail("rejected", format!("telegram around the records rejected: {}", e.code())),
    };
    ch.ok();
    let msb = matches!(k, sec::K::WiredLongMsb | sec::K::RadioLongMsb | sec::K::RadioEllMsb | sec::K::WiredEllMsb);
    let m = model::records(&data, Opt { skip_7c: true, msb, ..model::opt() });
    if m.overflow {
        return refused(&"capacity");
    }
    if let Some(d) = records_diff(&o, &m, &data, mask) {
        return fail("record", d);
    }
    out(&(k as usize, shut, &data))
}

/// Compares the records of a stream (at most 251 bytes) with the model.
///
/// `strict_7c`: report the unconsumed unit string of VIF 0x7C as its own finding; other checks
/// follow the decoder there.
pub fn check_records(ch: &mut Ch, data: &[u8], mask: u32, strict_7c: bool) -> Res {
    ch.note(|| format!("records={}", hex(data)));
    let o = match decode(&stream(data), None) {
        Ok(o) => o,
        Err(e) => return fail("rejected", format!("frame around the records rejected: {}", e.code())),
    };
    ch.ok();
    let ideal = model::records(data, model::opt());
    let mut m = ideal;
    if m.overflow {
        return refused(&"capacity");
    }
    if m.has_7c {
        let quirk = model::records(data, Opt { skip_7c: true, ..model::opt() });
        if quirk.overflow {
            return refused(&"capacity");
        }
        if strict_7c && records_diff(&o, &m, data, mask).is_some() && records_diff(&o, &quirk, data, mask).is_none() {
            return fail("plaintext-vif-7c", "the unit string of VIF 0x7C is taken as data");
        }
        if !strict_7c {
            m = quirk;
        }
    }
    if let Some(d) = records_diff(&o, &m, data, mask) {
        return fail("record", d);
    }
    if mask & VAL != 0 {
        let parsed: Vec<DataRecord> = user_data::parse_data_records(data).flatten().collect();
        for (i, (r, q)) in parsed.iter().zip(&m.recs).enumerate() {
            if let Some(d) = value_diff(i, r, q) {
                return fail("record", d);
            }
        }
        ch.ok();
    }
    let mut h: Vec<(usize, String)> = Vec::new();
    for r in &o.records {
        h.push(match mask {
            PART => (r.header_hex.len() * 1000 + r.data_hex.len(), String::new()),
            _ => (
                (r.storage_number as usize) ^ (r.tariff as usize) << 20 ^ (r.subunit as usize) << 40,
                format!("{}{}{:?}{:?}{:?}", r.function, r.data_coding, r.quantities, r.unit, r.value.value),
            ),
        });
    }
    let d = digest(&(h, m.error));
    Ok(Out { digest: d, trivial: o.records.is_empty() })
}
