//! C26: serialised parse results say what the parsed structures hold.

use super::*;
use crate::gen::{self, LINK};
use m_bus_core::{ConfigurationField, DeviceType, Function, IdentificationNumber, ManufacturerCode, SecurityMode};
use m_bus_parser::mbus_data::MbusData;
use m_bus_parser::user_data::data_information::{DataInformationBlock, DataType as T};
use m_bus_parser::user_data::data_record::DataRecordHeader;
use m_bus_parser::user_data::extended_link_layer::ExtendedLinkLayer;
use m_bus_parser::user_data::value_information::{ValueInformation, ValueInformationBlock};
use m_bus_parser::user_data::{Counter, DataRecords, StatusField, UserDataBlock};
use m_bus_parser::{WiredFrame, WirelessFrame};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::fmt::Debug;

pub fn spaces() -> Vec<Space> {
    vec![
        space("C26", "c26-codes", "every value of every code, address, flag and configuration type, JSON and YAML", c26_codes),
        space("C26", "c26-frame", "every C byte x every A byte in short, control and long frames, and every byte of the radio link header", c26_frame),
        space("C26", "c26-header", "15 header kinds: every value of every header byte, wired and wireless", c26_header),
        space("C26", "c26-ci", "every CI byte x payload lengths 0..24 x 3 contents, wired and wireless", c26_ci),
        space("C26", "c26-record", "every DIF x every VIF x 2 (thorough 5) extension shapes x 2 data fills", c26_record),
        space("C26", "c26-vife", "every VIF of the extension tables and every VIFE behind 6 VIFs on 2 data codes", c26_vife),
        space("C26", "c26-chain", "DIFE chains of 0..12 x VIFE chains of 0..12 x 4 x 6 fills x 4 data field codes", c26_chain),
        space("C26", "c26-readings", "numbers of every coding x 14 value information blocks, dates, times and variable-length numbers", c26_readings),
        space("C26", "c26-bytes", "every two data bytes x 9 codings of numbers, dates, times, texts and manufacturer data", c26_bytes),
        space("C26", "c26-records", "every pair of 35 records with separators behind 9 headers, JSON and YAML", c26_records),
        space("C26", "c26-cut", "pairs of 35 records cut at every position", c26_cut),
        space("C26", "c26-long", "long texts, repeated records, manufacturer data and runs up to the longest telegram", c26_long),
    ]
}

/// A value that can be read back is read back as itself.
fn trip<V: Serialize + DeserializeOwned + Debug>(ch: &mut Ch, v: &V) -> Result<(), Fail> {
    ch.ok();
    let j = serde_json::to_string(v).map_err(|e| e.to_string());
    let back = j.clone().and_then(|j| serde_json::from_str::<V>(&j).map_err(|e| e.to_string()));
    same(v, &j, &back)
}

fn trip_yaml<V: Serialize + DeserializeOwned + Debug>(ch: &mut Ch, v: &V) -> Result<(), Fail> {
    trip(ch, v)?;
    let j = serde_yaml::to_string(v).map_err(|e| e.to_string());
    let back = j.clone().and_then(|j| serde_yaml::from_str::<V>(&j).map_err(|e| e.to_string()));
    same(v, &j, &back)
}

fn same<V: Debug>(v: &V, text: &Result<String, String>, back: &Result<V, String>) -> Result<(), Fail> {
    match back {
        Ok(b) if format!("{b:?}") == format!("{v:?}") => Ok(()),
        b => fail("trip", format!("{v:?} written as {text:?} is read back as {b:?}")),
    }
}

/// The part of a serialised structure at `path` is the serialised form of `v`.
fn holds<V: Serialize + Debug>(whole: &Value, path: &[&str], v: &V) -> Result<(), Fail> {
    let at = path.iter().try_fold(whole, |w, k| w.get(k));
    match (at, serde_json::to_value(v)) {
        (Some(a), Ok(b)) if *a == b => Ok(()),
        (a, b) => fail("part", format!("{path:?} is {a:?}, the structure holds {v:?}, which is {b:?}")),
    }
}

fn text(whole: &Value, path: &[&str], bytes: &[u8]) -> Result<(), Fail> {
    let at = path.iter().try_fold(whole, |w, k| w.get(k)).and_then(Value::as_str);
    let want: String = bytes.iter().map(|b| format!("{b:02X}")).collect();
    if at.is_some_and(|a| a.eq_ignore_ascii_case(&want)) {
        return Ok(());
    }
    fail("hex", format!("{path:?} is {at:?}, the bytes are {want}"))
}

/// An object has these fields; a single one names the variant and is alone.
fn fields(v: &Value, names: &[&str]) -> Result<(), Fail> {
    let have: Vec<&str> = v.as_object().map(|o| o.keys().map(String::as_str).collect()).unwrap_or_default();
    if names.iter().all(|n| have.contains(n)) && (names.len() > 1 || have.len() == 1) {
        return Ok(());
    }
    fail("fields", format!("fields {have:?}, expected {names:?}"))
}

fn value<V: Serialize>(v: &V) -> Result<Value, Fail> {
    serde_json::to_value(v).map_err(|e| Fail { key: "write".into(), msg: e.to_string() })
}

/// The reading of a record. `whole` is the serialised reading.
fn reading(ch: &mut Ch, whole: &Value, r: &DataRecord) -> Result<(), Fail> {
    let Some(v) = r.value() else {
        return if whole.is_null() { Ok(()) } else { fail("reading", format!("no reading is written as {whole}")) };
    };
    let (kind, parts): (&str, Vec<Value>) = match v {
        T::Number(x) | T::LossyNumber(x) => {
            let kind = if matches!(v, T::Number(_)) { "Number" } else { "LossyNumber" };
            let back = &whole[kind];
            let close = |y: f64| y == *x || (y - x).abs() <= 1e-15 * x.abs();
            let ok = if x.is_finite() { back.as_f64().is_some_and(close) } else { back.is_null() && whole.get(kind).is_some() };
            return if ok { fields(whole, &[kind]) } else { fail("reading", format!("{v:?} is written as {whole}")) };
        }
        T::Text(t) => {
            return if whole["Text"].as_str() == Some(&t.to_string()) {
                fields(whole, &["Text"])
            } else {
                fail("reading", format!("{:?} is written as {whole}", t.to_string()))
            };
        }
        T::ManufacturerSpecific(b) => {
            text(whole, &["ManufacturerSpecific"], b)?;
            return fields(whole, &["ManufacturerSpecific"]);
        }
        T::Date(d, m, y) => {
            trip(ch, &(d.clone(), m.clone(), y.clone()))?;
            ("Date", vec![value(d)?, value(m)?, value(y)?])
        }
        T::Time(s, m, h) => {
            trip(ch, &(s.clone(), m.clone(), h.clone()))?;
            ("Time", vec![value(s)?, value(m)?, value(h)?])
        }
        T::DateTime(d, m, y, h, n) => {
            trip(ch, &(d.clone(), m.clone(), y.clone(), h.clone(), n.clone()))?;
            ("DateTime", vec![value(d)?, value(m)?, value(y)?, value(h)?, value(n)?])
        }
        T::DateTimeWithSeconds(d, m, y, h, n, s) => {
            trip(ch, &(d.clone(), m.clone(), y.clone(), h.clone(), n.clone(), s.clone()))?;
            ("DateTimeWithSeconds", vec![value(d)?, value(m)?, value(y)?, value(h)?, value(n)?, value(s)?])
        }
        _ => return Ok(()),
    };
    if whole.get(kind) != Some(&Value::Array(parts)) {
        return fail("reading", format!("{v:?} is written as {whole}"));
    }
    fields(whole, &[kind])
}

fn record(ch: &mut Ch, r: &DataRecord) -> Result<Value, Fail> {
    let w = value(r)?;
    ch.ok();
    fields(&w, &["data_record_header", "data", "raw_bytes"])?;
    text(&w, &["raw_bytes"], r.raw_bytes)?;
    holds(&w, &["data", "size"], &r.data.size)?;
    trip(ch, &r.data_record_header.processed_data_record_header)?;
    holds(&w, &["data_record_header", "processed_data_record_header"], &r.data_record_header.processed_data_record_header)?;
    if let Some(b) = &r.data_record_header.raw_data_record_header.value_information_block {
        trip(ch, b)?;
    }
    let raw = &w["data_record_header"]["raw_data_record_header"];
    holds(&w, &["data_record_header", "raw_data_record_header"], &r.data_record_header.raw_data_record_header)?;
    let dib = &r.data_record_header.raw_data_record_header.data_information_block;
    let n = 1 + dib.data_information_field_extension.iter().flat_map(|e| e.clone()).count();
    let mut bytes = vec![&raw["data_information_block"]["data_information_field"]["data"]];
    bytes.extend(raw["data_information_block"]["data_information_field_extension"].as_array().into_iter().flatten());
    if bytes.iter().map(|b| b.as_u64()).ne(r.raw_bytes.iter().take(n).map(|b| Some(u64::from(*b)))) {
        return fail("dib", format!("data information {} of {}", raw["data_information_block"], hex(r.raw_bytes)));
    }
    reading(ch, &w["data"]["value"], r)?;
    Ok(w)
}

/// Records one by one, and the list of them as a whole.
fn records(ch: &mut Ch, d: &[u8], yaml: bool) -> Res {
    ch.note(|| format!("records={}", hex(d)));
    let mut all = Vec::new();
    for r in DataRecords::from(d) {
        let Ok(r) = r else { break };
        all.push(record(ch, &r)?);
        if yaml {
            trip_yaml(ch, &r.data_record_header.processed_data_record_header)?;
            yaml_as_json(&r)?;
        }
    }
    ch.ok();
    if value(&DataRecords::from(d))? != Value::Array(all.clone()) {
        return fail("list", "the list of records differs from the records");
    }
    out(&format!("{all:?}"))
}

/// YAML says the same as JSON.
fn yaml_as_json<V: Serialize>(v: &V) -> Result<(), Fail> {
    let y = serde_yaml::to_value(v).map_err(|e| Fail { key: "write".into(), msg: e.to_string() })?;
    let text = serde_yaml::to_string(v).map_err(|e| Fail { key: "write".into(), msg: e.to_string() })?;
    match serde_yaml::from_str::<serde_yaml::Value>(&text) {
        Ok(b) if b == y || text.contains(".nan") => (),
        b => return fail("yaml", format!("{text:?} is read as {b:?}")),
    }
    fn plain(y: &serde_yaml::Value) -> Value {
        use serde_yaml::Value as Y;
        match y {
            Y::Null => Value::Null,
            Y::Bool(b) => Value::Bool(*b),
            Y::Number(n) => n.as_u64().map(Value::from).or(n.as_i64().map(Value::from)).unwrap_or_else(|| n.as_f64().map_or(Value::Null, Value::from)),
            Y::String(s) => Value::String(s.clone()),
            Y::Sequence(s) => Value::Array(s.iter().map(plain).collect()),
            Y::Mapping(m) => Value::Object(m.iter().map(|(k, v)| (k.as_str().unwrap_or("").to_string(), plain(v))).collect()),
            Y::Tagged(t) => Value::Object([(t.tag.to_string().trim_start_matches('!').to_string(), plain(&t.value))].into_iter().collect()),
        }
    }
    let j = value(v)?;
    if plain(&y) != j {
        return fail("yaml", format!("YAML {y:?} and JSON {j} differ"));
    }
    Ok(())
}

fn ell(ch: &mut Ch, w: &Value, e: &Option<ExtendedLinkLayer>) -> Result<(), Fail> {
    if let Some(e) = e {
        trip(ch, e)?;
    }
    holds(w, &["extended_link_layer"], e)
}

fn block(ch: &mut Ch, w: &Value, b: &UserDataBlock) -> Result<(), Fail> {
    ch.ok();
    match b {
        UserDataBlock::ResetAtApplicationLevel { subcode } => {
            trip(ch, subcode)?;
            fields(w, &["ResetAtApplicationLevel"])?;
            holds(w, &["ResetAtApplicationLevel", "subcode"], subcode)
        }
        UserDataBlock::FixedDataStructure { identification_number, access_number, status, device_type_and_unit, counter1, counter2 } => {
            let w = &w["FixedDataStructure"];
            fields(w, &["identification_number", "access_number", "status", "device_type_and_unit", "counter1", "counter2"])?;
            trip(ch, identification_number)?;
            trip(ch, counter1)?;
            trip(ch, counter2)?;
            trip(ch, status)?;
            holds(w, &["identification_number"], identification_number)?;
            holds(w, &["access_number"], access_number)?;
            holds(w, &["status"], status)?;
            holds(w, &["device_type_and_unit"], device_type_and_unit)?;
            holds(w, &["counter1"], counter1)?;
            holds(w, &["counter2"], counter2)
        }
        UserDataBlock::VariableDataStructureWithLongTplHeader { extended_link_layer, long_tpl_header: h, .. } => {
            let w = &w["VariableDataStructureWithLongTplHeader"];
            ell(ch, w, extended_link_layer)?;
            let l = &w["long_tpl_header"];
            fields(l, &["identification_number", "manufacturer", "version", "device_type", "short_tpl_header", "lsb_order"])?;
            match &h.manufacturer {
                Ok(m) => {
                    trip(ch, m)?;
                    holds(l, &["manufacturer", "Ok"], m)?;
                }
                Err(e) => holds(l, &["manufacturer", "Err"], e)?,
            }
            trip(ch, &h.identification_number)?;
            trip(ch, &h.device_type)?;
            trip(ch, &h.short_tpl_header)?;
            holds(l, &["identification_number"], &h.identification_number)?;
            holds(l, &["version"], &h.version)?;
            holds(l, &["device_type"], &h.device_type)?;
            holds(l, &["short_tpl_header"], &h.short_tpl_header)?;
            holds(l, &["lsb_order"], &h.lsb_order)
        }
        UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer, short_tpl_header, .. } => {
            let w = &w["VariableDataStructureWithShortTplHeader"];
            ell(ch, w, extended_link_layer)?;
            trip(ch, short_tpl_header)?;
            holds(w, &["short_tpl_header"], short_tpl_header)
        }
        UserDataBlock::VariableDataStructureWithoutTplHeader { extended_link_layer, .. } => {
            ell(ch, &w["VariableDataStructureWithoutTplHeader"], extended_link_layer)
        }
        _ => Ok(()),
    }
}

fn rest(ch: &mut Ch, w: &Value, user: &Option<UserDataBlock>, recs: &Option<DataRecords>) -> Result<(), Fail> {
    match user {
        Some(b) => block(ch, &w["user_data"], b)?,
        None if w["user_data"].is_null() => (),
        None => return fail("part", "user data out of nothing"),
    }
    let mut all = Vec::new();
    for r in recs.iter().flat_map(Clone::clone).map_while(Result::ok) {
        all.push(record(ch, &r)?);
    }
    let want = if recs.is_some() { Value::Array(all) } else { Value::Null };
    if w["data_records"] != want {
        return fail("list", "the records of the telegram differ from those of the record parser");
    }
    Ok(())
}

/// A telegram as both frame kinds.
fn telegram(ch: &mut Ch, d: &[u8]) -> Res {
    ch.note(|| format!("telegram={}", hex(d)));
    ch.ok();
    let mut seen = String::new();
    match WiredFrame::try_from(d) {
        Ok(f) => {
            let w = value(&f)?;
            let (name, function, address) = match &f {
                WiredFrame::SingleCharacter { character } => {
                    holds(&w, &["SingleCharacter", "character"], character)?;
                    ("SingleCharacter", None, None)
                }
                WiredFrame::ShortFrame { function, address } => ("ShortFrame", Some(*function), Some(address.clone())),
                WiredFrame::LongFrame { function, address, .. } => ("LongFrame", Some(*function), Some(address.clone())),
                WiredFrame::ControlFrame { function, address, .. } => ("ControlFrame", Some(*function), Some(address.clone())),
                _ => return refused(&"other"),
            };
            fields(&w, &[name])?;
            if let (Some(f), Some(a)) = (function, address) {
                trip(ch, &f)?;
                trip(ch, &a)?;
                holds(&w[name], &["function"], &f)?;
                holds(&w[name], &["address"], &a)?;
            }
            seen = w.to_string();
        }
        Err(e) => {
            trip(ch, &e)?;
        }
    }
    match MbusData::<WiredFrame>::try_from(d) {
        Ok(m) => {
            let w = value(&m)?;
            fields(&w, &["frame", "user_data", "data_records"])?;
            holds(&w, &["frame"], &m.frame)?;
            rest(ch, &w, &m.user_data, &m.data_records)?;
            return out(&w.to_string());
        }
        Err(e) => seen.push_str(&format!("{e:?}")),
    }
    let mut b = vec![0u8; d.len()];
    let plain = wireless_mbus_link_layer::strip_format_a_crcs(d, &mut b).unwrap_or(d);
    match WirelessFrame::try_from(plain) {
        Ok(f) => {
            let w = value(&f)?;
            fields(&w, &["control_field", "function", "manufacturer_id", "data"])?;
            trip(ch, &f.manufacturer_id)?;
            holds(&w, &["control_field"], &f.control_field)?;
            holds(&w, &["function"], &f.function)?;
            holds(&w, &["manufacturer_id"], &f.manufacturer_id)?;
            text(&w, &["data"], f.data)?;
        }
        Err(e) => {
            trip(ch, &e)?;
        }
    }
    match MbusData::<WirelessFrame>::try_from(plain) {
        Ok(m) => {
            let w = value(&m)?;
            fields(&w, &["frame", "user_data", "data_records"])?;
            holds(&w, &["frame"], &m.frame)?;
            rest(ch, &w, &m.user_data, &m.data_records)?;
            seen.push_str(&w.to_string());
        }
        Err(e) => seen.push_str(&format!("{e:?}")),
    }
    out(&seen)
}

fn c26_codes(ch: &mut Ch) -> Res {
    let (hi, b) = (ch.byte(), ch.byte());
    let word = u16::from_be_bytes([hi, b]);
    ch.note(|| format!("word={word:04X}"));
    trip_yaml(ch, &ConfigurationField::from_bytes(hi, b))?;
    if let Ok(m) = ManufacturerCode::from_id(word) {
        trip_yaml(ch, &m)?;
    }
    trip(ch, &IdentificationNumber::from_bcd_hex_digits([b, hi, b, hi]).ok())?;
    trip(ch, &Counter::from_bcd_hex_digits([hi, b, b, hi]).ok())?;
    if hi == 0 {
        trip_yaml(ch, &Function::try_from(b).ok())?;
        trip_yaml(ch, &DeviceType::from(b))?;
        trip_yaml(ch, &StatusField::from_bits_truncate(b))?;
        trip_yaml(ch, &SecurityMode::from_bits(b))?;
        trip_yaml(ch, &ConfigurationField::from_bytes(b, 0).security_mode())?;
    }
    out(&word)
}

fn c26_frame(ch: &mut Ch) -> Res {
    let (c, a) = (ch.byte(), ch.byte());
    let d = match ch.n(4) {
        0 => gen::short(c, a),
        1 => gen::long(c, a, &[]),
        2 => gen::long(c, a, &[0x78, 0x01, 0x13, 0x05]),
        _ => {
            let mut d = gen::wireless(&LINK, &[0x78, 0x01, 0x13, 0x05]);
            d[1 + usize::from(c) % 9] = a;
            d
        }
    };
    telegram(ch, &d)
}

fn c26_header(ch: &mut Ch) -> Res {
    let mut p = ch.of(&super::link::headers());
    let n = p.len();
    p.extend([0x01, 0x13, 0x05, 0x2F, 0x0C, 0x78, 0x78, 0x56, 0x34, 0x12]);
    let at = ch.n(n);
    p[at] = ch.byte();
    let d = if ch.flag() { gen::long(0x08, 0x01, &p) } else { gen::wireless(&LINK, &p) };
    telegram(ch, &d)
}

fn c26_ci(ch: &mut Ch) -> Res {
    let ci = ch.byte();
    let n = ch.n(25);
    let mut p = vec![ci];
    p.extend(match ch.n(3) {
        0 => vec![0x00; n],
        1 => (0..n).map(|i| [0x01u8, 0x13, 0x05][i % 3]).collect(),
        _ => gen::pattern(n, ci),
    });
    let d = if ch.flag() { gen::long(0x08, 0x01, &p) } else { gen::wireless(&LINK, &p) };
    telegram(ch, &d)
}

fn c26_record(ch: &mut Ch) -> Res {
    let (dif, vif) = (ch.byte(), ch.byte());
    let shape = ch.n(ch.tier(2, 5));
    let mut d = vec![dif];
    if dif & 0x80 != 0 {
        d.extend([&[0x00u8][..], &[0xFF, 0x7F], &[0x40], &[0x81, 0x82, 0x03], &[0xFF; 10]][shape]);
    }
    d.push(vif);
    if vif & 0x80 != 0 {
        d.extend([&[0x00u8][..], &[0xFD, 0x3B], &[0xFF, 0x7F], &[0x7D], &[0xFC, 0x74]][shape]);
    }
    d.extend(if ch.flag() { gen::pattern(20, 0x11) } else { vec![0x99; 20] });
    // one record is enough here
    let n = DataRecords::from(&d[..]).next().and_then(Result::ok).map_or(d.len(), |r| r.raw_bytes.len());
    d.truncate(n);
    if let Ok(h) = DataRecordHeader::try_from(&d[..]) {
        holds(&value(&h)?, &["processed_data_record_header"], &h.processed_data_record_header)?;
    }
    records(ch, &d, ch.thorough)
}

fn c26_vife(ch: &mut Ch) -> Res {
    let code = ch.of(&[0x04u8, 0x0C]);
    let first = ch.of(&[0x93u8, 0xFD, 0xFB, 0xFC, 0xFF, 0xED]);
    let mut v = vec![first, ch.byte()];
    if v[1] & 0x80 != 0 {
        v.push(ch.byte());
        if v[2] & 0x80 != 0 {
            v.push(0x3B);
        }
    }
    if let Ok(b) = ValueInformationBlock::try_from(&v[..]) {
        trip(ch, &b)?;
        if let Ok(i) = ValueInformation::try_from(&b) {
            trip(ch, &i)?;
        }
    }
    records(ch, &[&[code][..], &v, &[0x12, 0x34, 0x56, 0x78]].concat(), false)
}

fn c26_chain(ch: &mut Ch) -> Res {
    let code = ch.of(&[0x01u8, 0x0C, 0x0D, 0x05]);
    let (a, b) = (ch.n(13), ch.n(13));
    let x = ch.of(&[0x00u8, 0x40, 0x7F, 0x15]);
    let y = ch.of(&[0x3Bu8, 0x00, 0x7F, 0x7D, 0x7C, 0x22]);
    let mut d = vec![code | if a > 0 { 0x80 } else { 0 }];
    d.extend((1..=a).map(|i| x | if i < a { 0x80 } else { 0 }));
    if let Ok(i) = DataInformationBlock::try_from(&d[..]) {
        value(&i)?;
    }
    d.push(0x13 | if b > 0 { 0x80 } else { 0 });
    d.extend((1..=b).map(|i| y | if i < b { 0x80 } else { 0 }));
    d.extend([0x02, 0x31, 0x32, 0x33, 0x01, 0x13, 0x05]);
    records(ch, &d, true)
}

fn c26_readings(ch: &mut Ch) -> Res {
    let d = gen::reading(ch);
    records(ch, &d, false)
}

fn c26_bytes(ch: &mut Ch) -> Res {
    let mut d = ch.of(&[
        vec![0x02u8, 0x13],
        vec![0x0A, 0x13],
        vec![0x05, 0x5B, 0x12, 0x34],
        vec![0x02, 0x6C],
        vec![0x04, 0x6D, 0x1E, 0x0C],
        vec![0x06, 0x6D, 0x1E, 0x0C, 0x3F, 0x55],
        vec![0x03, 0x6D, 0x11],
        vec![0x0D, 0x78, 0x02],
        vec![0x0F],
    ]);
    let step = if ch.thorough { 1 } else { 3 };
    d.extend([ch.byte(), (ch.n(256 / step + 1) * step).min(255) as u8]);
    if d[1] == 0x6D && d[0] == 0x06 {
        d.extend([0x00, 0x00]);
    }
    records(ch, &d, false)
}

fn c26_records(ch: &mut Ch) -> Res {
    let mut p = gen::any_record(ch);
    p.extend(gen::between(ch));
    p.extend(gen::any_record(ch));
    if ch.flag() {
        return records(ch, &p, true);
    }
    let h = ch.of(&super::ann::clear_headers());
    let p = [&h[..], &p].concat();
    telegram(ch, &gen::long(0x08, 0x01, &p))
}

fn c26_cut(ch: &mut Ch) -> Res {
    let mut p = gen::any_record(ch);
    p.extend(gen::any_record(ch));
    let n = ch.n(p.len() + 1);
    p.truncate(n);
    telegram(ch, &stream(&p))
}

fn c26_long(ch: &mut Ch) -> Res {
    let p = match ch.n(4) {
        0 => super::table::text_record(&gen::long_text(ch)),
        1 => gen::many(ch, 240),
        2 => gen::tail(ch, 240),
        _ => gen::run(ch, 240),
    };
    records(ch, &p, false)
}
