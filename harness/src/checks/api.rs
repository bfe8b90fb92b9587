//! C18 partial decodes and errors, C22 agreement of the API layers.

use super::*;
use crate::gen::{self, LINK};
use crate::model::{App, Ell, Tpl};
use m_bus_parser::mbus_data::MbusData;
use m_bus_parser::user_data::data_information::DataInformationBlock;
use m_bus_parser::user_data::data_record::{DataRecord, DataRecordHeader, RawDataRecordHeader};
use m_bus_parser::user_data::value_information::ValueInformationBlock;
use m_bus_parser::user_data::{self, DataRecords, UserDataBlock};
use m_bus_parser::{render_bytes, DecodeOptions, OutputFormat, RenderOptions, WiredFrame, WirelessFrame};

pub fn spaces() -> Vec<Space> {
    vec![
        space("C18", "c18-trunc", "clear headers x every pair of 35 records with a separator, cut at every position, wired and wireless", c18_trunc),
        space("C18", "c18-head", "every truncation of every header of 14 kinds, alone and with records missing", c18_head),
        space("C18", "c18-mutate", "telegrams of 6 clear header kinds with 3 records: every payload byte replaced by every value", c18_mutate),
        space("C18", "c18-pair", "record triples: every pair of payload bytes replaced out of 8 values each", c18_pair),
        space("C18", "c18-stream", "every payload of 0..2 (thorough 3) record bytes, and of 3 with 10 first ones, behind a good record", c18_stream),
        space(
            "C18",
            "c18-errors",
            "all byte strings of length 0..2 and damaged frames of every kind: error code, layer and absence of output in all formats",
            c18_errors,
        ),
        space("C18", "c18-text", "texts of up to 5 characters out of 9: error code, layer and offset of the hex entry points", c18_text),
        space(
            "C18",
            "c18-security",
            "every security mode x 17 header kinds x key or not x ciphertext lengths 0..17: state, diagnostics or error",
            c18_security,
        ),
        space("C18", "c18-records", "record entry point: pairs of 35 records with separators cut at every position", c18_records),
        space("C18", "c18-many", "0..60 good records before each of 35 records cut at every position (quick: at 3), in a telegram", c18_many),
        space("C18", "c18-many-records", "record entry point: 0..300, 1000 and 20000 good records before a broken one of 6 kinds", c18_many_records),
        space("C18", "c18-length", "total lengths 0..700 x 4 fills x 6 starts: accepted or the same error everywhere", c18_length),
        space("C22", "c22-length", "payloads of every length up to the longest telegram x 4 contents x 4 header kinds x 5 framings", c22_length),
        space("C22", "c22-ci", "every CI byte x payload lengths 0..24 x 3 contents x 5 framings", c22_ci),
        space("C22", "c22-records", "clear headers x every pair of 35 records with separators, wired and wireless", c22_records),
        space("C22", "c22-stream", "every record stream of 0..2 (thorough 3) bytes and of 3 bytes with 10 first bytes, alone and behind a record", c22_stream),
        space("C22", "c22-tail", "manufacturer data and continuation marks of every length up to the longest telegram x 4 contents x 4 leads behind 7 header kinds, wired and Format A", c22_tail),
        space("C22", "c22-readings", "numbers of every coding x 14 value information blocks, dates, times and variable-length numbers: one data byte over every (numbers: 12) values, 4 backgrounds", c22_readings),
        space("C22", "c22-cut", "pairs of 35 records cut at every position in 3 framings", c22_cut),
        space("C22", "c22-mutate", "15 header kinds with records, wired, wireless and Format A: every byte replaced by every value", c22_mutate),
        space("C22", "c22-tiny", "all byte strings of length 0..2 (thorough 3)", c22_tiny),
        space("C22", "c22-iter", "record iterators over triples of 35 records with separators: clone at every step, calls after the end", c22_iter),
        space("C22", "c22-parts", "every DIF x 0..12 DIFEs x 6 VIFs x 0..12 VIFEs x 3 fills, one extension byte marked: header blocks of the record layer byte by byte, from both ends", c22_parts),
        space("C22", "c22-history", "every sequence of 3 (thorough 4) out of 14 calls in a fresh process against the same calls alone", c22_history),
    ]
}

// ------------------------------------------------------------------------------------------- C18

const STATE: &[&str] = &["decode_state", "diagnostics", "protocol"];

fn json(o: &DecodedOutput) -> Vec<Value> {
    o.records.iter().map(|r| serde_json::to_value(r).unwrap_or(Value::Null)).collect()
}

/// State and diagnostics of a damaged telegram against the model, and its records up to `good`
/// against those of the intact telegram.
fn damaged(ch: &mut Ch, bad: &[u8], intact: &[u8], good: usize) -> Res {
    let r = compare(ch, bad, None, STATE)?;
    let (Ok(a), Ok(b)) = (decode(bad, None), decode(intact, None)) else {
        return Ok(r);
    };
    let (a, b) = (json(&a), json(&b));
    ch.ok();
    for i in 0..good {
        if a.get(i).is_none() || a.get(i) != b.get(i) {
            return fail("before", format!("record {i} before the damage is {:?}, in the intact telegram {:?}", a.get(i), b.get(i)));
        }
    }
    Ok(r)
}

/// Number of records that lie completely in the first `len` record bytes. A marker record ends
/// the stream and is only complete with it.
fn complete(data: &[u8], len: usize) -> usize {
    let m = model::records(data, Opt { skip_7c: true, ..model::opt() });
    m.recs.iter().filter(|r| r.end <= len && (r.vi.is_some() || data[r.start] == 0x7F)).count()
}

fn framed(ch: &mut Ch, p: &[u8]) -> Vec<u8> {
    if p.is_empty() || ch.flag() {
        gen::long(0x08, 0x01, p)
    } else {
        gen::wireless(&LINK, p)
    }
}

fn c18_trunc(ch: &mut Ch) -> Res {
    let h = ch.of(&super::ann::clear_headers());
    let mut d = gen::any_record(ch);
    if ch.flag() {
        d.push(0x2F);
    }
    d.extend(gen::any_record(ch));
    let cut = ch.n(d.len() + 1);
    let intact = gen::long(0x08, 0x01, &[&h[..], &d].concat());
    let p = [&h[..], &d[..cut]].concat();
    if ch.flag() {
        let (a, b) = (gen::wireless(&LINK, &p), gen::wireless(&LINK, &[&h[..], &d].concat()));
        if super::sec::crc_by_chance(&a) || super::sec::crc_by_chance(&b) {
            return refused(&"crc");
        }
        return damaged(ch, &a, &b, complete(&d, cut));
    }
    damaged(ch, &gen::long(0x08, 0x01, &p), &intact, complete(&d, cut))
}

fn c18_head(ch: &mut Ch) -> Res {
    let h = ch.of(&super::link::headers());
    let cut = ch.n(h.len() + 1);
    let mut p = h[..cut].to_vec();
    if ch.flag() {
        p.extend([0x01, 0x13, 0x05]);
    }
    let d = framed(ch, &p);
    compare(ch, &d, None, STATE)
}

fn c18_mutate(ch: &mut Ch) -> Res {
    let h = ch.of(&super::ann::clear_headers());
    let list: &[usize] = ch.tier(&[0, 7, 9, 12, 14, 20, 24, 29], &[0, 1, 4, 5, 6, 7, 9, 12, 13, 14, 15, 17, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]);
    let r = ch.of(list);
    let mut d = vec![0x02, 0x5B, 0x17, 0x00];
    d.extend(gen::RECORDS[r]);
    d.extend([0x2F, 0x0C, 0x78, 0x78, 0x56, 0x34, 0x12]);
    let at = ch.n(d.len());
    let intact = gen::long(0x08, 0x01, &[&h[..], &d].concat());
    let mut e = d.clone();
    e[at] = ch.byte();
    damaged(ch, &gen::long(0x08, 0x01, &[&h[..], &e].concat()), &intact, complete(&d, at))
}

fn c18_pair(ch: &mut Ch) -> Res {
    const V: [u8; 8] = [0x00, 0x0D, 0x0F, 0x2F, 0x7D, 0x7F, 0x8D, 0xFF];
    let r = ch.n(gen::RECORDS.len());
    let mut d = vec![0x01, 0x13, 0x05];
    d.extend(gen::RECORDS[r]);
    d.extend([0x02, 0x5B, 0x17, 0x00]);
    let a = ch.n(d.len() - 1);
    let b = a + 1 + ch.n(d.len() - 1 - a);
    let mut e = d.clone();
    e[a] = ch.of(&V);
    e[b] = ch.of(&V);
    damaged(ch, &stream(&e), &stream(&d), complete(&d, a))
}

fn c18_stream(ch: &mut Ch) -> Res {
    let n = ch.n(ch.tier(3, 4));
    let mut d = vec![0x01, 0x13, 0x05];
    for _ in 0..n {
        d.push(ch.byte());
    }
    if !ch.thorough && n == 2 && ch.flag() {
        d.insert(3, ch.of(&[0x00u8, 0x01, 0x05, 0x09, 0x0D, 0x0F, 0x2F, 0x7F, 0x81, 0x8D]));
    }
    damaged(ch, &stream(&d), &stream(&d[..3]), 1)
}

/// Code and layer of a rejected input through every entry point.
fn rejected(ch: &mut Ch, d: &[u8], key: Option<[u8; 16]>) -> Res {
    ch.note(|| format!("bytes={}", hex(d)));
    let want = match model::decode(d, key.as_ref(), Opt { skip_7c: true, ..model::opt() }) {
        Ok(_) => return compare(ch, d, key, STATE),
        Err(c) => c,
    };
    let layer = match want.split('.').next() {
        Some("input") => "input",
        Some("frame") => "link",
        _ => "security",
    };
    match decode(d, key) {
        Ok(_) => return fail("accepted", format!("decoded although {want}")),
        Err(e) => {
            ch.ok();
            if (e.code(), e.layer(), e.byte_offset()) != (want, layer, None) {
                return fail("error", format!("{} in layer {} at {:?}, expected {want} in {layer}", e.code(), e.layer(), e.byte_offset()));
            }
            if e.to_string().trim().is_empty() {
                return fail("message", "empty error message");
            }
        }
    }
    let opt = RenderOptions { decode: DecodeOptions { key, include_enrichment: true }, table_width: Some(80) };
    for f in [OutputFormat::Table, OutputFormat::Json, OutputFormat::Yaml, OutputFormat::Csv, OutputFormat::Mermaid] {
        match render_bytes(d, f, &opt) {
            Ok(_) => return fail("rendered", format!("{f} output although {want}")),
            Err(e) if e.code() != want || e.layer() != layer => return fail("error", format!("{f}: {} in {}", e.code(), e.layer())),
            Err(_) => ch.ok(),
        }
    }
    if layer != "security" {
        for (f, c) in
            [(OutputFormat::Annotated, "annotation.failed"), (OutputFormat::AnnotatedText, "annotation.failed"), (OutputFormat::Xml, "xml.unsupported")]
        {
            match render_bytes(d, f, &opt) {
                Ok(_) => return fail("rendered", format!("{f} output although {want}")),
                Err(e) if e.code() != c => return fail("error", format!("{f}: {}", e.code())),
                Err(_) => ch.ok(),
            }
        }
    }
    refused(&(want, d.len()))
}

fn c18_errors(ch: &mut Ch) -> Res {
    let d = match ch.n(2) {
        0 => {
            let n = ch.n(3);
            (0..n).map(|_| ch.byte()).collect()
        }
        _ => {
            let p = [&[0x78u8][..], gen::RECORDS[0], gen::RECORDS[1]].concat();
            let mut d = match ch.n(5) {
                0 => gen::short(0x5B, 0x01),
                1 => gen::long(0x08, 0x01, &p),
                2 => gen::wireless(&LINK, &p),
                3 => gen::format_a(&gen::wireless(&LINK, &[&p[..], &p].concat())),
                _ => gen::long(0x53, 0x01, &p[..3]),
            };
            match ch.n(3) {
                0 => {
                    let i = ch.n(d.len());
                    d[i] = ch.byte();
                }
                1 => {
                    let n = ch.n(d.len());
                    d.truncate(n);
                }
                _ => {
                    let b = ch.byte();
                    d.push(b);
                }
            }
            d
        }
    };
    rejected(ch, &d, None)
}

fn c18_text(ch: &mut Ch) -> Res {
    let n = ch.n(6);
    let s: String = (0..n).map(|_| ch.of(&['E', '5', '0', 'x', ' ', ':', 'g', 'é', '-'])).collect();
    ch.note(|| format!("text={s:?}"));
    let want = super::text::model_hex(&s);
    let check = |e: &OutputError| -> Result<(), Fail> {
        if let Err((code, off)) = want {
            if e.code() != code || e.layer() != "input" || e.byte_offset() != off {
                return fail("error", format!("{} in {} at {:?}, expected {code} at {off:?}", e.code(), e.layer(), e.byte_offset()));
            }
        } else if e.layer() == "input" {
            return fail("error", format!("{} for a hexadecimal text", e.code()));
        }
        Ok(())
    };
    let opts = options(None);
    for k in 0..3 {
        let e = match k {
            0 => m_bus_parser::decode_hex(&s, &opts).err(),
            1 => m_bus_parser::render_hex(&s, OutputFormat::Json, &RenderOptions::default()).err(),
            _ => m_bus_parser::decode_data_records_hex(&s).err(),
        };
        ch.ok();
        match (&e, &want) {
            (Some(e), _) => check(e)?,
            (None, Err(_)) => return fail("accepted", "output for a text that is not hexadecimal"),
            (None, Ok(_)) => {}
        }
    }
    match want {
        Ok(b) => out(&b),
        Err(o) => refused(&o),
    }
}

fn c18_security(ch: &mut Ch) -> Res {
    use super::sec;
    let k = ch.of(&sec::ALL);
    let cfg = (ch.n(32) as u16) << 8 | ch.of(&[0u16, 0x10]);
    let n = ch.n(18);
    let d = sec::telegram(k, &sec::METER, cfg, &sec::plaintext(n), 0);
    if sec::crc_by_chance(&d) {
        return refused(&"crc");
    }
    let key = ch.flag().then_some(sec::KEY);
    rejected(ch, &d, key)
}

fn c18_records(ch: &mut Ch) -> Res {
    let mut d = gen::between(ch);
    d.extend(gen::any_record(ch));
    d.extend(gen::any_record(ch));
    let cut = ch.n(d.len() + 1);
    d.truncate(cut);
    record_entry(ch, &d)
}

fn record_entry(ch: &mut Ch, d: &[u8]) -> Res {
    ch.note(|| format!("records={}", hex(d)));
    let m = model::records(d, Opt { skip_7c: true, ..model::opt() });
    ch.ok();
    match (m_bus_parser::decode_data_records(d), d.is_empty(), m.error) {
        (Err(e), true, _) if e.code() == "input.empty" && e.layer() == "input" => refused(&"empty"),
        (Err(e), false, Some(o)) if e.code() == "application.records_invalid" && e.layer() == "application" => {
            if !e.to_string().contains(&o.to_string()) {
                return fail("offset", format!("{e}: first broken record starts at {o}"));
            }
            refused(&o)
        }
        (Ok(r), false, None) if r.len() == m.recs.len() => out(&r.len()),
        (r, _, e) => fail(
            "records",
            format!("{:?} records, error {:?}; model {} records, error at {e:?}", r.as_ref().map(Vec::len), r.as_ref().err().map(|e| e.code()), m.recs.len()),
        ),
    }
}

fn c18_many(ch: &mut Ch) -> Res {
    let n = ch.n(61);
    let mut d: Vec<u8> = (0..n).flat_map(|i| [0x01, 0x13, i as u8]).collect();
    let at = d.len();
    let last = gen::any_record(ch);
    d.extend(&last);
    if d.len() > 240 {
        return refused(&"longer than a telegram");
    }
    let cut = at + if ch.thorough { ch.n(last.len()) } else { ch.of(&[0, 1, last.len() - 1]) };
    damaged(ch, &stream(&d[..cut]), &stream(&d), complete(&d, cut))
}

fn c18_many_records(ch: &mut Ch) -> Res {
    let n = ch.n(303);
    let n = [1000, 20_000].get(n.wrapping_sub(301)).copied().unwrap_or(n);
    let unit = ch.of(&[&[0x01u8, 0x13, 0x05][..], &[0x2F], &[0x00, 0x13], &[0x8D, 0x40, 0x78, 0x02, 0x41, 0x42]]);
    let mut d = unit.repeat(n);
    d.extend(ch.of(&[&[0x04u8, 0x13, 0x01][..], &[0x01], &[0x81], &[0x01, 0x93], &[0x0D, 0x78, 0x05, 0x41], &[]]));
    record_entry(ch, &d)
}

fn c18_length(ch: &mut Ch) -> Res {
    let n = ch.n(701);
    let fill = |k: usize, n: usize| match k {
        0 => vec![0; n],
        1 => vec![0xFF; n],
        2 => gen::pattern(n, 0x5A),
        _ => (0..n).map(|i| [0x01, 0x13, 0x05][i % 3]).collect(),
    };
    let f = ch.n(4);
    let k = ch.n(6);
    let mut d = match k {
        0 => vec![],
        1 => vec![0x68, 0xFF, 0xFF, 0x68, 0x08, 0x01, 0x72],
        2 => vec![n as u8, 0x44, 0x93, 0x15, 0x78, 0x56, 0x34, 0x12, 0x33, 0x03, 0x78],
        3 => vec![0xE5],
        4 => vec![0x10, 0x5B, 0x01, 0x5C, 0x16],
        _ => gen::wireless(&LINK, &[0x78]),
    };
    let rest = n.saturating_sub(d.len());
    d.extend(fill(f, rest));
    if k == 5 {
        // blocks with CRCs whose number the length byte cannot express
        d[0] = (d.len() - 1) as u8;
        d = gen::format_a(&d);
    } else {
        d.truncate(n);
    }
    rejected(ch, &d, None)
}

// ------------------------------------------------------------------------------------------- C22

fn same_ell(e: &Option<user_data::extended_link_layer::ExtendedLinkLayer>, m: &Option<Ell>) -> bool {
    match (e, m) {
        (None, None) => true,
        (Some(e), Some(m)) => {
            e.communication_control == m.cc
                && e.access_number == m.acc
                && e.receiver_address.as_ref().map(|r| (r.manufacturer, r.address)) == m.receiver
                && e.encryption.as_ref().map(|x| (x.session_number, x.payload_crc)) == m.session
        }
        _ => false,
    }
}

fn same_tpl(t: &user_data::ShortTplHeader, m: &Tpl) -> bool {
    t.access_number == m.acc && t.status.bits() == m.status && t.is_encrypted() == (m.mode() != 0)
}

/// Application block against the model header.
pub fn same_app(b: &UserDataBlock, m: &App, payload: &[u8]) -> bool {
    use UserDataBlock::*;
    let counter = |c: &user_data::Counter, at: usize| model::bcd_id(&payload[at..at + 4]).is_some_and(|n| c.to_string() == format!("{n:08}"));
    match (b, m) {
        (ResetAtApplicationLevel { subcode }, App::Reset) => {
            const NAMES: [&str; 16] = [
                "All",
                "User data",
                "Simple billing",
                "Enhanced billing",
                "Multi-tariff billing",
                "Instantaneous values",
                "Load management values",
                "Reserved",
                "Installation startup",
                "Testing",
                "Calibration",
                "Configuration updates",
                "Manufacturing",
                "Development",
                "Self-test",
                "Reserved",
            ];
            subcode.to_string() == NAMES[usize::from(payload[1] & 15)] && *subcode == user_data::ApplicationResetSubcode::from(payload[1])
        }
        (
            FixedDataStructure { identification_number, access_number, status, device_type_and_unit, counter1, counter2 },
            App::Fixed { id, acc, status: s, unit },
        ) => {
            u32::from(*identification_number) == *id
                && access_number == acc
                && status.bits() == *s
                && device_type_and_unit == unit
                && counter(counter1, 9)
                && counter(counter2, 13)
        }
        (
            VariableDataStructureWithLongTplHeader { extended_link_layer, long_tpl_header: h, variable_data_block },
            App::Long { ell, id, mfr, version, device, tpl, msb, off },
        ) => {
            same_ell(extended_link_layer, ell)
                && u32::from(h.identification_number) == *id
                && h.manufacturer.as_ref().ok().map(ToString::to_string) == model::manufacturer(*mfr)
                && h.version == *version
                && u8::from(h.device_type) == *device
                && same_tpl(&h.short_tpl_header, tpl)
                && h.lsb_order == *msb
                && *variable_data_block == &payload[*off..]
        }
        (VariableDataStructureWithShortTplHeader { extended_link_layer, short_tpl_header, variable_data_block }, App::Short { ell, tpl, off }) => {
            same_ell(extended_link_layer, ell) && same_tpl(short_tpl_header, tpl) && *variable_data_block == &payload[*off..]
        }
        (VariableDataStructureWithShortTplHeader { extended_link_layer, variable_data_block, .. }, App::EllCrypt { ell, off }) => {
            same_ell(extended_link_layer, &Some(ell.clone())) && *variable_data_block == &payload[*off..]
        }
        (VariableDataStructureWithoutTplHeader { extended_link_layer, variable_data_block }, App::NoHeader { ell, off }) => {
            same_ell(extended_link_layer, ell) && *variable_data_block == &payload[*off..]
        }
        _ => false,
    }
}

fn list(r: DataRecords) -> Vec<String> {
    r.map(|r| format!("{r:?}")).collect()
}

/// Drives one telegram through every layer.
fn layers(ch: &mut Ch, d: &[u8]) -> Res {
    ch.note(|| format!("bytes={}", hex(d)));
    let m = model::decode(d, None, Opt { skip_7c: true, ..model::opt() });
    let wired = WiredFrame::try_from(d);
    let wired_all = MbusData::<WiredFrame>::try_from(d);
    let mut buffer = [0u8; 512];
    let plain = wireless_mbus_link_layer::strip_format_a_crcs(d, &mut buffer).unwrap_or(d);
    let radio = WirelessFrame::try_from(plain);
    let radio_all = MbusData::<WirelessFrame>::try_from(plain);
    let one = decode(d, None);
    ch.ok();
    if wired.is_ok() != wired_all.is_ok() || radio.is_ok() != radio_all.is_ok() {
        return fail("accept", format!("link parsers {}/{}, combined parsers {}/{}", wired.is_ok(), radio.is_ok(), wired_all.is_ok(), radio_all.is_ok()));
    }
    if one.is_ok() != (wired.is_ok() || radio.is_ok()) || one.is_ok() != m.is_ok() {
        return fail("accept", format!("one-call decoder {}, link parsers {}/{}, model {}", one.is_ok(), wired.is_ok(), radio.is_ok(), m.is_ok()));
    }
    let (Ok(o), Ok(m)) = (one, m) else {
        return refused(&d.len());
    };
    if m.recs.overflow {
        return refused(&"overflow");
    }
    let (payload, block, records, error): (&[u8], Option<&UserDataBlock>, Option<DataRecords>, _) = match (&wired, &wired_all, &radio, &radio_all) {
        (Ok(f), Ok(all), _, _) => {
            if *f != all.frame {
                return fail("frame", format!("link parser {f:?}, combined parser {:?}", all.frame));
            }
            let p = match f {
                WiredFrame::LongFrame { data, .. } => *data,
                _ => {
                    if all.user_data.is_some() || all.data_records.is_some() || all.application_error.is_some() || !o.records.is_empty() {
                        return fail("frame", "application data without a long frame");
                    }
                    return out(&(d.len(), o.frame.kind));
                }
            };
            (p, all.user_data.as_ref(), all.data_records.clone(), all.application_error)
        }
        (_, _, Ok(f), Ok(all)) => {
            if *f != all.frame {
                return fail("frame", format!("link parser {f:?}, combined parser {:?}", all.frame));
            }
            if o.frame.control_field.as_deref() != Some(&format!("{:02X}", f.control_field)) {
                return fail("frame", "control field");
            }
            (f.data, all.user_data.as_ref(), all.data_records.clone(), all.application_error)
        }
        _ => return fail("accept", "unreachable"),
    };
    if m.payload.as_deref() != Some(payload) {
        return fail("payload", format!("link payload {}, model {:?}", hex(payload), m.payload.map(|p| hex(&p))));
    }
    // application layer
    let a = UserDataBlock::try_from(payload);
    if a != user_data::parse_application_layer(payload) || a.as_ref().ok() != block || a.as_ref().err() != error.as_ref() {
        return fail("application", format!("application parser {a:?}, combined parser {block:?} {error:?}"));
    }
    ch.ok();
    match (&a, &m.app) {
        (Err(_), None) => {}
        (Ok(b), Some(w)) if same_app(b, w, payload) => {}
        _ => return fail("application", format!("{a:?}, model {:?}", m.app)),
    }
    // records
    let Ok(b) = a else {
        return out(&(d.len(), "no application"));
    };
    let layered = b.data_records();
    let readable = m.record_data.is_some();
    if layered.is_some() != readable {
        return fail("records", format!("application layer offers records: {}, model {readable}", layered.is_some()));
    }
    let Some(layered) = layered else {
        if !o.records.is_empty() {
            return fail("records", "one-call decoder has records the application layer has not");
        }
        return out(&(d.len(), "closed"));
    };
    let Some(combined) = records else {
        return fail("records", "combined parser has no records");
    };
    let (l, c) = (list(layered.clone()), list(combined.clone()));
    if l != c {
        return fail("records", format!("application layer {l:?}, combined parser {c:?}"));
    }
    let data = m.record_data.as_deref().unwrap_or(&[]);
    let direct = match &b {
        UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header, .. } => list(user_data::parse_data_records_with_header(data, long_tpl_header)),
        _ => list(user_data::parse_data_records(data)),
    };
    if l != direct {
        return fail("records", format!("application layer {l:?}, record parser {direct:?}"));
    }
    ch.ok();
    if !matches!(&b, UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header, .. } if long_tpl_header.lsb_order) {
        // without byte order context the bare entry points give the same
        let from = list(DataRecords::from(data));
        if l != from {
            return fail("records", format!("application layer {l:?}, records from bytes {from:?}"));
        }
        if !data.is_empty() {
            match (m_bus_parser::decode_data_records(data), m.recs.error) {
                (Ok(r), None) if serde_json::to_value(&r).ok() == serde_json::to_value(&o.records).ok() => {}
                (Err(_), Some(_)) => {}
                (r, _) => return fail("records", format!("record entry point {r:?}, decoder {:?}", o.records)),
            }
            ch.ok();
        }
    }
    let good = m.recs.recs.len();
    if l.len() != good + usize::from(m.recs.error.is_some()) || o.records.len() != good {
        return fail("records", format!("{} results and {} records, model {good} and error {:?}", l.len(), o.records.len(), m.recs.error));
    }
    let vec: Vec<user_data::DataRecord> = combined.into();
    if vec.len() != good {
        return fail("records", format!("{} collected records of {good}", vec.len()));
    }
    for (i, ((r, q), w)) in vec.iter().zip(&o.records).zip(&m.recs.recs).enumerate() {
        let same = r.raw_bytes == &data[w.start..w.end] && r.data_record_header_hex() == q.header_hex && r.data_hex() == q.data_hex;
        if !same {
            return fail("record", format!("record {i}: iterator {r:?}, decoder {q:?}"));
        }
        if let Some(d) = super::value_diff(i, r, w) {
            return fail("record", d);
        }
    }
    // repeatable
    if serde_json::to_value(decode(d, None).ok()).ok() != serde_json::to_value(Some(&o)).ok() {
        return fail("repeat", "second decode differs");
    }
    ch.ok();
    out(&(l.len(), m.recs.error, payload.len(), data))
}

pub(super) fn in_frame(ch: &mut Ch, p: &[u8]) -> Vec<u8> {
    match ch.n(5) {
        0 => gen::long(0x08, 0x01, p),
        _ if p.is_empty() => gen::long(0x53, 0x01, p),
        k => super::link::framing(k - 1, &gen::wireless(&LINK, p)),
    }
}

fn c22_ci(ch: &mut Ch) -> Res {
    let ci = ch.byte();
    let n = ch.n(25);
    let mut p = vec![ci];
    p.extend(match ch.n(3) {
        0 => vec![0x00; n],
        1 => (0..n).map(|i| [0x01u8, 0x13, 0x05][i % 3]).collect(),
        _ => gen::pattern(n, ci),
    });
    let d = in_frame(ch, &p);
    layers(ch, &d)
}

fn c22_records(ch: &mut Ch) -> Res {
    let mut hs = super::ann::clear_headers();
    hs.push(gen::long_tpl(0x76, 0));
    hs.push(super::link::headers()[9].clone());
    let mut p = ch.of(&hs);
    p.extend(gen::any_record(ch));
    p.extend(gen::between(ch));
    p.extend(gen::any_record(ch));
    let d = if ch.flag() { gen::long(0x08, 0x01, &p) } else { gen::format_a(&gen::wireless(&LINK, &p)) };
    layers(ch, &d)
}

fn c22_length(ch: &mut Ch) -> Res {
    let h = ch.of(&[vec![0x78], gen::long_tpl(0x72, 0), gen::short_tpl(0x0500), vec![0x8C, 0x00, 0x01, 0x78]]);
    let k = ch.n(5);
    let max = if k == 0 { 253 } else { super::link::ROOM[k - 1] };
    let n = ch.n(max + 1 - h.len());
    let mut p = h;
    p.extend(match ch.n(4) {
        0 => vec![0x2F; n],
        1 => (0..n).map(|i| [0x01u8, 0x13, 0x05][i % 3]).collect(),
        2 => gen::pattern(n, 3),
        _ => [0x0F, 0x00].into_iter().chain(std::iter::repeat(0x55)).take(n).collect(),
    });
    let d = if k == 0 { gen::long(0x08, 0x01, &p) } else { super::link::framing(k - 1, &gen::wireless(&LINK, &p)) };
    layers(ch, &d)
}

fn c22_stream(ch: &mut Ch) -> Res {
    let n = ch.n(ch.tier(3, 4));
    let mut p = vec![0x78];
    if ch.flag() {
        p.extend(gen::RECORDS[1]);
    }
    for _ in 0..n {
        p.push(ch.byte());
    }
    if !ch.thorough && n == 2 && ch.flag() {
        let at = p.len() - 2;
        p.insert(at, ch.of(&[0x00u8, 0x01, 0x05, 0x09, 0x0D, 0x0F, 0x2F, 0x7F, 0x81, 0x8D]));
    }
    layers(ch, &gen::long(0x08, 0x01, &p))
}

fn c22_cut(ch: &mut Ch) -> Res {
    let mut p = gen::any_record(ch);
    p.extend(gen::any_record(ch));
    let n = ch.n(p.len() + 1);
    p.truncate(n);
    p.insert(0, 0x78);
    let d = match ch.n(3) {
        0 => gen::long(0x08, 0x01, &p),
        1 => gen::wireless(&LINK, &p),
        _ => gen::format_a(&gen::wireless(&LINK, &p)),
    };
    layers(ch, &d)
}

fn c22_mutate(ch: &mut Ch) -> Res {
    let mut p = ch.of(&super::link::headers());
    p.extend([0x01, 0x13, 0x05, 0x2F, 0x0C, 0x78, 0x78, 0x56, 0x34, 0x12]);
    let k = ch.n(4);
    let keep = k == 1;
    let mut d = match k {
        0 | 1 => gen::long(0x08, 0x01, &p),
        2 => gen::wireless(&LINK, &p),
        _ => gen::format_a(&gen::wireless(&LINK, &p)),
    };
    let i = ch.n(d.len());
    d[i] = ch.byte();
    if !keep && k == 0 {
        let n = d.len();
        d[n - 2] = model::checksum(&d[4..n - 2]);
    }
    layers(ch, &d)
}

fn c22_tiny(ch: &mut Ch) -> Res {
    let n = ch.n(ch.tier(3, 4));
    let d: Vec<u8> = (0..n).map(|_| ch.byte()).collect();
    layers(ch, &d)
}

/// The bytes of a header block as its own interfaces give them.
fn c22_parts(ch: &mut Ch) -> Res {
    let dif = ch.byte();
    let n = if dif & 0x80 == 0 { 0 } else { 1 + ch.n(12) };
    let vif = ch.of(&[0x13u8, 0x6D, 0x93, 0xFD, 0xFB, 0xFF]);
    let k = if vif & 0x80 == 0 { 0 } else { 1 + ch.n(12) };
    let fill = ch.of(&[0x80u8, 0xC1, 0xFE]);
    let mut dib = vec![dif];
    dib.extend(vec![fill; n]);
    let mut vib = vec![vif];
    vib.extend(vec![fill; k]);
    match ch.n(n + k + 1) {
        0 => (),
        i if i <= n => dib[i] ^= 0x55,
        i => vib[i - n] ^= 0x55,
    }
    for (b, l) in [(&mut dib, n), (&mut vib, k)] {
        b[1..].iter_mut().for_each(|b| *b |= 0x80);
        if l > 0 {
            b[l] &= 0x7F;
        }
    }
    let d = [&dib[..], &vib, &[0x01; 8]].concat();
    ch.note(|| format!("records={}", hex(&d)));
    let Ok(b) = DataInformationBlock::try_from(&d[..]) else {
        ch.ok();
        return match DataRecord::try_from(&d[..]) {
            Ok(_) => fail("parts", "a record with a data information block that is refused alone"),
            Err(_) => refused(&n),
        };
    };
    ch.ok();
    if b.data_information_field.data != dif || b.get_size() != n + 1 || b.data_information_field.is_special_function() != (dif & 0x0F == 0x0F) {
        return fail("parts", format!("{b:?} of {} bytes", b.get_size()));
    }
    match (&b.data_information_field_extension, n) {
        (None, 0) => (),
        (Some(e), _) if n > 0 => {
            let there: Vec<u8> = e.clone().map(|e| e.data).collect();
            let mut back: Vec<u8> = e.clone().rev().map(|e| e.data).collect();
            back.reverse();
            if there != dib[1..] || back != dib[1..] {
                return fail("parts", format!("extensions {} forwards, {} backwards", hex(&there), hex(&back)));
            }
            // from both ends in turn
            let (mut it, mut lo, mut hi) = (e.clone(), 1, n);
            for step in 0..n + 2 {
                if it.len() != n.saturating_sub(step) || it.size_hint() != (it.len(), Some(it.len())) {
                    return fail("parts", format!("{} extensions left after {step} of {n}", it.len()));
                }
                let got = if step % 2 == 0 { it.next() } else { it.next_back() }.map(|e| e.data);
                let want = (step < n).then(|| if step % 2 == 0 { dib[lo] } else { dib[hi] });
                if step % 2 == 0 {
                    lo += 1;
                } else {
                    hi -= 1;
                }
                if got != want {
                    return fail("parts", format!("extension {got:02X?} taken in step {step}, expected {want:02X?}"));
                }
            }
        }
        (e, _) => return fail("parts", format!("{n} extensions given as {e:?}")),
    }
    let special = dif & 0x0F == 0x0F;
    let Ok(raw) = RawDataRecordHeader::try_from(&d[..]) else {
        return match DataRecord::try_from(&d[..]) {
            Ok(_) => fail("parts", "a record with a header that is refused alone"),
            Err(_) => refused(&(n, k)),
        };
    };
    if raw.data_information_block != b || raw.value_information_block.is_none() != special {
        return fail("parts", format!("header {raw:?}"));
    }
    if let Some(v) = &raw.value_information_block {
        let ext: Vec<u8> = v.value_information_extension.iter().flatten().map(|e| e.data).collect();
        if v.value_information.data != vif || ext != vib[1..] || v.get_size() != k + 1 || ValueInformationBlock::try_from(&d[n + 1..]).as_ref() != Ok(v) {
            return fail("parts", format!("{v:?} of {} bytes", v.get_size()));
        }
    }
    if let Ok(h) = DataRecordHeader::try_from(&d[..]) {
        if h.raw_data_record_header != raw || h.get_size() != n + 1 + if special { 0 } else { k + 1 } {
            return fail("parts", format!("header {h:?} of {} bytes", h.get_size()));
        }
        if let Ok(r) = DataRecord::try_from(&d[..]) {
            if r.data_record_header != h {
                return fail("parts", format!("record with header {:?}, alone {h:?}", r.data_record_header));
            }
        }
    } else if DataRecord::try_from(&d[..]).is_ok() {
        return fail("parts", "a record with a header that is refused alone");
    }
    out(&(dif, n, vif, k, fill))
}

fn c22_iter(ch: &mut Ch) -> Res {
    let mut d = gen::between(ch);
    d.extend(gen::any_record(ch));
    d.extend(gen::between(ch));
    d.extend(gen::any_record(ch));
    if ch.flag() {
        // a record that cannot be completed
        d.extend([0x04, 0x13, 0x01]);
    }
    ch.note(|| format!("records={}", hex(&d)));
    let m = model::records(&d, Opt { skip_7c: true, ..model::opt() });
    if m.overflow {
        return refused(&"overflow");
    }
    let all = list(DataRecords::from(&d[..]));
    let mut it = DataRecords::from(&d[..]);
    let mut seen = Vec::new();
    let starts: Vec<usize> = m.recs.iter().map(|r| r.start).chain(m.error).collect();
    for step in 0..all.len() + 3 {
        // where the next record starts, and a copy taken here
        if step < starts.len() && it.next_offset() != starts[step] {
            return fail("offset", format!("next offset {} before record {step}, model {}", it.next_offset(), starts[step]));
        }
        let rest = list(it.clone());
        if rest[..] != all[step.min(all.len())..] {
            return fail("clone", format!("copy after {step} records gives {rest:?}, expected the rest of {all:?}"));
        }
        ch.ok();
        match it.next() {
            Some(r) => seen.push(format!("{r:?}")),
            None if step < all.len() => return fail("end", format!("iteration ended after {step} of {} results", all.len())),
            None => {}
        }
    }
    if seen != all {
        return fail("fused", format!("{} results, then {:?}", all.len(), seen.get(all.len()..)));
    }
    if all.iter().position(|r| r.starts_with("Err")).is_some_and(|p| p + 1 != all.len()) {
        return fail("fused", "results after an error");
    }
    if starts.len() != all.len() {
        return fail("count", format!("{} results, model {}", all.len(), starts.len()));
    }
    out(&(all.len(), m.error))
}

/// Calls whose results must not depend on each other.
fn call(i: usize) -> String {
    use super::sec::{sealed, telegram, K, KEY, METER};
    let clear = gen::long(0x08, 0x01, &[&gen::long_tpl(0x72, 0)[..], gen::RECORDS[3], gen::RECORDS[19], gen::RECORDS[14]].concat());
    let other = gen::wireless(&LINK, &[&gen::short_tpl(0)[..], gen::RECORDS[12], gen::RECORDS[20]].concat());
    let closed = sealed(K::RadioShort, &METER, 0x0520, &super::sec::plaintext(32), 1);
    let js = |d: &[u8], key| decode(d, key).map(|o| serde_json::to_string(&o).unwrap_or_default()).unwrap_or_else(|e| e.to_string());
    let render = |d: &[u8], f: OutputFormat, key, w| {
        render_bytes(d, f, &RenderOptions { decode: DecodeOptions { key, include_enrichment: true }, table_width: w }).unwrap_or_else(|e| e.to_string())
    };
    match i {
        0 => js(&clear, None),
        1 => js(&other, None),
        2 => js(&closed, None),
        3 => js(&closed, Some(KEY)),
        4 => js(&closed, Some([0x11; 16])),
        5 => js(&telegram(K::RadioEll8D, &METER, 0, &[1, 2, 3], 0), Some(KEY)),
        6 => render(&clear, OutputFormat::Table, None, Some(60)),
        7 => render(&other, OutputFormat::Csv, None, None),
        8 => render(&closed, OutputFormat::Annotated, Some(KEY), None),
        9 => render(&clear, OutputFormat::Xml, None, None),
        10 => m_bus_parser::serialize_mbus_data(&hex(&closed), "json-legacy", Some(&KEY)),
        11 => m_bus_parser::serialize_mbus_data(&hex(&clear), "csv-wide", None),
        12 => m_bus_parser::decode_data_records(gen::RECORDS[24]).map(|r| format!("{r:?}")).unwrap_or_else(|e| e.to_string()),
        _ => js(&[0x68, 0x03, 0x03], None),
    }
}
const CALLS: usize = 14;

/// Child process: performs the calls in order and prints what each returned.
pub fn history(list: &str) {
    let v: Vec<String> = list.split(',').filter_map(|s| s.parse().ok()).map(call).collect();
    println!("{}", serde_json::to_string(&v).unwrap_or_default());
}

fn spawn(list: &[usize]) -> Vec<String> {
    let arg = list.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(",");
    let exe = std::env::current_exe().expect("own path");
    let o = std::process::Command::new(exe).args(["history", &arg]).stderr(std::process::Stdio::null()).output().expect("child process");
    serde_json::from_slice(&o.stdout).unwrap_or_default()
}

fn c22_history(ch: &mut Ch) -> Res {
    static ALONE: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let alone = ALONE.get_or_init(|| (0..CALLS).map(|i| spawn(&[i]).pop().unwrap_or_else(|| "no result".into())).collect());
    let n = ch.tier(3, 4);
    let calls: Vec<usize> = (0..n).map(|_| ch.n(CALLS)).collect();
    ch.note(|| format!("calls={calls:?}"));
    let got = spawn(&calls);
    for (k, i) in calls.iter().enumerate() {
        ch.ok();
        if got.get(k) != Some(&alone[*i]) {
            return fail("history", format!("call {i} after {:?} gives {:?}, alone {:?}", &calls[..k], got.get(k), alone[*i]));
        }
    }
    out(&calls)
}

fn c22_tail(ch: &mut Ch) -> Res {
    let mut p = ch.of(&super::ann::clear_headers());
    p.extend(gen::tail(ch, 215));
    let d = if ch.flag() { gen::long(0x08, 0x01, &p) } else { gen::format_a(&gen::wireless(&LINK, &p)) };
    layers(ch, &d)
}

fn c22_readings(ch: &mut Ch) -> Res {
    let p = gen::reading(ch);
    layers(ch, &stream(&p))
}
