//! C01: every entry point returns for every input. A panic, an abort or a hang of the code under
//! test is noticed by the explorer; the drivers here only have to reach the code.

use super::sec::{self, KEY, METER};
use super::*;
use crate::gen::{self, LINK};
use m_bus_parser::annotate::{annotate_and_render, annotate_frame, render_annotations};
use m_bus_parser::decryption::{DecryptionError, EncryptedPayload, KeyContext, KeyProvider, StaticKeyProvider};
use m_bus_parser::mbus_data::{parse_to_csv, parse_to_json, parse_to_mermaid, MbusData};
use m_bus_parser::user_data::data_information::{DataFieldCoding, DataInformation, DataInformationBlock, TextUnit};
use m_bus_parser::user_data::data_record::{DataRecord, DataRecordHeader, ProcessedDataRecordHeader, RawDataRecordHeader};
use m_bus_parser::user_data::extended_link_layer::{EllFormat, ExtendedLinkLayer};
use m_bus_parser::user_data::value_information::{ValueInformation, ValueInformationBlock};
use m_bus_parser::user_data::{self, Counter, DataRecords, UserDataBlock};
use m_bus_parser::{
    decode_data_records, decode_data_records_hex, decode_hex, decode_hex_bytes, render_bytes, render_hex, serialize_mbus_data, OutputFormat, RenderOptions,
    WiredFrame, WirelessFrame,
};
use std::fmt::Debug;

pub fn spaces() -> Vec<Space> {
    vec![
        space("C01", "c01-bytes", "every byte string of length 0..2 through every entry point", c01_bytes),
        space("C01", "c01-short", "every byte string of length 3 (thorough: 4 behind the start bytes) through the decoders", c01_short),
        space(
            "C01",
            "c01-ci",
            "every CI byte x 16 payload lengths up to 27 (thorough: every length 0..40) x 4 contents x 5 framings through every entry point",
            c01_ci,
        ),
        both(space("C01", "c01-record", "every DIF x every VIF x 5 extension shapes x 4 data fills, complete and cut", c01_record)),
        both(space("C01", "c01-stream", "every record stream of 0..2 (thorough 3) bytes, alone and behind a record", c01_stream)),
        both(space("C01", "c01-chain", "DIFE chains of 0..14 x VIFE chains of 0..14 x 6 fills x 4 data field codes, followed by 0, 1 or 40 bytes", c01_chain)),
        both(space("C01", "c01-vife", "every VIF table entry and VIFE pair on 3 data codes", c01_vife)),
        space("C01", "c01-lvar", "every LVAR byte x every number of available bytes 0..40 and the full length x 3 fills", c01_lvar),
        both(space(
            "C01",
            "c01-texts",
            "text readings and plain-text units of every length in 11 characters of 1 to 4 bytes at 4 alignments, all formats",
            c01_texts,
        )),
        space("C01", "c01-many", "each of 35 records repeated 0..60 (thorough 125) times in a telegram, all formats", c01_many),
        space("C01", "c01-big", "inputs of 1000 to a million bytes, 4 fills x 6 starts and 35 records repeated", c01_big),
        space("C01", "c01-date", "date and time codings F, G, I, J: every byte of boundary values", c01_date),
        space("C01", "c01-number", "integer, BCD and real boundary patterns of every width x every primary VIF x correction VIFEs", c01_number),
        space("C01", "c01-trunc", "some 40 telegrams, every truncation, every extension and every single-byte change", c01_trunc),
        space("C01", "c01-two", "telegrams with every pair of header bytes replaced by 6 boundary values", c01_two),
        space("C01", "c01-text", "every text of up to 5 characters out of 16 into every text entry point", c01_text),
        space(
            "C01",
            "c01-token",
            "texts with one token of 0..100 characters of 1 to 4 bytes at 4 alignments, 4 leads, 3 endings, into every text entry point",
            c01_token,
        ),
        space("C01", "c01-names", "every format name of up to 3 characters of a small alphabet and all near-misses of the real names", c01_names),
        space("C01", "c01-keys", "17 header kinds x all modes x block counts x ciphertext lengths 0..50 x key lengths x output buffers", c01_keys),
        space("C01", "c01-len", "total lengths 0..700 x 4 fills x 6 starts: frames longer than any buffer", c01_len),
        space("C01", "c01-width", "telegrams x widths 0..40, around the layout limits and up to the largest integer", c01_width),
        space("C01", "c01-layer", "layer entry points over every 2-byte input x 8 tails, every CI's payload truncated", c01_layer),
        space(
            "C01",
            "c01-codes",
            "manufacturer codes: every text of up to 3 characters out of 40, and registry look-ups with long and non-ASCII text",
            c01_codes,
        ),
        space("C01", "c01-highlight", "highlighter: every text of up to 4 characters out of 20 x languages", c01_highlight),
        space("C01", "c01-mixed", "segments of one telegram rendered over the bytes of another", c01_mixed),
    ]
}

const FORMATS: [OutputFormat; 8] = [
    OutputFormat::Table,
    OutputFormat::Json,
    OutputFormat::Yaml,
    OutputFormat::Csv,
    OutputFormat::Mermaid,
    OutputFormat::Xml,
    OutputFormat::Annotated,
    OutputFormat::AnnotatedText,
];

const NAMES: [&str; 13] = [
    "table",
    "json",
    "yaml",
    "csv",
    "mermaid",
    "xml",
    "annotated",
    "annotated-text",
    "json-legacy",
    "yaml-legacy",
    "csv-wide",
    "annotated-legacy",
    "hexview-legacy",
];

fn show<T: Debug>(v: &T) -> usize {
    format!("{v:?}").len()
}

fn error(e: &OutputError) -> usize {
    e.to_string().len() + e.code().len() + e.layer().len() + e.byte_offset().unwrap_or(0)
}

fn options_of(width: Option<usize>, key: Option<[u8; 16]>, enrich: bool) -> RenderOptions {
    RenderOptions { decode: DecodeOptions { key, include_enrichment: enrich }, table_width: width }
}

/// What the decoders make of the bytes; the number summarises the outcome.
fn light(d: &[u8]) -> u64 {
    let a = match decode(d, None) {
        Ok(o) => (o.records.len(), o.diagnostics.len(), show(&o)),
        Err(e) => (0, 0, error(&e)),
    };
    let b = annotate_frame(d).map(|s| s.len());
    let c = decode_data_records(d).map(|r| r.len()).map_err(|e| error(&e));
    digest(&(a, b.ok(), c))
}

fn walk(r: DataRecords, n: &mut usize) {
    let mut r = r;
    let mut guard = 0;
    loop {
        *n += r.next_offset();
        match r.next() {
            None => break,
            Some(Ok(x)) => {
                *n += show(&x) + x.get_size() + x.raw_bytes().len() + x.data_record_header_hex().len() + x.data_hex().len();
                *n += x.data.to_string().len();
                if let Some(v) = x.value() {
                    *n += show(v);
                }
                if let Some(v) = x.data_information() {
                    *n += v.to_string().len() + v.get_size();
                }
                if let Some(v) = x.value_information() {
                    *n += v.to_string().len();
                }
                *n += serde_json::to_string(&x).map(|s| s.len()).unwrap_or(0);
                *n += serde_yaml::to_string(&x).map(|s| s.len()).unwrap_or(0);
            }
            Some(Err(e)) => *n += e.to_string().len(),
        }
        guard += 1;
        if guard > 100_000 {
            // an endless iterator is a hang
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
            }
        }
    }
    *n += r.next().is_some() as usize;
}

/// The entry points of the layers below the one-call decoder.
fn layers(d: &[u8]) -> usize {
    let mut n = 0;
    match WiredFrame::try_from(d) {
        Ok(f) => n += show(&f) + serde_json::to_string(&f).map(|s| s.len()).unwrap_or(0),
        Err(e) => n += e.to_string().len(),
    }
    for size in [0usize, 11, 12, 64, 512] {
        let mut b = vec![0u8; size];
        n += wireless_mbus_link_layer::strip_format_a_crcs(d, &mut b).map_or(0, <[u8]>::len);
    }
    n += wireless_mbus_link_layer::trailing_frame_crc_start(d).unwrap_or(0);
    let mut b = vec![0u8; d.len()];
    let plain = wireless_mbus_link_layer::strip_format_a_crcs(d, &mut b).unwrap_or(d);
    match WirelessFrame::try_from(plain) {
        Ok(f) => n += show(&f) + serde_json::to_string(&f).map(|s| s.len()).unwrap_or(0),
        Err(e) => n += show(&e),
    }
    match MbusData::<WiredFrame>::try_from(d) {
        Ok(m) => {
            n += show(&m);
            n += serde_json::to_string(&m).map(|s| s.len()).unwrap_or(0) + serde_yaml::to_string(&m).map(|s| s.len()).unwrap_or(0);
            if let Some(r) = m.data_records.clone() {
                walk(r, &mut n);
            }
        }
        Err(e) => n += e.to_string().len(),
    }
    match MbusData::<WirelessFrame>::try_from(plain) {
        Ok(m) => {
            n += show(&m);
            n += serde_json::to_string(&m).map(|s| s.len()).unwrap_or(0);
            if let Some(r) = m.data_records.clone() {
                walk(r, &mut n);
            }
        }
        Err(e) => n += e.to_string().len(),
    }
    n
}

/// The application layer and record entry points.
fn inner(d: &[u8]) -> usize {
    let mut n = 0;
    match UserDataBlock::try_from(d) {
        Ok(b) => {
            n += show(&b) + b.variable_data_len() + b.is_encrypted().map_or(0, usize::from);
            n += serde_json::to_string(&b).map(|s| s.len()).unwrap_or(0);
            if let Some(r) = b.data_records() {
                walk(r, &mut n);
            }
            if let UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header, variable_data_block, .. } = &b {
                walk(user_data::parse_data_records_with_header(variable_data_block, long_tpl_header), &mut n);
                n += DataRecord::try_from((*variable_data_block, long_tpl_header)).map(|r| show(&r)).unwrap_or(0);
            }
            for size in [0usize, 1, 15, 16, 64, 256] {
                let mut buffer = vec![0u8; size];
                n += b.decrypt_variable_data(&Any(vec![7; 16]), &mut buffer).unwrap_or(0);
            }
        }
        Err(e) => n += e.to_string().len(),
    }
    n += user_data::parse_application_layer(d).is_ok() as usize;
    walk(user_data::parse_data_records(d), &mut n);
    let all: Vec<DataRecord> = DataRecords::from(d).into();
    n += all.len();
    n += match DataRecord::try_from(d) {
        Ok(r) => show(&r),
        Err(e) => e.to_string().len(),
    };
    n += DataRecordHeader::try_from(d).map(|h| show(&h) + h.get_size()).unwrap_or(0);
    if let Ok(raw) = RawDataRecordHeader::try_from(d) {
        n += show(&raw) + ProcessedDataRecordHeader::try_from(&raw).map(|h| show(&h)).unwrap_or(0);
    }
    if let Ok(b) = DataInformationBlock::try_from(d) {
        n += b.get_size() + show(&b);
        match DataInformation::try_from(&b) {
            Ok(i) => n += i.to_string().len() + i.get_size(),
            Err(e) => n += e.to_string().len(),
        }
    }
    if let Ok(b) = ValueInformationBlock::try_from(d) {
        n += b.get_size() + show(&b);
        match ValueInformation::try_from(&b) {
            Ok(i) => n += i.to_string().len() + show(&i),
            Err(e) => n += show(&e),
        }
    }
    for f in [EllFormat::FormatI, EllFormat::FormatII, EllFormat::FormatIII] {
        n += ExtendedLinkLayer::parse(d, f).map(|(l, k)| show(&l) + k).unwrap_or(0);
    }
    if let Ok(a) = <[u8; 4]>::try_from(d) {
        n += Counter::from_bcd_hex_digits(a).map(|c| c.to_string().len()).unwrap_or(0);
        n += m_bus_core::bcd_hex_digits_to_u32(a).unwrap_or(0) as usize;
    }
    n += String::from(TextUnit::new(d)).len() + TextUnit::new(d).to_string().len();
    n
}

fn render_all(d: &[u8], widths: &[Option<usize>], key: Option<[u8; 16]>, enrich: bool) -> usize {
    let mut n = 0;
    for f in FORMATS {
        let list: &[Option<usize>] = if f == OutputFormat::Table { widths } else { &[None] };
        for w in list {
            n += match render_bytes(d, f, &options_of(*w, key, enrich)) {
                Ok(t) => t.len(),
                Err(e) => error(&e),
            };
        }
    }
    n
}

/// Every entry point that takes bytes, or their hex spelling.
fn full(d: &[u8], key: bool) -> u64 {
    let a = light(d);
    let mut n = layers(d) + inner(d);
    n += render_all(d, &[None, Some(0), Some(32), Some(80)], None, false);
    if key {
        n += render_all(d, &[Some(100)], Some(KEY), true);
    }
    n += annotate_and_render(d).map(|t| t.len()).unwrap_or(0);
    n += text(&hex(d), key);
    digest(&(a, n))
}

/// Every entry point that takes text.
fn text(t: &str, key: bool) -> usize {
    let mut n = 0;
    n += decode_hex_bytes(t).map_or_else(|e| error(&e), |v| v.len());
    n += decode_hex(t, &options(None)).map_or_else(|e| error(&e), |v| show(&v));
    n += decode_data_records_hex(t).map_or_else(|e| error(&e), |v| v.len());
    let k = key.then_some(&KEY);
    for f in NAMES {
        n += serialize_mbus_data(t, f, k).len();
    }
    n += parse_to_json(t, k).len() + parse_to_csv(t, k).len() + parse_to_mermaid(t, k).len();
    for f in FORMATS {
        n += render_hex(t, f, &options_of(Some(60), k.copied(), key)).map_or_else(|e| error(&e), |v| v.len());
    }
    n
}

fn done(ch: &mut Ch, d: &[u8], x: u64) -> Res {
    ch.ok();
    let _ = d;
    out(&x)
}

fn note(ch: &mut Ch, d: &[u8]) {
    ch.note(|| format!("bytes={}", hex(d)));
}

fn run(ch: &mut Ch, d: &[u8]) -> Res {
    note(ch, d);
    let x = full(d, true);
    done(ch, d, x)
}

fn c01_bytes(ch: &mut Ch) -> Res {
    let n = ch.n(3);
    let d: Vec<u8> = (0..n).map(|_| ch.byte()).collect();
    run(ch, &d)
}

fn c01_short(ch: &mut Ch) -> Res {
    let n = ch.tier(3, 4);
    let mut d = Vec::new();
    if n == 4 {
        d.push(ch.of(&[0x10u8, 0x68, 0xE5, 0x0D, 0x72, 0x7C]));
    }
    for _ in 0..3 {
        d.push(ch.byte());
    }
    note(ch, &d);
    let x = light(&d);
    done(ch, &d, x)
}

fn fill(k: usize, n: usize) -> Vec<u8> {
    match k {
        0 => vec![0; n],
        1 => vec![0xFF; n],
        2 => gen::pattern(n, 0x5A),
        _ => (0..n).map(|i| [0x01, 0x13, 0x05][i % 3]).collect(),
    }
}

fn c01_ci(ch: &mut Ch) -> Res {
    let ci = ch.byte();
    let n = if ch.thorough { ch.n(41) } else { ch.of(&[0usize, 1, 2, 3, 4, 5, 6, 8, 10, 11, 12, 13, 14, 16, 20, 27]) };
    let f = ch.n(4);
    let mut p = vec![ci];
    p.extend(fill(f, n));
    let k = ch.n(5);
    let d = if k == 4 { gen::long(0x08, 1, &p) } else { super::link::framing(k, &gen::wireless(&LINK, &p)) };
    note(ch, &d);
    let x = full(&d, ch.thorough) ^ inner(&p) as u64;
    done(ch, &d, x)
}

fn records(ch: &mut Ch, d: &[u8], render: bool) -> Res {
    note(ch, d);
    let mut n = inner(d) as u64;
    let t = stream(d);
    n ^= light(&t);
    if ch.thorough {
        n ^= full(&t, false);
    } else if render {
        n ^= render_all(&t, &[Some(100)], None, false) as u64;
    }
    done(ch, d, n)
}

fn c01_record(ch: &mut Ch) -> Res {
    let dif = ch.byte();
    let vif = ch.byte();
    let shape = ch.n(ch.tier(3, 5));
    let mut d = vec![dif];
    if dif & 0x80 != 0 {
        d.extend(match shape {
            0 => vec![0x00],
            1 => vec![0xFF, 0x7F],
            2 => vec![0x40],
            3 => vec![0x81, 0x82, 0x03],
            _ => vec![0xFF; 9].into_iter().chain([0x7F]).collect(),
        });
    }
    d.push(vif);
    if vif & 0x80 != 0 {
        d.extend(match shape {
            0 => vec![0x00],
            1 => vec![0xFF, 0x7F],
            2 => vec![0x7D],
            3 => vec![0xFD, 0x3B],
            _ => vec![0xFC, 0x74],
        });
    }
    let f = ch.n(ch.tier(2, 4));
    let fill = match f {
        0 => gen::pattern(24, 0x11),
        1 => vec![0xFF; 24],
        2 => vec![0x99; 24],
        _ => vec![0x00; 24],
    };
    d.extend(fill);
    if ch.thorough {
        let cut = ch.n(5);
        let n = d.len();
        d.truncate(n - [0, 20, 23, 24, 16][cut]);
    }
    records(ch, &d, shape == 0 && f == 0)
}

fn c01_stream(ch: &mut Ch) -> Res {
    let mut d = Vec::new();
    if ch.flag() {
        d.extend([0x01, 0x13, 0x05]);
    }
    let n = ch.n(ch.tier(3, 4));
    for _ in 0..n {
        d.push(ch.byte());
    }
    note(ch, &d);
    let x = inner(&d) as u64 ^ light(&stream(&d));
    done(ch, &d, x)
}

fn c01_chain(ch: &mut Ch) -> Res {
    let code = ch.of(&[0x04u8, 0x0D, 0x0C, 0x00]);
    let a = ch.n(15);
    let b = ch.n(15);
    let fa = ch.of(&[0x80u8, 0xFF, 0xC0, 0x8F, 0xBF, 0x90]);
    let fb = ch.of(&[0x80u8, 0xFF, 0xFD, 0xFC, 0xFB, 0xF0]);
    let mut d = vec![if a > 0 { code | 0x80 } else { code }];
    for i in 0..a {
        d.push(if i + 1 == a { fa & 0x7F } else { fa });
    }
    d.push(if b > 0 { fb } else { fb & 0x7F });
    for i in 0..b {
        d.push(if i + 1 == b { fb & 0x7F } else { fb });
    }
    let n = ch.of(&[0usize, 1, 40]);
    d.extend(gen::pattern(n, 3));
    note(ch, &d);
    let mut x = inner(&d) as u64 ^ light(&stream(&d));
    if ch.thorough {
        x ^= full(&stream(&d), false);
    }
    done(ch, &d, x)
}

fn c01_vife(ch: &mut Ch) -> Res {
    let code = ch.of(&[0x04u8, 0x0C, 0x05]);
    let first = ch.of(&[0x80u8 | 0x13, 0xFD, 0xFB, 0xFC, 0xFF, 0xED, 0xEC, 0xFE, 0xF8]);
    let mut d = vec![code, first];
    let a = ch.byte();
    d.push(a);
    if a & 0x80 != 0 {
        let b = ch.byte();
        d.push(b);
        if b & 0x80 != 0 {
            d.push(0x3B);
        }
    }
    d.extend([0x12, 0x34, 0x56, 0x78]);
    let render = d.len() == 7;
    records(ch, &d, render)
}

fn c01_lvar(ch: &mut Ch) -> Res {
    let lvar = ch.byte();
    let n = ch.n(ch.tier(41, 260));
    let f = ch.n(3);
    let vif = ch.of(&[0x13u8, 0x78, 0x6D, 0x7F]);
    let mut d = vec![0x0D, vif, lvar];
    d.extend(fill(f, n));
    note(ch, &d);
    let mut x = inner(&d) as u64 ^ light(&stream(&d));
    if n % 8 == 0 {
        x ^= render_all(&stream(&d), &[Some(32), Some(100)], None, false) as u64;
    }
    done(ch, &d, x)
}

fn c01_texts(ch: &mut Ch) -> Res {
    let c = ch.of(&["A", "\u{e9}", "\u{6f22}", "\u{1f44d}", "\"", "<", "[", "\n", "#", "\\", "="]);
    // Latin-1 spelling of the same character, where there is one
    let latin = c == "\u{e9}" && ch.flag();
    let lead = ch.n(4);
    let mut t = b"abc"[..lead].to_vec();
    let unit = ch.flag();
    let n = ch.n(192 - lead);
    while t.len() < n + lead {
        if latin {
            t.push(0xE9);
        } else {
            t.extend(c.bytes());
        }
    }
    // a length that ends inside a character is a text as well
    t.truncate(n + lead);
    t.reverse();
    let mut d = if unit { vec![0x01, 0xFC] } else { vec![0x0D, 0x78] };
    d.push(t.len() as u8);
    d.extend(&t);
    if unit {
        // with the length first and with the extensions first
        let at = if ch.flag() { 2 } else { d.len() };
        d.insert(at, 0x13);
        d.push(0x05);
    }
    note(ch, &d);
    let s = stream(&d);
    let x = light(&s) ^ inner(&d) as u64 ^ render_all(&s, &[Some(32), Some(72), Some(100), Some(200)], None, false) as u64 ^ text(&hex(&s), false) as u64;
    done(ch, &d, x)
}

fn c01_many(ch: &mut Ch) -> Res {
    let r = gen::any_record(ch);
    let n = ch.n(ch.tier(61, 126));
    if n * r.len() > 252 {
        return refused(&"longer than a telegram");
    }
    let d = stream(&r.repeat(n));
    note(ch, &d);
    let x = light(&d) ^ render_all(&d, &[Some(72), Some(100)], None, true) as u64 ^ text(&hex(&d), false) as u64;
    done(ch, &d, x)
}

fn c01_big(ch: &mut Ch) -> Res {
    let n = ch.of(ch.tier(&[1000usize, 4096, 65_536, 65_540], &[1000, 4096, 65_535, 65_536, 65_537, 65_540, 131_072, 1_000_000][..]));
    let mut d = match ch.n(5) {
        0 => vec![],
        1 => vec![0x68, 0xFF, 0xFF, 0x68, 0x08, 0x01, 0x72],
        2 => vec![n as u8, 0x44, 0x93, 0x15, 0x78, 0x56, 0x34, 0x12, 0x33, 0x03, 0x78],
        3 => vec![0xE5],
        _ => vec![0x10, 0x5B, 0x01, 0x5C, 0x16],
    };
    let i = ch.n(5 + gen::RECORDS.len());
    let unit = match i {
        0 => vec![0x00],
        1 => vec![0xFF],
        2 => vec![0x2F],
        3 => vec![0x80],
        4 => vec![0x04, 0xFC],
        i => gen::RECORDS[i - 5].to_vec(),
    };
    while d.len() < n {
        d.extend(&unit);
    }
    d.truncate(n);
    ch.note(|| format!("{n} bytes, starting {}, {} repeated", hex(&d[..12]), hex(&unit)));
    let mut x = light(&d) ^ layers(&d) as u64;
    if n <= 4096 {
        x ^= inner(&d) as u64;
    }
    let t = hex(&d);
    x ^= decode_hex_bytes(&t).map_or_else(|e| error(&e), |v| v.len()) as u64;
    x ^= decode_data_records_hex(&t).map_or_else(|e| error(&e), |v| v.len()) as u64;
    for f in FORMATS {
        x ^= render_hex(&t, f, &options_of(Some(60), None, false)).map_or_else(|e| error(&e), |v| v.len()) as u64;
    }
    x ^= (parse_to_json(&t, None).len() + parse_to_csv(&t, None).len() + parse_to_mermaid(&t, None).len()) as u64;
    done(ch, &d, x)
}

fn c01_date(ch: &mut Ch) -> Res {
    const B: [u8; 10] = [0x00, 0x01, 0x0D, 0x1F, 0x2C, 0x3F, 0x7F, 0x80, 0xF0, 0xFF];
    let k = ch.n(6);
    let (dif, vif, n): (u8, &[u8], usize) = match k {
        0 => (0x02, &[0x6C], 2),
        1 => (0x03, &[0x6D], 3),
        2 => (0x04, &[0x6D], 4),
        3 => (0x06, &[0x6D], 6),
        4 => (0x04, &[0xED, 0x3C], 4),
        _ => (0x03, &[0xFD, 0x30], 3),
    };
    let mut d = vec![dif];
    d.extend(vif);
    let list: &[u8] = if n == 6 && !ch.thorough { &B[4..] } else { &B };
    for _ in 0..n {
        d.push(ch.of(list));
    }
    note(ch, &d);
    let mut x = inner(&d) as u64 ^ light(&stream(&d));
    if n < 6 {
        x ^= render_all(&stream(&d), &[Some(40)], None, false) as u64;
    }
    done(ch, &d, x)
}

fn c01_number(ch: &mut Ch) -> Res {
    let dif = ch.of(&[0x01u8, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x09, 0x0A, 0x0B, 0x0C, 0x0E]);
    let n = [0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, 0, 6][dif as usize];
    let ext: &[u8] = ch.of(&[&[][..], &[0x70], &[0x77], &[0x78], &[0x7B], &[0x7D], &[0xF0, 0x7B], &[0xFB, 0x7B], &[0xF8, 0x77]]);
    let vif = if ch.thorough {
        ch.n(128) as u8
    } else {
        ch.of(&[
            0x00u8, 0x07, 0x08, 0x0F, 0x10, 0x17, 0x1F, 0x20, 0x28, 0x2F, 0x38, 0x3F, 0x40, 0x47, 0x58, 0x5B, 0x60, 0x68, 0x6C, 0x6D, 0x6E, 0x70, 0x74, 0x78,
            0x7A, 0x7E, 0x7F,
        ])
    };
    let mut d = vec![dif, if ext.is_empty() { vif } else { vif | 0x80 }];
    d.extend(ext);
    let k = ch.n(12);
    let v: Vec<u8> = match k {
        0 => vec![0; n],
        1 => vec![0xFF; n],
        2 => (0..n).map(|i| if i + 1 == n { 0x80 } else { 0 }).collect(),
        3 => (0..n).map(|i| if i + 1 == n { 0x7F } else { 0xFF }).collect(),
        4 => (0..n).map(|i| if i == 0 { 1 } else { 0 }).collect(),
        5 => vec![0x99; n],
        6 => (0..n).map(|i| if i + 1 == n { 0xF9 } else { 0x99 }).collect(),
        7 => vec![0xAA; n],
        // real: NaN, infinities, subnormal, largest
        8 => [0, 0, 0xC0, 0x7F, 0, 0, 0, 0][..n].to_vec(),
        9 => [0, 0, 0x80, 0xFF, 0, 0, 0, 0][..n].to_vec(),
        10 => [1, 0, 0, 0x80, 0, 0, 0, 0][..n].to_vec(),
        _ => [0xFF, 0xFF, 0x7F, 0x7F, 0, 0, 0, 0][..n].to_vec(),
    };
    d.extend(v);
    records(ch, &d, true)
}

fn samples() -> Vec<Vec<u8>> {
    let mut v = super::table::telegrams();
    for k in sec::ALL {
        v.push(sec::sealed(k, &METER, 0x0510, &sec::plaintext(1), 0));
    }
    v
}

fn c01_trunc(ch: &mut Ch) -> Res {
    let mut d = ch.of(&samples());
    if d.len() > 90 && !ch.thorough {
        d = super::table::telegrams()[8].clone();
    }
    match ch.n(3) {
        0 => {
            let n = ch.n(d.len() + 1);
            d.truncate(n);
        }
        1 => {
            let x = ch.of(&[0x00u8, 0x16, 0x2F, 0xFF]);
            let n = 1 + ch.n(3);
            d.extend(vec![x; n]);
        }
        _ => {
            let at = ch.n(d.len());
            d[at] = if ch.thorough {
                ch.byte()
            } else {
                ch.of(&[0x00u8, 0x01, 0x0D, 0x0F, 0x16, 0x1F, 0x2F, 0x68, 0x72, 0x7A, 0x7D, 0x7F, 0x80, 0x8C, 0x8D, 0xEF, 0xFC, 0xFF])
            };
        }
    }
    note(ch, &d);
    let x = full(&d, true);
    done(ch, &d, x)
}

fn c01_two(ch: &mut Ch) -> Res {
    const V: [u8; 6] = [0x00, 0x0D, 0x72, 0x7F, 0x8D, 0xFF];
    let i = ch.n(super::link::headers().len());
    let mut p = super::link::headers()[i].clone();
    p.extend([0x01, 0x13, 0x05, 0x0D, 0x78, 0x02, 0x41, 0x42]);
    let a = ch.n(p.len());
    let b = ch.n(p.len());
    p[a] = ch.of(&V);
    if b > a {
        p[b] = ch.of(&V);
    }
    let d = if ch.flag() { gen::long(0x08, 1, &p) } else { gen::format_a(&gen::wireless(&LINK, &p)) };
    note(ch, &d);
    let x = light(&d) ^ render_all(&d, &[Some(72)], Some(KEY), false) as u64 ^ layers(&d) as u64;
    done(ch, &d, x)
}

const CHARS: [&str; 16] = ["0", "6", "8", "E", "f", "x", "X", " ", ",", "\n", "\u{0}", "é", "漢", "👍", "\u{301}", "-"];

fn c01_text(ch: &mut Ch) -> Res {
    let n = ch.n(6);
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(CHARS[ch.n(CHARS.len())]);
    }
    ch.note(|| format!("text={t:?}"));
    let x = text(&t, n < 3);
    ch.ok();
    out(&(x, n))
}

fn c01_names(ch: &mut Ch) -> Res {
    let mut name;
    if ch.flag() {
        name = NAMES[ch.n(NAMES.len())].to_string();
        match ch.n(4) {
            0 => {
                let at = ch.n(name.len());
                let c = ch.of(&["X", "é", " ", "-", "\u{0}"]);
                name.replace_range(at..at + 1, c);
            }
            1 => {
                let at = ch.n(name.len() + 1);
                name.truncate(at);
            }
            2 => {
                let at = ch.n(name.len() + 1);
                let c = ch.of(&["X", "é", " ", "-", "\u{0}", "İ", "ſ"]);
                name.insert_str(at, c);
            }
            _ => name = name.to_uppercase(),
        }
    } else {
        name = String::new();
        for _ in 0..ch.n(4) {
            name.push_str(ch.of(&["j", "s", "J", " ", "\t", "é", "漢", "-", "\u{130}", "\u{0}"]));
        }
    }
    ch.note(|| format!("format={name:?}"));
    let a = name.parse::<OutputFormat>().map(|f| f.as_str()).map_err(|e| error(&e));
    let b = serialize_mbus_data("E5", &name, None).len();
    let c = serialize_mbus_data("", &name, None).len();
    ch.ok();
    out(&(a, b, c))
}

/// A key store that hands out whatever it was given.
struct Any(Vec<u8>);
impl KeyProvider for Any {
    fn get_key(&self, _: &KeyContext) -> Result<&[u8], DecryptionError> {
        Ok(&self.0)
    }
}

fn c01_keys(ch: &mut Ch) -> Res {
    let k = ch.of(&sec::ALL);
    let mode = ch.n(ch.tier(16, 32)) as u16;
    let low = ch.of(&[0x00u16, 0x10, 0x20, 0xF0]);
    let n = ch.of(&[0usize, 1, 15, 16, 17, 31, 32, 33, 48, 50]);
    let cfg = (mode << 8) | low;
    let p = gen::pattern(n, 0x33);
    let d = sec::telegram(k, &METER, cfg, &p, 0);
    note(ch, &d);
    let mut x = full(&d, true);
    let ctx = KeyContext {
        manufacturer: m_bus_core::ManufacturerCode { code: ['A', 'Z', '@'] },
        identification_number: u32::MAX,
        version: 0xFF,
        device_type: m_bus_core::DeviceType::from(0xEE),
        security_mode: m_bus_core::SecurityMode::from_bits(mode as u8),
        access_number: 0xFF,
    };
    for key in [0usize, 1, 15, 16, 17, 32] {
        for size in [0usize, 1, 15, 16, 17, 32, 49, 64] {
            let mut b = vec![0u8; size];
            let r = EncryptedPayload::new(&p, ctx.clone()).decrypt_into(&Any(vec![1; key]), &mut b);
            x ^= r.map_or_else(|e| e.to_string().len() as u64, |n| n as u64);
        }
    }
    let mut store = StaticKeyProvider::<2>::new();
    for i in 0..3 {
        x ^= store.add_key(0x1234 + i, u32::MAX - u32::from(i), [i as u8; 16]).is_ok() as u64;
    }
    x ^= store.get_key(&ctx).is_ok() as u64;
    done(ch, &d, x)
}

fn c01_len(ch: &mut Ch) -> Res {
    let n = ch.n(701);
    let f = ch.n(4);
    let start = ch.n(6);
    let mut d = match start {
        0 => vec![],
        1 => vec![0x68, 0xFF, 0xFF, 0x68, 0x08, 0x01, 0x72],
        2 => vec![n as u8, 0x44, 0x93, 0x15, 0x78, 0x56, 0x34, 0x12, 0x33, 0x03, 0x78],
        3 => vec![0xE5],
        4 => vec![0x10, 0x5B, 0x01, 0x5C, 0x16],
        _ => vec![],
    };
    let rest = n.saturating_sub(d.len());
    d.extend(fill(f, rest));
    d.truncate(n);
    if start == 5 {
        // Format A blocks of any length: the length byte cannot count them
        let body = gen::wireless(&LINK, &[0x78]);
        let mut all = body;
        all.extend(fill(f, n.saturating_sub(11)));
        d = gen::format_a(&all);
    }
    note(ch, &d);
    let mut x = light(&d) ^ layers(&d) as u64 ^ inner(&d) as u64;
    x ^= render_all(&d, &[Some(100)], Some(KEY), false) as u64;
    if n % 16 == 0 {
        x ^= text(&hex(&d), true) as u64;
    }
    done(ch, &d, x)
}

fn c01_width(ch: &mut Ch) -> Res {
    let d = ch.of(&super::table::telegrams());
    let mut list: Vec<usize> = (0..41).collect();
    list.extend([71, 72, 73, 99, 100, 101, 255, 256, 1000, 4096, 65535, 65536, 100_000]);
    for p in [31, 32, 40, 48, 56, 62, 63] {
        list.extend([(1usize << p) - 1, 1usize << p, (1usize << p) + 1]);
    }
    list.extend([usize::MAX / 3, usize::MAX - 3, usize::MAX - 2, usize::MAX - 1, usize::MAX]);
    let w = ch.of(&list);
    note(ch, &d);
    ch.note(|| format!("width={w}"));
    let r = render_bytes(&d, OutputFormat::Table, &options_of(Some(w), None, true)).map_or_else(|e| error(&e), |t| t.len());
    ch.ok();
    out(&(d.len(), r))
}

fn c01_layer(ch: &mut Ch) -> Res {
    let mut d = vec![ch.byte(), ch.byte()];
    let t = ch.n(8);
    d.extend(match t {
        0 => vec![],
        1 => vec![0x00],
        2 => vec![0xFF; 3],
        3 => vec![0x80; 12],
        4 => vec![0x99, 0x99],
        5 => vec![0xFC, 0xFF, 0xFF],
        6 => gen::pattern(13, 9),
        _ => vec![0x7F; 30],
    });
    note(ch, &d);
    let mut x = inner(&d) as u64;
    let codings = [
        DataFieldCoding::NoData,
        DataFieldCoding::Integer8Bit,
        DataFieldCoding::Integer16Bit,
        DataFieldCoding::Integer24Bit,
        DataFieldCoding::Integer32Bit,
        DataFieldCoding::Real32Bit,
        DataFieldCoding::Integer48Bit,
        DataFieldCoding::Integer64Bit,
        DataFieldCoding::SelectionForReadout,
        DataFieldCoding::BCD2Digit,
        DataFieldCoding::BCD4Digit,
        DataFieldCoding::BCD6Digit,
        DataFieldCoding::BCD8Digit,
        DataFieldCoding::VariableLength,
        DataFieldCoding::BCDDigit12,
        DataFieldCoding::DateTypeG,
        DataFieldCoding::DateTimeTypeF,
        DataFieldCoding::DateTimeTypeJ,
        DataFieldCoding::DateTimeTypeI,
    ];
    for c in codings {
        x ^= c.parse(&d, None).map_or_else(|e| e.to_string().len(), |v| v.to_string().len() + v.get_size()) as u64;
    }
    done(ch, &d, x)
}

fn c01_codes(ch: &mut Ch) -> Res {
    const A: [&str; 20] = ["A", "B", "Z", "a", "z", "0", "9", "@", "[", "`", " ", "\u{0}", "é", "ß", "漢", "👍", "İ", "\u{301}", "~", "\u{7F}"];
    let n = ch.n(5);
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(ch.of(&A));
    }
    if n == 4 && ch.flag() {
        t = t.repeat(100);
    }
    ch.note(|| format!("code={t:?}"));
    let r = m_bus_parser::manufacturers::lookup_manufacturer(&t).is_some();
    ch.ok();
    out(&(r, t))
}

fn c01_highlight(ch: &mut Ch) -> Res {
    const A: [&str; 20] = ["{", "}", "\"", "\\", ":", ",", "-", ".", "1", "e", "t", "n", "#", "<", "&", "\n", " ", "é", "👍", "\u{0}"];
    let n = ch.n(5);
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(ch.of(&A));
    }
    let lang = ch.of(&["json", "yaml", "yml", "xml", "csv", "mermaid", "text", "", "é"]);
    ch.note(|| format!("text={t:?} language={lang:?}"));
    // errors are JavaScript values and cannot be made outside a browser; C21 covers which
    // languages are accepted
    let r = if ["json", "yaml", "xml", "csv"].contains(&lang) { m_bus_parser_wasm_pack::m_bus_highlight(&t, lang).map(|h| h.len()).unwrap_or(0) } else { 0 };
    ch.ok();
    out(&(r, n))
}

fn c01_mixed(ch: &mut Ch) -> Res {
    let t = super::table::telegrams();
    let a = ch.of(&t);
    let b = ch.of(&t);
    let Ok(s) = annotate_frame(&a) else {
        return refused(&a.len());
    };
    let n = ch.n(b.len().min(40) + 1);
    ch.note(|| format!("segments of {} over {}", hex(&a), hex(&b[..n])));
    let r = render_annotations(&s, &b[..n]).len();
    ch.ok();
    out(&(r, n))
}

fn c01_token(ch: &mut Ch) -> Res {
    let t = gen::token(ch);
    ch.note(|| format!("text={t:?}"));
    let x = text(&t, true);
    ch.ok();
    out(&(x, t.len()))
}
