//! C20 identity fields: whole value domains, through the field types and through telegrams.

use super::*;
use crate::gen;
use m_bus_core::{bcd_hex_digits_to_u32, ConfigurationField, DeviceType, Function, IdentificationNumber, ManufacturerCode, SecurityMode};
use m_bus_parser::manufacturers::lookup_manufacturer;
use m_bus_parser::{render_bytes, OutputFormat, RenderOptions};

pub fn spaces() -> Vec<Space> {
    vec![
        space("C20", "c20-manufacturer", "all 65536 manufacturer words: decode, encode, text", manufacturer),
        space("C20", "c20-mfr-frame", "all 65536 manufacturer words in 5 telegram positions", mfr_frame),
        space("C20", "c20-bcd", "identification numbers: every pair of bytes at every pair of positions x 4 contents (thorough: every triple)", bcd),
        space("C20", "c20-id-frame", "every byte value at every identification position of 6 telegram kinds x 3 contents", id_frame),
        space("C20", "c20-device", "all 256 device types and versions: round trip and in 6 telegram kinds", device),
        space("C20", "c20-function", "all 256 control bytes: field type, long frames, short frames, radio frames", function),
        space("C20", "c20-address", "all 256 address bytes in long and short frames", address),
        space("C20", "c20-mode", "all 65536 configuration words and all 256 mode values", mode),
        space("C20", "c20-enrich", "every three-letter code in 4 telegram kinds, bundled details on and off", enrich),
        space("C20", "c20-registry", "every three-letter code looked up in the bundled registry against a copy of the registry", registry_lookup),
        space("C20", "c20-enrich-views", "every registered code in 4 telegram kinds, all output formats with and without bundled details", enrich_views),
    ]
}

fn letters(id: u16) -> Option<[u8; 3]> {
    let l = [id >> 10, id >> 5 & 31, id & 31];
    l.iter().all(|x| (1..=26).contains(x)).then(|| l.map(|x| b'A' + (x as u8) - 1))
}

fn manufacturer(ch: &mut Ch) -> Res {
    let id = (ch.n(256) << 8 | ch.n(256)) as u16;
    ch.note(|| format!("manufacturer word {id:04X}"));
    let want = letters(id);
    ch.ok();
    match (ManufacturerCode::from_id(id), want) {
        (Ok(c), Some(w)) => {
            if c.code.map(|x| x as u32) != w.map(u32::from) {
                return fail("code", format!("{:?}, expected {w:?}", c.code));
            }
            if c.to_id() != id {
                return fail("round-trip", format!("encoded as {:04X}", c.to_id()));
            }
            if c.to_string().as_bytes() != w {
                return fail("text", c.to_string());
            }
            out(&w)
        }
        (Err(_), None) => refused(&id),
        (a, b) => fail("validity", format!("{a:?}, expected {b:?}")),
    }
}

const IDENTITY: [&str; 4] = ["meter", "transport", "frame", "protocol"];

/// Telegrams with an identity: bytes, position of the identification number, manufacturer,
/// version, device type.
fn carriers() -> Vec<(Vec<u8>, usize, usize, usize, usize)> {
    let rec = [0x01u8, 0x13, 0x05];
    let long = [gen::long_tpl(0x72, 0), rec.to_vec()].concat();
    let long76 = [gen::long_tpl(0x76, 0), rec.to_vec()].concat();
    let short = [gen::short_tpl(0), rec.to_vec()].concat();
    let ell = [vec![0x8C, 0x20, 0x77], long.clone()].concat();
    let e8 = [vec![0x8E, 0x22, 0x56, 0x93, 0x15, 0x78, 0x56, 0x34, 0x12, 0x01, 0x07, 0x0A, 0x0B, 0x0C, 0x0D, 0xCC, 0xDD], vec![0xA5; 16]].concat();
    vec![
        (gen::long(0x08, 0x01, &long), 7, 11, 13, 14),
        (gen::wireless(&gen::LINK, &long), 11, 15, 17, 18),
        (gen::wireless(&gen::LINK, &short), 4, 2, 8, 9),
        (gen::long(0x08, 0x01, &long76), 7, 11, 13, 14),
        (gen::wireless(&gen::LINK, &ell), 14, 18, 20, 21),
        (gen::wireless(&gen::LINK, &e8), 15, 13, 19, 20),
    ]
}

fn put(d: &mut [u8], i: usize, v: &[u8]) {
    d[i..i + v.len()].copy_from_slice(v);
    if d[0] == 0x68 {
        let end = d.len() - 2;
        d[end] = model::checksum(&d[4..end]);
    }
}

fn mfr_frame(ch: &mut Ch) -> Res {
    let (mut d, _, m, ..) = ch.of(&carriers());
    let id = (ch.n(256) << 8 | ch.n(256)) as u16;
    put(&mut d, m, &id.to_le_bytes());
    compare(ch, &d, None, &IDENTITY)
}

fn bcd(ch: &mut Ch) -> Res {
    let base = ch.of(&[[0u8; 4], [0x99; 4], [0x78, 0x56, 0x34, 0x12], [0x10, 0x0A, 0x90, 0x09]]);
    let i = ch.n(4);
    let j = ch.n(4);
    if j <= i {
        return refused(&0);
    }
    let mut b = base;
    b[i] = ch.byte();
    b[j] = ch.byte();
    if ch.thorough {
        let k = ch.n(4);
        if k <= j {
            return refused(&1);
        }
        b[k] = ch.byte();
    }
    ch.note(|| format!("identification bytes {}", hex(&b)));
    let digits: Vec<u8> = b.iter().rev().flat_map(|x| [x >> 4, x & 15]).collect();
    let want = digits.iter().all(|d| *d < 10).then(|| digits.iter().fold(0u64, |a, d| a * 10 + u64::from(*d)) as u32);
    ch.ok();
    let got = bcd_hex_digits_to_u32(b).ok();
    if got != want {
        return fail("number", format!("{got:?}, expected {want:?}"));
    }
    let n = IdentificationNumber::from_bcd_hex_digits(b).ok();
    if n.map(|n| n.number) != want || n.map(u32::from) != want {
        return fail("number", format!("{n:?}, expected {want:?}"));
    }
    let Some(n) = n else {
        return refused(&"not decimal");
    };
    let text: String = digits.iter().map(|d| char::from(b'0' + d)).collect();
    if n.to_string() != text {
        return fail("text", format!("{n}, expected {text}"));
    }
    out(&want)
}

fn id_frame(ch: &mut Ch) -> Res {
    let (mut d, i, ..) = ch.of(&carriers());
    let mut id = ch.of(&[[0u8; 4], [0x99; 4], [0x78, 0x56, 0x34, 0x12]]);
    let p = ch.n(4);
    id[p] = ch.byte();
    put(&mut d, i, &id);
    compare(ch, &d, None, &IDENTITY)
}

fn device(ch: &mut Ch) -> Res {
    let b = ch.byte();
    let n = ch.n(13);
    if n == 12 {
        ch.note(|| format!("device type {b:02X}"));
        ch.ok();
        let t = DeviceType::from(b);
        if u8::from(t) != b {
            return fail("round-trip", format!("{t:?} encodes to {:02X}", u8::from(t)));
        }
        if t.to_string() != model::device_name(b) {
            return fail("name", format!("{t}, expected {}", model::device_name(b)));
        }
        return out(&b);
    }
    let (mut d, _, _, v, t) = carriers()[n / 2].clone();
    put(&mut d, if n % 2 == 0 { v } else { t }, &[b]);
    compare(ch, &d, None, &IDENTITY)
}

fn function(ch: &mut Ch) -> Res {
    let c = ch.byte();
    let rec = [0x78u8, 0x01, 0x13, 0x05];
    match ch.n(4) {
        0 => {
            ch.note(|| format!("control byte {c:02X}"));
            ch.ok();
            let want = Some(match c {
                0x40 => Function::SndNk { prm: false },
                0x44 => Function::SndNr,
                0x53 | 0x73 => Function::SndUd { fcb: c & 0x20 != 0 },
                0x5A | 0x7A => Function::ReqUd1 { fcb: c & 0x20 != 0 },
                0x5B | 0x7B => Function::ReqUd2 { fcb: c & 0x20 != 0 },
                0x08 | 0x18 | 0x28 | 0x38 => Function::RspUd { acd: c & 0x20 != 0, dfc: c & 0x10 != 0 },
                _ => Function::Nack,
            })
            .filter(|f| *f != Function::Nack);
            let f = Function::try_from(c).ok();
            if f != want {
                return fail("function", format!("{f:?}, expected {want:?}"));
            }
            match f {
                Some(f) => out(&format!("{f:?}")),
                None => refused(&c),
            }
        }
        1 => compare(ch, &gen::long(c, 1, &rec), None, &IDENTITY),
        2 => compare(ch, &gen::short(c, 1), None, &IDENTITY),
        _ => {
            let d = gen::wireless(&gen::Link { c, ..gen::LINK }, &rec);
            compare(ch, &d, None, &IDENTITY)
        }
    }
}

fn address(ch: &mut Ch) -> Res {
    let a = ch.byte();
    let d = if ch.flag() { gen::short(0x5B, a) } else { gen::long(0x08, a, &[0x78, 0x01, 0x13, 0x05]) };
    compare(ch, &d, None, &IDENTITY)
}

fn mode(ch: &mut Ch) -> Res {
    let (hi, lo) = (ch.byte(), ch.byte());
    ch.note(|| format!("configuration word {hi:02X}{lo:02X}"));
    let c = ConfigurationField::from_bytes(lo, hi);
    ch.ok();
    let w = u16::from(hi) << 8 | u16::from(lo);
    if c.raw() != w || u16::from(c) != w || ConfigurationField::from(w) != c {
        return fail("round-trip", format!("{:04X}", c.raw()));
    }
    let m = c.security_mode();
    if m.to_bits() != hi & 31 || m != SecurityMode::from_bits(hi & 31) {
        return fail("mode", format!("{m:?}"));
    }
    if m.to_string() != model::mode_name(hi & 31) {
        return fail("name", format!("{m}, expected {}", model::mode_name(hi & 31)));
    }
    if c.mode_specific_lower() != lo || c.mode_specific_upper() != hi >> 5 {
        return fail("mode-specific", format!("{:02X} {:02X}", c.mode_specific_lower(), c.mode_specific_upper()));
    }
    out(&(m.to_bits(), lo, hi))
}

fn with_code(ch: &mut Ch, code: [u8; 3]) -> Vec<u8> {
    let all = carriers();
    let i = ch.n(4);
    let (mut d, _, m, ..) = all[i].clone();
    let id = code.iter().fold(0u16, |a, c| a << 5 | u16::from(c - 64));
    put(&mut d, m, &id.to_le_bytes());
    d
}

fn enrich(ch: &mut Ch) -> Res {
    let code: [u8; 3] = [b'A' + ch.n(26) as u8, b'A' + ch.n(26) as u8, b'A' + ch.n(26) as u8];
    let d = with_code(ch, code);
    ch.note(|| format!("bytes={}", hex(&d)));
    let o = |e| m_bus_parser::decode_bytes(&d, &DecodeOptions { key: None, include_enrichment: e });
    let (Ok(a), Ok(b)) = (o(false), o(true)) else {
        return fail("rejected", "telegram rejected");
    };
    ch.ok();
    let text = String::from_utf8_lossy(&code).to_string();
    if a.enrichment.is_some() {
        return fail("off", "details although switched off");
    }
    let want = listed(&text)
        .map(|i| serde_json::json!({"source": "bundled_manufacturer_registry", "manufacturer_code": text, "manufacturer_name": i[0], "manufacturer_website": i[1], "manufacturer_description": i[2]}));
    let got = b.enrichment.as_ref().map(|e| serde_json::to_value(e).unwrap_or_default());
    if got != want {
        return fail("details", format!("{got:?}, registry {want:?}"));
    }
    let mut vb = super::fmt::document(&b);
    let va = super::fmt::document(&a);
    if let Some(m) = vb.as_object_mut() {
        m.remove("enrichment");
    }
    if va != vb {
        return fail("changed", model::jdiff("", &va, &vb).unwrap_or_default());
    }
    match want {
        Some(w) => out(&(w.to_string(), d[0])),
        None => refused(&code),
    }
}

/// Name, website and description of a manufacturer in the copy of the registry.
fn listed(code: &str) -> Option<[&'static str; 3]> {
    include_str!("../../data/registry.tsv").lines().find_map(|l| {
        let mut f = l.split('\t');
        (f.next()? == code).then(|| [f.next().unwrap_or(""), f.next().unwrap_or(""), f.next().unwrap_or("")])
    })
}

fn registry_lookup(ch: &mut Ch) -> Res {
    let code: String = (0..3).map(|_| char::from(b'A' + ch.n(26) as u8)).collect();
    ch.note(|| format!("code={code}"));
    let got = lookup_manufacturer(&code).map(|i| [i.name, i.website, i.description]);
    ch.ok();
    let want = listed(&code);
    if got != want {
        return fail("registry", format!("{code} is {got:?}, registry {want:?}"));
    }
    match want {
        Some(w) => out(&(code, w)),
        None => refused(&code),
    }
}

fn registry() -> Vec<[u8; 3]> {
    static R: std::sync::OnceLock<Vec<[u8; 3]>> = std::sync::OnceLock::new();
    R.get_or_init(|| {
        let l = b'A'..=b'Z';
        let mut v = Vec::new();
        for a in l.clone() {
            for b in l.clone() {
                for c in l.clone() {
                    let code = [a, b, c];
                    if lookup_manufacturer(&String::from_utf8_lossy(&code)).is_some() {
                        v.push(code);
                    }
                }
            }
        }
        v
    })
    .clone()
}

fn enrich_views(ch: &mut Ch) -> Res {
    let code = ch.of(&registry());
    let d = with_code(ch, code);
    ch.note(|| format!("bytes={}", hex(&d)));
    let r =
        |f, e| render_bytes(&d, f, &RenderOptions { decode: DecodeOptions { key: None, include_enrichment: e }, table_width: Some(120) }).map_err(|e| e.code());
    use OutputFormat::*;
    for f in [Annotated, AnnotatedText, Xml] {
        ch.ok();
        if r(f, true) != r(f, false) {
            return fail("changed", format!("{} differs", f.as_str()));
        }
    }
    for f in [Json, Yaml] {
        let v = |e| {
            let t = r(f, e).unwrap_or_default();
            let v: Option<Value> = if f == Json { serde_json::from_str(&t).ok() } else { serde_yaml::from_str(&t).ok().map(|y| super::fmt::yaml_value(&y)) };
            v
        };
        let (Some(mut a), Some(b)) = (v(true), v(false)) else {
            return fail("format", f.as_str());
        };
        ch.ok();
        let e = a.as_object_mut().and_then(|m| m.remove("enrichment"));
        if e.is_none() || a != b {
            return fail("changed", format!("{} differs", f.as_str()));
        }
    }
    // every line without details is also there with them
    for f in [Table, Mermaid] {
        let (Ok(a), Ok(b)) = (r(f, true), r(f, false)) else {
            return fail("format", f.as_str());
        };
        ch.ok();
        let mut it = a.lines();
        for l in b.lines() {
            if f == Table && !l.contains(|c: char| c.is_ascii_alphanumeric()) {
                continue;
            }
            if !it.any(|x| x == l) {
                return fail("changed", format!("{} lost the line {l:?}", f.as_str()));
            }
        }
    }
    let (Ok(a), Ok(b)) = (r(Csv, true), r(Csv, false)) else {
        return fail("format", "csv");
    };
    let (Ok(a), Ok(b)) = (super::fmt::parse_csv(&a), super::fmt::parse_csv(&b)) else {
        return fail("format", "csv");
    };
    ch.ok();
    if a.len() != b.len() {
        return fail("changed", "csv rows");
    }
    let details = |h: &str| h.starts_with("enrichment") || matches!(h, "manufacturer_name" | "manufacturer_website" | "manufacturer_description");
    for (ra, rb) in a.iter().zip(&b).skip(1) {
        for (i, h) in a[0].iter().enumerate() {
            let other = b[0].iter().position(|x| x == h).and_then(|j| rb.get(j));
            if !details(h) && other != ra.get(i) {
                return fail("changed", format!("csv column {h}"));
            }
        }
    }
    out(&d)
}
