//! C15 table output.

use super::*;
use crate::gen::{self, LINK};
use m_bus_parser::{render_bytes, OutputFormat, RenderOptions};
use unicode_width::UnicodeWidthStr;

pub fn spaces() -> Vec<Space> {
    vec![
        space("C15", "c15-widths", "every width 0..=420 and 6 large ones for 30 telegrams of every frame and header kind, enrichment on and off", c15_widths),
        space("C15", "c15-records", "every record of 35, alone and in all pairs, at every width 32..=130", c15_records),
        space("C15", "c15-chars", "text readings of every byte value and of 24 special characters at every length 0..=40, 7 widths", c15_chars),
        space(
            "C15",
            "c15-mixed",
            "text readings of every sequence of 4 (thorough 5) out of 9 narrow, wide, combining, joining and control characters, after every fill 0..=30",
            c15_mixed,
        ),
        space(
            "C15",
            "c15-unicode",
            "every Unicode scalar value repeated across the line break, 3 offsets and 3 widths (quick: 1 of each outside 0x0..0x3000 and the emoji blocks)",
            c15_unicode,
        ),
        space(
            "C15",
            "c15-tail",
            "manufacturer data and continuation marks of every length up to the longest telegram x 4 contents x 4 leads x 7 widths",
            c15_tail,
        ),
        space("C15", "c15-opened", "encrypted telegrams of 13 header kinds, mode 5 and 7: every value of every identity, access number and status byte, and each of 35 records (thorough: pairs) with right, wrong or no key", c15_opened),
        space("C15", "c15-header", "every value of every byte of the link header and of 14 application headers, wired and wireless x 2 widths", c15_header),
        space("C15", "c15-cut", "pairs of 35 records cut at every position x 3 widths", c15_cut),
        space("C15", "c15-texts", "texts of every length 0..191 of 9 characters, with one of 8 special characters at 3 places or none, x 5 widths", c15_texts),
        space("C15", "c15-readings", "numbers of every coding x 14 value information blocks, dates, times and variable-length numbers: one data byte over every (numbers: 12) values, 4 backgrounds, x 2 widths", c15_readings),
        space("C15", "c15-long", "text readings of every length 0..=190 at 12 widths, and up to 84 records of 3 bytes or 126 of 2 bytes", c15_long),
    ]
}

/// Text of a cell as far as the table promises it: everything but blanks, with control characters
/// made visible.
fn norm(s: &str) -> String {
    s.chars().filter(|c| *c != ' ' && *c != '\n').map(|c| if c.is_control() { '\u{FFFD}' } else { c }).collect()
}

pub fn value_display(r: &RecordOutput) -> String {
    match &r.value.value {
        Some(Value::String(s)) => s.clone(),
        Some(Value::Number(n)) => n.to_string(),
        Some(Value::Object(m)) => {
            let mut parts = Vec::new();
            for (k, v) in m {
                parts.push(format!("{k}={}", v.as_str().map(str::to_string).unwrap_or_else(|| v.to_string())));
            }
            parts.join(", ")
        }
        Some(v) => v.to_string(),
        None => match r.value.kind.as_str() {
            "manufacturer_specific" => r.data_hex.chars().filter(|c| *c != ' ').collect(),
            "none" => "No data".into(),
            _ => String::new(),
        },
    }
}

pub fn reading(r: &RecordOutput) -> String {
    let q = if r.quantities.is_empty() { "Reading".to_string() } else { r.quantities.join(", ") };
    match &r.unit {
        Some(u) => format!("{q}: {} {u}", value_display(r)),
        None => format!("{q}: {}", value_display(r)),
    }
}

struct Box_ {
    title: String,
    rows: Vec<Vec<String>>,
    /// the lines of every cell, padding included
    lines: Vec<Vec<Vec<String>>>,
}

/// Whether the lines of a cell, some of the blanks at their ends counted as padding, begin with
/// the text, blanks included.
fn holds(lines: &[String], text: &str) -> bool {
    let text: Vec<char> = text.chars().map(|c| if c.is_control() && c != '\n' { '\u{FFFD}' } else { c }).collect();
    let mut at = vec![0];
    for line in lines {
        let line: Vec<char> = line.chars().collect();
        let n = line.iter().rposition(|c| *c != ' ').map_or(0, |i| i + 1);
        let mut next = Vec::new();
        for p in at {
            let left = (text.len() - p).min(n);
            if line[..left] != text[p..p + left] {
                continue;
            }
            if left < n {
                return p + left == text.len();
            }
            for k in 0..=line.len() - n {
                let q = p + n + k;
                if text[p + n..].iter().take(k).any(|c| *c != ' ') || q > text.len() {
                    break;
                }
                next.push(q);
                if text.get(q) == Some(&'\n') {
                    next.push(q + 1);
                }
            }
        }
        if next.contains(&text.len()) {
            return true;
        }
        next.sort_unstable();
        next.dedup();
        at = next;
    }
    text.is_empty()
}

/// Splits a table line at the given columns.
fn cells(line: &str, cols: &[usize]) -> Option<Vec<String>> {
    let mut out = Vec::new();
    let mut at = 0; // byte offset after the previous border
    let rest = line.strip_prefix('│')?;
    at += line.len() - rest.len();
    for c in &cols[1..] {
        let mut found = None;
        for (i, ch) in line.char_indices() {
            if i >= at && ch == '│' && UnicodeWidthStr::width(&line[..i]) == *c {
                found = Some(i);
                break;
            }
        }
        let i = found?;
        out.push(line[at..i].strip_prefix(' ')?.strip_suffix(' ')?.to_string());
        at = i + '│'.len_utf8();
    }
    (at == line.len()).then_some(out)
}

/// Parses the table into its boxes.
fn boxes(text: &str) -> Result<Vec<Box_>, Fail> {
    let mut out: Vec<Box_> = Vec::new();
    let mut cols: Vec<usize> = Vec::new();
    let mut title = String::new();
    let mut open = false;
    for line in text.split('\n') {
        let Some(first) = line.chars().next() else {
            continue;
        };
        match first {
            '┌' if !open => {
                cols = line.chars().enumerate().filter(|(_, c)| *c != '─').map(|(i, _)| i).collect();
                out.push(Box_ {
                    title: std::mem::take(&mut title),
                    rows: vec![vec![String::new(); cols.len() - 1]],
                    lines: vec![vec![vec![]; cols.len() - 1]],
                });
                open = true;
            }
            '├' | '└' if open => {
                let here: Vec<usize> = line.chars().enumerate().filter(|(_, c)| *c != '─').map(|(i, _)| i).collect();
                if here != cols {
                    return fail("align", format!("border {line:?} does not meet the columns {cols:?}"));
                }
                if first == '└' {
                    open = false;
                } else {
                    let n = cols.len() - 1;
                    let b = out.last_mut().unwrap();
                    b.rows.push(vec![String::new(); n]);
                    b.lines.push(vec![vec![]; n]);
                }
            }
            '│' if open => {
                let Some(c) = cells(line, &cols) else {
                    return fail("align", format!("row {line:?} does not meet the columns {cols:?}"));
                };
                let b = out.last_mut().unwrap();
                let (row, lines) = (b.rows.last_mut().unwrap(), b.lines.last_mut().unwrap());
                for ((a, l), c) in row.iter_mut().zip(lines).zip(c) {
                    a.push_str(&norm(&c));
                    l.push(c);
                }
            }
            _ if open => return fail("align", format!("line {line:?} inside a box")),
            _ => title.push_str(&norm(line)),
        }
    }
    if open {
        return fail("align", "box is not closed");
    }
    Ok(out)
}

fn check(ch: &mut Ch, d: &[u8], key: Option<[u8; 16]>, width: Option<usize>, enrich: bool) -> Res {
    ch.note(|| format!("bytes={} width={width:?} enrichment={enrich}{}", hex(d), key.map(|k| format!(" key={}", hex(&k))).unwrap_or_default()));
    let opts = DecodeOptions { key, include_enrichment: enrich };
    let o = m_bus_parser::decode_bytes(d, &opts);
    let t = render_bytes(d, OutputFormat::Table, &RenderOptions { decode: opts.clone(), table_width: width });
    ch.ok();
    let w = width.unwrap_or(100);
    let (o, t) = match (o, t) {
        (Err(a), Err(b)) if a.code() == b.code() => return refused(&a.code()),
        (Err(a), _) => return fail("refused", format!("decoder fails with {}, table does not", a.code())),
        (Ok(_), Err(e)) => {
            if w < 32 {
                return refused(&e.code());
            }
            return fail("refused", format!("width {w} refused with {}", e.code()));
        }
        (Ok(_), Ok(_)) if w < 32 => return fail("width", format!("width {w} accepted")),
        (Ok(o), Ok(t)) => (o, t),
    };
    for line in t.split('\n') {
        let lw = UnicodeWidthStr::width(line);
        if lw > w {
            return fail("width", format!("line of {lw} columns at width {w}: {line:?}"));
        }
        if line.chars().any(char::is_control) {
            return fail("control", format!("control character in {line:?}"));
        }
    }
    let bx = boxes(&t)?;
    let dash = || "—".to_string();
    let id = o.meter.identity.as_ref();
    let mut want: Vec<(&str, String)> = vec![
        ("Function", o.frame.function.clone().unwrap_or_else(dash)),
        ("Meter", id.and_then(|i| i.id.clone()).unwrap_or_else(dash)),
        ("Manufacturer", id.and_then(|i| i.manufacturer_code.clone()).unwrap_or_else(dash)),
        ("Device", id.and_then(|i| i.device_type.clone()).unwrap_or_else(dash)),
        ("Security", format!("{} · {}", o.security.payload_protection, o.security.decryption_state)),
    ];
    if let Some(e) = &o.enrichment {
        want.push(("Manufacturer name", e.manufacturer_name.clone()));
        want.push(("Website", e.manufacturer_website.clone()));
        want.push(("Description", e.manufacturer_description.clone()));
    }
    let Some(summary) = bx.first() else {
        return fail("summary", "no summary box");
    };
    let title = format!("{} {} frame · {} decode", o.protocol, o.frame.kind, o.decode_state);
    if summary.title != norm(&title) {
        return fail("summary", format!("title {:?}", summary.title));
    }
    let kv = |b: &Box_, want: &[(&str, String)], what: &str| -> Result<(), Fail> {
        let got: Vec<(String, String)> = b.rows.iter().skip(1).filter(|r| r.len() == 2).map(|r| (r[0].clone(), r[1].clone())).collect();
        let want: Vec<(String, String)> = want.iter().map(|(k, v)| (norm(k), norm(v))).collect();
        if got != want {
            let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return fail(what, format!("row {i}: {:?}, expected {:?}", got.get(i), want.get(i)));
        }
        Ok(())
    };
    kv(summary, &want, "summary")?;
    let mut rest = &bx[1..];
    let stu = |r: &RecordOutput| format!("{}/{}/{}", r.storage_number, r.tariff, r.subunit);
    let raw = |r: &RecordOutput| format!("{}{}", r.header_hex, r.data_hex);
    if !o.records.is_empty() {
        let Some(first) = rest.first() else {
            return fail("records", "no record box");
        };
        if first.title.starts_with("Record") {
            for r in &o.records {
                let Some(b) = rest.first() else {
                    return fail("records", format!("record {} is missing", r.index));
                };
                if b.title != format!("Record{}", r.index) {
                    return fail("records", format!("box {:?} where record {} belongs", b.title, r.index));
                }
                let want = [
                    ("Reading", reading(r)),
                    ("Function", r.function.clone()),
                    ("Storage/Tariff/Subunit", stu(r)),
                    ("Coding", r.data_coding.clone()),
                    ("Raw", raw(r)),
                ];
                kv(b, &want, "records")?;
                if !holds(&b.lines[1][1], &want[0].1) {
                    return fail("blanks", format!("record {} reads {:?}, expected {:?}", r.index, b.lines[1][1], want[0].1));
                }
                rest = &rest[1..];
            }
        } else {
            if first.rows.len() != o.records.len() + 1 {
                return fail("records", format!("{} rows for {} records", first.rows.len() - 1, o.records.len()));
            }
            for (i, (row, r)) in first.rows[1..].iter().zip(&o.records).enumerate() {
                if !first.lines[i + 1].get(1).is_some_and(|l| holds(l, &reading(r))) {
                    return fail("blanks", format!("record {i} reads {:?}, expected {:?}", first.lines[i + 1].get(1), reading(r)));
                }
                let want: Vec<String> = match row.len() {
                    6 => vec![r.index.to_string(), reading(r), r.function.clone(), stu(r), r.data_coding.clone(), raw(r)],
                    4 => vec![r.index.to_string(), format!("{}{} · raw {}", reading(r), r.data_coding, raw(r)), r.function.clone(), stu(r)],
                    n => return fail("records", format!("{n} columns")),
                };
                let want: Vec<String> = want.iter().map(|w| norm(w)).collect();
                if *row != want {
                    let i = row.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(0);
                    return fail("records", format!("record {} column {i}: {:?}, expected {:?}", r.index, row[i], want[i]));
                }
            }
            rest = &rest[1..];
        }
    }
    if !o.diagnostics.is_empty() {
        let Some(b) = rest.first() else {
            return fail("diagnostics", "no diagnostics box");
        };
        let want: Vec<(&str, String)> = o.diagnostics.iter().map(|d| (d.code.as_str(), format!("{}: {}", d.severity, d.message))).collect();
        kv(b, &want, "diagnostics")?;
        rest = &rest[1..];
    }
    if !rest.is_empty() {
        return fail("extra", format!("{} further boxes", rest.len()));
    }
    let lines: Vec<usize> = t.lines().map(|l| l.chars().count()).collect();
    out(&(lines, w))
}

/// Telegrams of every frame and header kind.
pub fn telegrams() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![0xE5], gen::short(0x5B, 0xFD), gen::short(0x40, 1), gen::long(0x53, 0xFE, &[0x50, 0x00]), gen::long(0x53, 3, &[])];
    let recs: Vec<u8> = gen::RECORDS.iter().flat_map(|r| r.to_vec()).collect();
    v.push(stream(&recs));
    v.push(stream(&[]));
    v.push(stream(&[0x0F, 1, 2, 3]));
    v.push(stream(&[0x01, 0x13, 0x05, 0x1F]));
    v.push(stream(&[0x7F, 0x2F, 0x04, 0x13, 1]));
    for (i, h) in super::link::headers().iter().enumerate() {
        let mut p = h.clone();
        p.extend([0x01, 0x13, 0x05, 0x42, 0x6C, 0xBF, 0x1C, 0x0C, 0x78, 0x78, 0x56, 0x34, 0x12]);
        v.push(if i % 2 == 0 { gen::long(0x08, 0x01, &p) } else { gen::format_a(&gen::wireless(&LINK, &p)) });
        if p[0] == 0x72 || p[0] == 0x7A {
            let n = if p[0] == 0x72 { 12 } else { 4 };
            p[n] = 0x05;
            v.push(gen::wireless(&LINK, &p));
            v.push(gen::long(0x18, 0xFD, &p));
        }
    }
    v.push(gen::long(0x08, 1, &[0x99, 0x00]));
    v
}

fn c15_widths(ch: &mut Ch) -> Res {
    let d = ch.of(&telegrams());
    let w = ch.n(428);
    let width = if w == 0 { None } else { Some([500, 1000, 4096, 20_000, 65_535, 65_536].get(w.wrapping_sub(422)).copied().unwrap_or(w - 1)) };
    let enrich = ch.flag();
    let key = ch.flag().then_some([0x11u8; 16]);
    check(ch, &d, key, width, enrich)
}

fn c15_records(ch: &mut Ch) -> Res {
    let mut p = gen::any_record(ch);
    if ch.flag() {
        p.extend(gen::any_record(ch));
    }
    let w = 32 + ch.n(99);
    check(ch, &stream(&p), None, Some(w), false)
}

pub(super) fn text_record(text: &[u8]) -> Vec<u8> {
    let mut r = vec![0x0D, 0x78, text.len() as u8];
    r.extend(text.iter().rev());
    r
}

const SPECIAL: [&str; 24] = [
    "é",
    "ß",
    "Ω",
    "漢",
    "字",
    "Ａ",
    "ﾊ",
    "e\u{301}",
    "\u{200B}",
    "\u{200D}",
    "\u{FE0F}",
    "☺\u{FE0F}",
    "👍",
    "👍🏽",
    "👨\u{200D}👩\u{200D}👧",
    "🇩🇪",
    "│",
    "┌",
    "\u{85}",
    "\u{2028}",
    "\u{202E}",
    "\u{AD}",
    "لا",
    "ก\u{E33}",
];

const WIDTHS: [usize; 7] = [32, 33, 50, 71, 72, 99, 100];

fn c15_chars(ch: &mut Ch) -> Res {
    let n = ch.n(41);
    let k = ch.n(256 + SPECIAL.len());
    let text: Vec<u8> = if k < 256 { vec![k as u8; n] } else { SPECIAL[k - 256].repeat(n).into_bytes() };
    let text = if text.len() > 180 { text[..0].to_vec() } else { text };
    let w = ch.of(&WIDTHS);
    check(ch, &stream(&text_record(&text)), None, Some(w), false)
}

fn c15_mixed(ch: &mut Ch) -> Res {
    const A: [&str; 9] = ["a", "漢", "\u{301}", "\u{FE0F}", "☺", "\u{200D}", "👩", "\t", "\n"];
    let n = ch.tier(4, 5);
    let mut text = "x".repeat(ch.n(31));
    for _ in 0..n {
        text.push_str(A[ch.n(A.len())]);
    }
    text.push_str("yz");
    let w = ch.of(&[32usize, 72, 100]);
    check(ch, &stream(&text_record(text.as_bytes())), None, Some(w), false)
}

fn c15_unicode(ch: &mut Ch) -> Res {
    let c = ch.n(0x110000) as u32;
    let all = ch.thorough || matches!(c, 0..=0x2FFF | 0xFE00..=0xFFFF | 0x1F000..=0x1F7FF);
    let Some(c) = char::from_u32(c) else {
        return refused(&c);
    };
    let lead = if all { ch.n(3) } else { 1 };
    let text = format!("{}{}", "x".repeat(lead), c.to_string().repeat(30));
    let w = if all { ch.of(&[40usize, 72, 100]) } else { 72 };
    check(ch, &stream(&text_record(text.as_bytes())), None, Some(w), false)
}

fn c15_long(ch: &mut Ch) -> Res {
    let data = if ch.flag() {
        let n = ch.n(191);
        let text: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        text_record(&text)
    } else {
        match ch.flag() {
            true => (0..ch.n(85)).take(84).flat_map(|i| [0x01, 0x13, i as u8]).collect(),
            false => [0x00, 0x13].repeat(ch.n(127)),
        }
    };
    let w = ch.of(&[32usize, 33, 34, 47, 71, 72, 73, 99, 100, 101, 150, 250]);
    check(ch, &stream(&data), None, Some(w), false)
}

fn c15_tail(ch: &mut Ch) -> Res {
    let p = gen::tail(ch, 250);
    let w = ch.of(&WIDTHS);
    check(ch, &stream(&p), None, Some(w), false)
}

fn c15_header(ch: &mut Ch) -> Res {
    let d = super::link::any_header(ch);
    if super::sec::crc_by_chance(&d) {
        return refused(&"crc");
    }
    let w = ch.of(&[40usize, 100]);
    check(ch, &d, None, Some(w), true)
}

fn c15_cut(ch: &mut Ch) -> Res {
    let mut r = gen::any_record(ch);
    r.extend(gen::any_record(ch));
    let cut = ch.n(r.len() + 1);
    let w = ch.of(&[32usize, 61, 100]);
    check(ch, &stream(&r[..cut]), None, Some(w), false)
}

fn c15_texts(ch: &mut Ch) -> Res {
    let t = gen::long_text(ch);
    let w = ch.of(&[33usize, 50, 72, 100, 200]);
    check(ch, &stream(&text_record(&t)), None, Some(w), false)
}

fn c15_readings(ch: &mut Ch) -> Res {
    let p = gen::reading(ch);
    let w = ch.of(&[40usize, 100]);
    check(ch, &stream(&p), None, Some(w), false)
}

fn c15_opened(ch: &mut Ch) -> Res {
    let (d, key) = sec::any_sealed(ch, true);
    if sec::crc_by_chance(&d) {
        return refused(&"crc");
    }
    check(ch, &d, key, None, false)
}
