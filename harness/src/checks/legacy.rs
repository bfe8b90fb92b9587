//! C24 legacy output formats.

use super::fmt::{parse_csv, yaml_value};
use super::sec::{self, K, KEY, METER};
use super::*;
use crate::gen::{self, LINK};
use crate::model::{App, MOut};
use m_bus_parser::user_data::data_information::DataType;
use m_bus_parser::user_data::{self, DataRecord, UserDataBlock};
use m_bus_parser::{render_bytes, serialize_mbus_data, OutputFormat, RenderOptions, WiredFrame, WirelessFrame};
use serde_json::{json, Map};

pub fn spaces() -> Vec<Space> {
    vec![
        space("C24", "c24-records", "8 clear header kinds x every pair of 35 records (thorough: with separators), wired and Format A", c24_records),
        space("C24", "c24-cut", "every pair of 35 records cut at every position behind 3 header kinds", c24_cut),
        space("C24", "c24-ci", "every CI byte x payload lengths 0..24 x 3 contents, wired and wireless", c24_ci),
        space(
            "C24",
            "c24-mutate",
            "6 (thorough 14) header kinds with records, wired, wireless (thorough: and Format A): every byte replaced by every value",
            c24_mutate,
        ),
        space("C24", "c24-text", "text readings: every byte value in 5 contexts and every sequence of 4 out of 12 special characters", c24_text),
        space(
            "C24",
            "c24-unicode",
            "text readings of every Unicode scalar value (quick: below 0x3100, around the surrogates, FE00..1000F, the emoji and the tags)",
            c24_unicode,
        ),
        space("C24", "c24-readings", "numbers of every coding x 14 value information blocks, dates, times and variable-length numbers: one data byte over every (numbers: 12) values, 4 backgrounds", c24_readings),
        space("C24", "c24-long", "text readings of every length 0..191 of 9 characters, with one of 8 special characters at 3 places or none", c24_long),
        space("C24", "c24-many", "each of 35 records repeated 0 times up to the longest telegram", c24_many),
        space("C24", "c24-tail", "manufacturer data and continuation marks of every length up to the longest telegram x 4 contents x 4 leads", c24_tail),
        space("C24", "c24-header", "every value of every byte of the link header and of 14 application headers, wired and wireless", c24_header),
        space("C24", "c24-head", "every DIF x VIF with extensions and data behind", c24_head),
        space("C24", "c24-sealed", "17 header kinds x 32 modes x 4 block counts x 3 lengths x no, right and wrong key", c24_sealed),
        space("C24", "c24-opened", "encrypted telegrams of 13 header kinds, mode 5 and 7: 12 (thorough all) values of every identity, access number and status byte, and each of 35 records (thorough: pairs) with right, wrong or no key", c24_opened),
        space(
            "C24",
            "c24-length",
            "cleartext and encrypted telegrams with payloads of every length up to the longest telegram, fillers or records (quick: 100 lengths)",
            c24_length,
        ),
        space(
            "C24",
            "c24-hex",
            "a short and a long frame with every choice of spelling per byte (prefix, separator, letter case) in the first 2 (thorough: all) positions",
            c24_hex,
        ),
        space("C24", "c24-chars", "every text of up to 6 characters out of 10: legacy reader against the strict one", c24_chars),
        space("C24", "c24-reject", "all byte strings of length 0..2 (thorough 3): rejected exactly with the decoder", c24_reject),
    ]
}

/// What the record API says about the records of a telegram.
struct Rec {
    display: String,
    /// label of a Mermaid node
    label: String,
    info: String,
    summary: Value,
    full: Value,
    /// the reading as the record API prints it
    data: String,
}

fn rec(r: &DataRecord) -> Rec {
    let vi = r.value_information();
    let mut m = Map::new();
    let v = vi.map(|v| v.to_string());
    let display = format!("({}{}", r.data, v.clone().unwrap_or_else(|| ")".into()));
    m.insert("display".into(), json!(display));
    if let Some(DataType::Number(n) | DataType::LossyNumber(n)) = r.value() {
        m.insert("value".into(), json!(n));
    }
    if let Some(v) = vi {
        m.insert("exponent".into(), json!(v.decimal_scale_exponent));
        let unit: String = v.units.iter().map(ToString::to_string).collect();
        if !unit.is_empty() {
            m.insert("unit".into(), json!(unit));
        }
        let q: Vec<String> = v.labels.iter().map(|l| format!("{l:?}")).collect();
        if !q.is_empty() {
            m.insert("quantity".into(), json!(q.join(", ")));
        }
    }
    let info = r.data_information().map(ToString::to_string).unwrap_or_else(|| "None".into());
    m.insert("data_information".into(), json!(info));
    m.insert("header_hex".into(), json!(r.data_record_header_hex()));
    m.insert("data_hex".into(), json!(r.data_hex()));
    Rec {
        display,
        label: format!("({}{}", r.data, v.unwrap_or_default()),
        info,
        summary: Value::Object(m),
        full: serde_json::to_value(r).unwrap_or(Value::Null),
        data: r.data.to_string(),
    }
}

/// Compares what the record API prints with the model (reading, power of ten, unit) and with itself.
fn printed(r: &Rec, m: &model::MRec) -> Result<(), String> {
    if !crate::seg::quotes_value(&m.val, &r.data) {
        return Err(format!("reading {:?}, model {:?}", r.data, m.val));
    }
    let (Some(vi), s) = (&m.vi, &r.summary) else { return Ok(()) };
    let unit: String = crate::vif::unit_print(&vi.units);
    if s["exponent"] != json!(vi.scale) || s["unit"].as_str().unwrap_or("") != unit {
        return Err(format!("record {s}, model {vi:?}"));
    }
    let Some(mut rest) = r.display.strip_prefix('(').and_then(|t| t.strip_prefix(r.data.as_str())) else {
        return Err(format!("{:?} does not begin with the reading {:?}", r.display, r.data));
    };
    let power = if vi.scale == 0 { String::new() } else { format!("e{}", vi.scale) };
    let words = s["quantity"].as_str().unwrap_or("");
    for part in [&power, &unit].into_iter().map(String::as_str).chain(words.split(", ")) {
        match rest.find(part) {
            Some(i) => rest = &rest[i + part.len()..],
            None => return Err(format!("{:?} does not show {part:?}", r.display)),
        }
    }
    Ok(())
}

/// Records of the record API over the model's readable payload.
fn expected(m: &MOut) -> Vec<Rec> {
    let Some(data) = &m.record_data else {
        return vec![];
    };
    let p = m.payload.as_deref().unwrap_or(&[]);
    let block = UserDataBlock::try_from(p);
    let it = match &block {
        Ok(UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header, .. }) => user_data::parse_data_records_with_header(data, long_tpl_header),
        _ => user_data::parse_data_records(data),
    };
    it.map_while(Result::ok).map(|r| rec(&r)).collect()
}

/// Label of `ID["label"]` with the legacy entities resolved.
fn node(t: &str) -> Result<Option<(String, String)>, String> {
    let Some((id, rest)) = t.split_once("[\"") else {
        return Ok(None);
    };
    let id = id.strip_prefix("subgraph ").unwrap_or(id);
    if id.is_empty() || !id.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
        return Err(format!("node name in {t:?}"));
    }
    let Some(label) = rest.strip_suffix("\"]") else {
        return Err(format!("node end in {t:?}"));
    };
    if label.contains(['"', '[', ']', '\r']) {
        return Err(format!("unescaped content in {t:?}"));
    }
    Ok(Some((id.into(), label.replace("#quot;", "\"").replace("#91;", "[").replace("#93;", "]"))))
}

fn mermaid(text: &str, want: &[Rec], values: &[String]) -> Result<(), String> {
    let mut nodes: Vec<(String, String)> = Vec::new();
    let mut used: Vec<String> = Vec::new();
    let mut depth = 0i32;
    let word = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
    for (i, line) in text.split('\n').enumerate() {
        let t = line.trim_start_matches(' ');
        if i == 0 {
            if t != "flowchart TD" {
                return Err("first line".into());
            }
            continue;
        }
        if let Some(n) = node(t)? {
            if t.starts_with("subgraph ") {
                depth += 1;
            }
            if nodes.iter().any(|o| o.0 == n.0) {
                return Err(format!("node {} defined twice", n.0));
            }
            nodes.push(n);
        } else if t == "end" {
            depth -= 1;
        } else if let Some(s) = t.strip_prefix("style ") {
            let Some((id, css)) = s.split_once(' ') else {
                return Err(format!("style line {line:?}"));
            };
            if !css.chars().all(|c| c.is_ascii_alphanumeric() || ",:#-".contains(c)) {
                return Err(format!("style line {line:?}"));
            }
            used.push(id.into());
        } else if let Some((a, b)) = t.split_once("-->").or_else(|| t.split_once("~~~")) {
            let (a, b) = (a.trim(), b.trim());
            if !word(a) || !word(b) {
                return Err(format!("edge {line:?}"));
            }
            used.extend([a.to_string(), b.to_string()]);
        } else if !t.is_empty() {
            return Err(format!("unexpected line {line:?}"));
        }
        if depth < 0 {
            return Err("unbalanced subgraph".into());
        }
    }
    if depth != 0 {
        return Err("unbalanced subgraph".into());
    }
    if let Some(u) = used.iter().find(|u| !nodes.iter().any(|n| n.0 == **u)) {
        return Err(format!("undefined node {u}"));
    }
    let recs: Vec<&(String, String)> =
        nodes.iter().filter(|n| n.0.strip_prefix('R').is_some_and(|d| !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit()))).collect();
    if recs.len() != want.len() {
        return Err(format!("{} record nodes for {} records", recs.len(), want.len()));
    }
    for (i, (n, w)) in recs.iter().zip(want).enumerate() {
        // entities spelled out in the telegram itself are resolved as well
        let l = w.label.replace(['\n', '\r'], " ").replace("#quot;", "\"").replace("#91;", "[").replace("#93;", "]");
        if n.0 != format!("R{i}") || n.1 != l {
            return Err(format!("record node {i} is {n:?}, expected {l:?}"));
        }
    }
    for v in values {
        if !nodes.iter().any(|n| n.1.contains(v.as_str())) {
            return Err(format!("no node with {v:?}"));
        }
    }
    Ok(())
}

/// JSON has no spelling for non-finite numbers; YAML has.
fn unfinite(v: &mut Value) {
    match v {
        Value::Object(m) => m.values_mut().for_each(unfinite),
        Value::Array(a) => a.iter_mut().for_each(unfinite),
        Value::String(s) if [".nan", ".inf", "-.inf", "NaN", "inf", "-inf"].contains(&s.as_str()) => *v = Value::Null,
        _ => {}
    }
}

fn get(text: &str, f: &str, key: Option<[u8; 16]>) -> String {
    serialize_mbus_data(text, f, key.as_ref())
}

fn check(ch: &mut Ch, d: &[u8], key: Option<[u8; 16]>) -> Res {
    ch.note(|| format!("bytes={}{}", hex(d), key.map(|k| format!(" key={}", hex(&k))).unwrap_or_default()));
    let text = hex(d);
    let without = model::decode(d, None, Opt { skip_7c: true, ..model::opt() });
    let m = match (key, model::decode(d, key.as_ref(), Opt { skip_7c: true, ..model::opt() })) {
        (_, Ok(m)) => Ok(m),
        // a key that cannot be applied leaves the payload closed
        (Some(_), Err(e)) if e.starts_with("security") => without,
        (_, Err(e)) => Err(e),
    };
    let js = get(&text, "json-legacy", key);
    if js != m_bus_parser::mbus_data::parse_to_json(&text, key.as_ref()) {
        return fail("json", "the two JSON entry points differ");
    }
    let v: Value = match serde_json::from_str(&js) {
        Ok(v) => v,
        Err(e) => return fail("json", format!("not JSON: {e}")),
    };
    let ym = get(&text, "yaml-legacy", key);
    let mut y = match serde_yaml::from_str::<serde_yaml::Value>(&ym) {
        Ok(y) => yaml_value(&y),
        Err(e) => return fail("yaml", format!("not YAML: {e}")),
    };
    let csv = match parse_csv(&get(&text, "csv-wide", key)) {
        Ok(c) => c,
        Err(e) => return fail("csv", e),
    };
    let mm = m_bus_parser::mbus_data::parse_to_mermaid(&text, key.as_ref());
    let an: Value = match serde_json::from_str(&get(&text, "annotated-legacy", key)) {
        Ok(v) => v,
        Err(e) => return fail("annotated", format!("not JSON: {e}")),
    };
    let hv: Value = match serde_json::from_str(&get(&text, "hexview-legacy", key)) {
        Ok(v) => v,
        Err(e) => return fail("hexview", format!("not JSON: {e}")),
    };
    ch.ok();
    let Ok(m) = m else {
        if v != json!({}) {
            return fail("rejected", format!("JSON for a rejected telegram: {js}"));
        }
        if y.get("error").is_none() || y.get("summary").is_some() {
            return fail("rejected", format!("YAML for a rejected telegram: {ym}"));
        }
        if csv.len() != 2 || csv[0] != ["Error"] {
            return fail("rejected", format!("CSV for a rejected telegram: {csv:?}"));
        }
        if let Err(e) = mermaid(&mm, &[], &["Error".into()]) {
            return fail("rejected", e);
        }
        if an.get("error").is_none() || hv.get("error").is_none() {
            return fail("rejected", "segments for a rejected telegram");
        }
        return refused(&d.len());
    };
    if m.recs.overflow {
        return refused(&"overflow");
    }
    let want = expected(&m);
    // JSON
    let s = &v["summary"];
    let list: Vec<Value> = want.iter().map(|r| r.summary.clone()).collect();
    if let Some(e) = model::jdiff("summary.records", s.get("records").unwrap_or(&Value::Null), &Value::Array(list)) {
        return fail("json", e);
    }
    if want.len() != m.recs.recs.len() {
        return fail("json", format!("record API has {} records, model {}", want.len(), m.recs.recs.len()));
    }
    for (i, (r, q)) in want.iter().zip(&m.recs.recs).enumerate() {
        if let Err(e) = printed(r, q) {
            return fail("printed", format!("record {i}: {e}"));
        }
    }
    let full = v.get("data_records").cloned().unwrap_or(Value::Null);
    let has = m.record_data.is_some();
    if has {
        let w = Value::Array(want.iter().map(|r| r.full.clone()).collect());
        if let Some(e) = model::jdiff("data_records", &full, &w) {
            return fail("json", e);
        }
    } else if !full.is_null() {
        return fail("json", format!("data records {full} of a telegram without readable records"));
    }
    ch.ok();
    // header fields
    let (i, t) = (&m.json["meter"]["identity"], &m.json["transport"]);
    let kind = match m.json["frame"]["kind"].as_str().unwrap_or("") {
        "long" => "LongFrame",
        "short" => "ShortFrame",
        "control" => "ControlFrame",
        "single_character" => "SingleCharacter",
        _ => "Wireless",
    };
    // names as the link layers print them
    let (function, address) = match WiredFrame::try_from(d) {
        Ok(
            WiredFrame::LongFrame { function, address, .. } | WiredFrame::ControlFrame { function, address, .. } | WiredFrame::ShortFrame { function, address },
        ) => (Some(function), Some(address)),
        Ok(_) => (None, None),
        Err(_) => (WirelessFrame::try_from(&m.normalized[..]).ok().and_then(|f| f.function), None),
    };
    let opt = |v: &Value| (!v.is_null()).then(|| v.clone());
    let fixed = matches!(m.app, Some(App::Fixed { .. }));
    let tpl = matches!(m.app, Some(App::Long { .. } | App::Short { .. } | App::Fixed { .. }));
    let mut fields = vec![
        ("frame_type", Some(json!(kind))),
        ("function", function.map(|f| json!(f.to_string()))),
        ("address", address.map(|a| json!(a.to_string()))),
        ("identification_number", opt(&i["id"])),
        ("encrypted", Some(json!(m.encrypted))),
        ("decrypted", Some(json!(m.decrypted.is_some()))),
        ("encrypted_payload_hex", (m.encrypted && m.decrypted.is_none()).then(|| json!(hex(cipher(&m))))),
    ];
    if tpl {
        fields.push(("access_number", opt(&t["access_numbers"][0]["value"])));
        fields.push(("status", opt(&t["statuses"][0]["display"])));
        fields.push(("security_mode", opt(&m.json["security"]["mode"])));
    }
    if !fixed {
        fields.push(("version", opt(&i["version"])));
        fields.push(("device_type", opt(&i["device_type"])));
        let code = i["manufacturer_code"].as_str();
        let got = s["manufacturer"]["code"].as_str();
        if code.is_some() && code != got {
            return fail("header", format!("manufacturer {got:?}, model {code:?}"));
        }
        let info = code.and_then(m_bus_parser::manufacturers::lookup_manufacturer);
        if s["manufacturer"]["name"].as_str() != info.as_ref().map(|i| i.name) {
            return fail("header", format!("manufacturer details {}", s["manufacturer"]));
        }
    }
    for (k, w) in &fields {
        if s.get(k) != w.as_ref() {
            return fail("header", format!("{k} is {:?}, model {w:?}", s.get(k)));
        }
    }
    ch.ok();
    // YAML says the same
    let mut j = v.clone();
    unfinite(&mut j);
    unfinite(&mut y);
    if let Some(e) = model::jdiff("yaml", &y, &j) {
        return fail("yaml", e);
    }
    ch.ok();
    // CSV
    let mut head: Vec<String> = [
        "FrameType",
        "Function",
        "Address",
        "Identification Number",
        "Manufacturer",
        "Manufacturer Name",
        "Access Number",
        "Status",
        "Security Mode",
        "Version",
        "Device Type",
    ]
    .map(String::from)
    .to_vec();
    let field = |v: &Value| match v {
        Value::Null => String::new(),
        Value::String(s) => s.clone(),
        v => v.to_string(),
    };
    let mut row: Vec<String> = [
        &s["frame_type"],
        &s["function"],
        &s["address"],
        &s["identification_number"],
        &s["manufacturer"]["code"],
        &s["manufacturer"]["name"],
        &s["access_number"],
        &s["status"],
        &s["security_mode"],
        &s["version"],
        &s["device_type"],
    ]
    .map(field)
    .to_vec();
    for (i, r) in want.iter().enumerate() {
        head.extend([format!("DataPoint{}_Value", i + 1), format!("DataPoint{}_Info", i + 1)]);
        row.extend([r.display.clone(), r.info.clone()]);
    }
    if csv != vec![head.clone(), row.clone()] {
        return fail("csv", format!("{csv:?}, expected {head:?} {row:?}"));
    }
    ch.ok();
    // Mermaid
    let mut values: Vec<String> = Vec::new();
    for k in ["function", "address"] {
        if let (Some(x), true) = (s[k].as_str(), kind != "Wireless") {
            values.push(x.into());
        }
    }
    if let Err(e) = mermaid(&mm, &want, &values) {
        return fail("mermaid", e);
    }
    ch.ok();
    // segment views
    let o = RenderOptions { decode: options(None), table_width: None };
    let ok = RenderOptions { decode: options(key), table_width: None };
    let canon =
        |o: &RenderOptions| render_bytes(d, OutputFormat::Annotated, o).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()).unwrap_or(Value::Null);
    if an != canon(&o)["segments"] {
        return fail("annotated", format!("{an} differs from the annotated view"));
    }
    let c = canon(&ok);
    let same = if c["decrypted"] == json!(true) {
        hv["bytes"] == c["bytes"] && hv["segments"] == c["segments"] && hv["decrypted"] == json!(true)
    } else {
        hv == c["segments"]
    };
    if !same {
        return fail("hexview", format!("{hv} differs from the annotated view"));
    }
    ch.ok();
    out(&(kind, row))
}

fn cipher(m: &MOut) -> &[u8] {
    match (&m.app, &m.payload) {
        (Some(App::Long { off, .. } | App::Short { off, .. } | App::EllCrypt { off, .. } | App::NoHeader { off, .. }), Some(p)) => &p[*off..],
        _ => &[],
    }
}

fn heads() -> Vec<Vec<u8>> {
    let mut h = super::ann::clear_headers();
    h.push(gen::long_tpl(0x76, 0));
    h.push(super::link::headers()[9].clone());
    h
}

fn c24_records(ch: &mut Ch) -> Res {
    let mut p = ch.of(&heads());
    p.extend(gen::any_record(ch));
    if ch.thorough {
        p.extend(gen::between(ch));
    }
    p.extend(gen::any_record(ch));
    let d = if ch.flag() { gen::long(0x08, 0x01, &p) } else { gen::format_a(&gen::wireless(&LINK, &p)) };
    check(ch, &d, None)
}

fn c24_cut(ch: &mut Ch) -> Res {
    let h = ch.of(&[vec![0x78], gen::long_tpl(0x72, 0), gen::short_tpl(0)]);
    let mut p = gen::any_record(ch);
    p.extend(gen::any_record(ch));
    let n = ch.n(p.len() + 1);
    p.truncate(n);
    let p = [h, p].concat();
    let d = if p[0] == 0x7A { gen::wireless(&LINK, &p) } else { gen::long(0x08, 0x01, &p) };
    check(ch, &d, None)
}

fn c24_ci(ch: &mut Ch) -> Res {
    let ci = ch.byte();
    let n = ch.n(25);
    let mut p = vec![ci];
    p.extend(match ch.n(3) {
        0 => vec![0x00; n],
        1 => (0..n).map(|i| [0x01u8, 0x13, 0x05][i % 3]).collect(),
        _ => gen::pattern(n, ci),
    });
    let d = if ch.flag() { gen::long(0x08, 0x01, &p) } else { gen::wireless(&LINK, &p) };
    check(ch, &d, None)
}

fn c24_mutate(ch: &mut Ch) -> Res {
    let all = super::link::headers();
    let kinds: &[usize] = ch.tier(&[0, 2, 5, 6, 9, 12], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]);
    let mut p = all[ch.of(kinds)].clone();
    p.extend([0x01, 0x13, 0x05, 0x2F, 0x0C, 0x78, 0x78, 0x56, 0x34, 0x12]);
    let k = ch.n(ch.tier(2, 3));
    let mut d = match k {
        0 => gen::long(0x08, 0x01, &p),
        1 => gen::wireless(&LINK, &p),
        _ => gen::format_a(&gen::wireless(&LINK, &p)),
    };
    let i = ch.n(d.len());
    d[i] = ch.byte();
    if k == 0 && i > 3 && i < d.len() - 2 {
        let n = d.len();
        d[n - 2] = model::checksum(&d[4..n - 2]);
    }
    check(ch, &d, None)
}

fn c24_text(ch: &mut Ch) -> Res {
    let mut t: Vec<u8> = Vec::new();
    if ch.flag() {
        t.extend(ch.of(&["", "A", "\"", "a,b", "#"]).bytes());
        t.push(ch.byte());
        t.extend(ch.of(&["", "Z", "quot;"]).bytes());
    } else {
        let n = ch.n(5);
        for _ in 0..n {
            t.push(ch.of(b"\"\n\r,;[]#:' -"));
        }
    }
    let mut r = vec![0x0D, 0x78, t.len() as u8];
    r.extend(t.iter().rev());
    r.extend([0x01, 0x13, 0x05]);
    check(ch, &stream(&r), None)
}

fn text(ch: &mut Ch, t: &[u8]) -> Res {
    let mut r = vec![0x0D, 0x78, t.len() as u8];
    r.extend(t.iter().rev());
    r.extend([0x01, 0x13, 0x05]);
    check(ch, &stream(&r), None)
}

fn c24_unicode(ch: &mut Ch) -> Res {
    const SOME: [(usize, usize); 5] = [(0, 0x3100), (0xD700, 0xE010), (0xFE00, 0x10010), (0x1F000, 0x1F700), (0xE0000, 0xE0200)];
    let (from, to) = if ch.thorough { (0, 0x110000) } else { ch.of(&SOME) };
    let c = from + ch.n(to - from);
    let Some(c) = char::from_u32(c as u32) else {
        return refused(&c);
    };
    text(ch, format!("a{c}b").as_bytes())
}

fn c24_long(ch: &mut Ch) -> Res {
    let t = gen::long_text(ch);
    text(ch, &t)
}

fn c24_many(ch: &mut Ch) -> Res {
    let p = gen::many(ch, 250);
    check(ch, &stream(&p), None)
}

fn c24_head(ch: &mut Ch) -> Res {
    let (dif, vif) = (ch.byte(), ch.byte());
    let mut p = vec![dif];
    if dif & 0x80 != 0 {
        p.push(0x41);
    }
    p.push(vif);
    if vif & 0x80 != 0 {
        let e: &[u8] = ch.tier(&[0x74], &[0x13, 0x74, 0x3B]);
        p.push(ch.of(e));
    }
    p.extend([0x02, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x01, 0x13, 0x05]);
    check(ch, &stream(&p), None)
}

fn c24_sealed(ch: &mut Ch) -> Res {
    let k = ch.of(&sec::ALL);
    let cfg = (ch.n(32) as u16) << 8 | ch.of(&[0u16, 0x10, 0x20, 0xF0]);
    let n = ch.of(&[0usize, 16, 37]);
    let d = sec::sealed(k, &METER, cfg, &sec::plaintext(n), 0);
    if sec::crc_by_chance(&d) {
        return refused(&"crc");
    }
    let key = ch.of(&[None, Some(KEY), Some([0x11; 16])]);
    check(ch, &d, key)
}

fn c24_length(ch: &mut Ch) -> Res {
    let k = ch.of(&[K::WiredLong, K::RadioLong, K::RadioShort, K::RadioEllShort]);
    let cfg = ch.of(&[0u16, 0x0500, 0x0700]);
    let max = sec::room(k, 0);
    let plain = if ch.flag() {
        vec![0x2F; ch.n(max + 1)]
    } else {
        let n = ch.n(ch.tier(100, max + 1));
        sec::plaintext(if !ch.thorough && n >= 80 { max - (n - 80) } else { n })
    };
    let d = if cfg == 0 { sec::telegram(k, &METER, 0, &plain, 0) } else { sec::sealed(k, &METER, cfg, &plain, 0) };
    if sec::crc_by_chance(&d) {
        return refused(&"crc");
    }
    let d = if k != K::WiredLong && ch.flag() { gen::format_a(&d) } else { d };
    check(ch, &d, (cfg != 0).then_some(KEY))
}

/// The legacy reader understands every text the strict one accepts as the same bytes.
fn readers(ch: &mut Ch, text: &str) -> Res {
    ch.note(|| format!("text={text:?}"));
    let bytes = super::text::model_hex(text);
    let Ok(b) = bytes else {
        let v = get(text, "json-legacy", None);
        return refused(&v.len());
    };
    let compact = hex(&b);
    for f in ["json-legacy", "csv-wide", "yaml-legacy", "annotated-legacy", "hexview-legacy"] {
        ch.ok();
        let (x, y) = (get(text, f, None), get(&compact, f, None));
        if x != y {
            return fail("reader", format!("{f} gives {x:?}, for {compact} {y:?}"));
        }
    }
    let (x, y) = (m_bus_parser::mbus_data::parse_to_mermaid(text, None), m_bus_parser::mbus_data::parse_to_mermaid(&compact, None));
    if x != y {
        return fail("reader", format!("Mermaid gives {x:?}, for {compact} {y:?}"));
    }
    out(&b)
}

fn c24_hex(ch: &mut Ch) -> Res {
    let d = ch.of(&[gen::short(0x5B, 0xAC), gen::long(0x08, 0x01, &[0x78, 0x01, 0x13, 0xAB])]);
    let at = ch.n(ch.tier(2, d.len() - 2));
    const PRE: [&str; 3] = ["", "0x", "0X"];
    const SEP: [&str; 8] = [" ", ":", "-", "\t", "\n", "\r\n", "  ", " - "];
    let base = ch.n(SEP.len());
    let pre = ch.n(PRE.len());
    let mut s = ch.of(&["", " ", "\n", "\u{a0}"]).to_string();
    for (i, b) in d.iter().enumerate() {
        // the chosen window varies, the rest repeats the base spelling
        let (p, sep) = if i >= at && i < at + 2 { (ch.of(&PRE), ch.of(&SEP)) } else { (PRE[pre], SEP[base]) };
        let lower = i % 2 == 0;
        s += p;
        s += &if lower { format!("{b:02x}") } else { format!("{b:02X}") };
        if i + 1 < d.len() {
            s += sep;
        }
    }
    readers(ch, &s)
}

fn c24_chars(ch: &mut Ch) -> Res {
    let n = ch.n(ch.tier(7, 8));
    let s: String = (0..n).map(|_| ch.of(&['E', '5', '0', 'x', 'X', ' ', ':', '-', ',', 'é'])).collect();
    readers(ch, &s)
}

fn c24_reject(ch: &mut Ch) -> Res {
    let n = ch.n(ch.tier(3, 4));
    let d: Vec<u8> = (0..n).map(|_| ch.byte()).collect();
    check(ch, &d, None)
}

fn c24_tail(ch: &mut Ch) -> Res {
    let p = gen::tail(ch, 250);
    check(ch, &stream(&p), None)
}

fn c24_header(ch: &mut Ch) -> Res {
    let d = super::link::any_header(ch);
    if sec::crc_by_chance(&d) {
        return refused(&"crc");
    }
    check(ch, &d, None)
}

fn c24_readings(ch: &mut Ch) -> Res {
    let p = gen::reading(ch);
    check(ch, &stream(&p), None)
}

fn c24_opened(ch: &mut Ch) -> Res {
    let (d, key) = sec::any_sealed(ch, false);
    if sec::crc_by_chance(&d) {
        return refused(&"crc");
    }
    check(ch, &d, key)
}
