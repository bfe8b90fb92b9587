//! C16 JSON, YAML, CSV and Mermaid.

use super::table::{reading, telegrams, value_display};
use super::*;
use crate::gen;
use m_bus_parser::{render_bytes, OutputFormat, RenderOptions};
use serde_json::{json, Map};

pub fn spaces() -> Vec<Space> {
    vec![
        space("C16", "c16-telegrams", "30 telegrams of every frame and header kind, with and without enrichment and key", c16_telegrams),
        space("C16", "c16-records", "every sequence of 1 or 2 of 35 records with 6 separators", c16_records),
        space("C16", "c16-bytes", "text readings of every one and every two bytes", c16_bytes),
        space("C16", "c16-specials", "text readings of every 1..3 (thorough 4) out of 26 characters special to JSON, YAML, CSV or Mermaid", c16_specials),
        space("C16", "c16-words", "36 words with a meaning in YAML, CSV or Mermaid, each before and after every byte value", c16_words),
        space("C16", "c16-unicode", "text readings of every Unicode scalar value in 3 contexts (quick: above 0xFFFF in 1)", c16_unicode),
        space("C16", "c16-values", "every VIF and every FD/FB extension with 9 data codings", c16_values),
        space("C16", "c16-readings", "numbers of every coding x 14 value information blocks, dates, times and variable-length numbers: one data byte over every (numbers: 12) values, 4 backgrounds", c16_readings),
        space("C16", "c16-long", "text readings of every length 0..191 of 9 characters, with one of 8 special characters at 3 places or none", c16_long),
        space("C16", "c16-texts", "three text readings out of 16 special ones in one telegram, with a unit text between", c16_texts),
        space("C16", "c16-context", "each of 35 records behind each of 11 headers, in the clear, encrypted with key and without, enriched or not", c16_context),
        space("C16", "c16-tail", "manufacturer data and continuation marks of every length up to the longest telegram x 4 contents x 4 leads", c16_tail),
        space("C16", "c16-opened", "encrypted telegrams of 13 header kinds, mode 5 and 7: every value of every identity, access number and status byte, and each of 35 records (thorough: pairs) with right, wrong or no key", c16_opened),
        space(
            "C16",
            "c16-header",
            "every value of every byte of the link header and of 14 application headers, wired and wireless, enriched or not",
            c16_header,
        ),
        space("C16", "c16-cut", "pairs of 35 records cut at every position", c16_cut),
        space("C16", "c16-many", "0..83 records of 3 bytes, 0..126 of 2 bytes, up to the longest telegram of each of 35 records", c16_many),
    ]
}

fn put(m: &mut Map<String, Value>, k: &str, v: Option<impl Into<Value>>) {
    if let Some(v) = v {
        m.insert(k.into(), v.into());
    }
}

/// The canonical result as a plain document, member by member.
pub fn document(o: &DecodedOutput) -> Value {
    let identity = |i: &m_bus_parser::output::MeterIdentity| {
        let mut m = Map::new();
        put(&mut m, "source", Some(i.source.clone()));
        put(&mut m, "id", i.id.clone());
        put(&mut m, "manufacturer_code", i.manufacturer_code.clone());
        put(&mut m, "version", i.version);
        put(&mut m, "device_type", i.device_type.clone());
        put(&mut m, "device_type_code", i.device_type_code);
        Value::Object(m)
    };
    let mut frame = Map::new();
    put(&mut frame, "kind", Some(o.frame.kind.clone()));
    put(&mut frame, "function", o.frame.function.clone());
    put(&mut frame, "address", o.frame.address.clone());
    put(&mut frame, "control_field", o.frame.control_field.clone());
    let mut meter = Map::new();
    put(&mut meter, "identity", o.meter.identity.as_ref().map(identity));
    meter.insert("alternate_identities".into(), o.meter.alternate_identities.iter().map(identity).collect());
    let mut t = Map::new();
    put(&mut t, "header_kind", o.transport.header_kind.clone());
    t.insert("access_numbers".into(), o.transport.access_numbers.iter().map(|a| json!({"source": a.source, "value": a.value})).collect());
    t.insert("statuses".into(), o.transport.statuses.iter().map(|s| json!({"source": s.source, "raw": s.raw, "display": s.display})).collect());
    put(&mut t, "configuration", o.transport.configuration.as_ref().map(|c| json!({"source": c.source, "raw": c.raw})));
    if let Some(e) = &o.transport.ell {
        let mut m = Map::new();
        put(&mut m, "communication_control", Some(e.communication_control.clone()));
        put(&mut m, "access_number", Some(e.access_number));
        put(&mut m, "receiver_manufacturer", e.receiver_manufacturer.clone());
        put(&mut m, "receiver_address", e.receiver_address.clone());
        put(&mut m, "session_number", e.session_number.clone());
        put(&mut m, "payload_crc", e.payload_crc.clone());
        t.insert("ell".into(), Value::Object(m));
    }
    let mut s = Map::new();
    put(&mut s, "payload_protection", Some(o.security.payload_protection.clone()));
    put(&mut s, "mode", o.security.mode.clone());
    put(&mut s, "mode_code", o.security.mode_code);
    put(&mut s, "decryption_state", Some(o.security.decryption_state.clone()));
    put(&mut s, "key_supplied", Some(o.security.key_supplied));
    put(&mut s, "encrypted_payload_hex", o.security.encrypted_payload_hex.clone());
    put(&mut s, "decrypted_payload_hex", o.security.decrypted_payload_hex.clone());
    let record = |r: &RecordOutput| {
        let mut v = Map::new();
        put(&mut v, "kind", Some(r.value.kind.clone()));
        put(&mut v, "value", r.value.value.clone());
        let mut m = Map::new();
        put(&mut m, "index", Some(r.index));
        put(&mut m, "function", Some(r.function.clone()));
        put(&mut m, "storage_number", Some(r.storage_number));
        put(&mut m, "tariff", Some(r.tariff));
        put(&mut m, "subunit", Some(r.subunit));
        put(&mut m, "quantities", Some(r.quantities.clone()));
        put(&mut m, "value", Some(Value::Object(v)));
        put(&mut m, "unit", r.unit.clone());
        put(&mut m, "data_coding", Some(r.data_coding.clone()));
        put(&mut m, "header_hex", Some(r.header_hex.clone()));
        put(&mut m, "data_hex", Some(r.data_hex.clone()));
        Value::Object(m)
    };
    let mut raw = Map::new();
    put(&mut raw, "input", o.raw.input.clone());
    put(&mut raw, "original_frame_hex", Some(o.raw.original_frame_hex.clone()));
    put(&mut raw, "normalized_frame_hex", Some(o.raw.normalized_frame_hex.clone()));
    put(&mut raw, "byte_length", Some(o.raw.byte_length));
    put(&mut raw, "format_a_crc_stripped", Some(o.raw.format_a_crc_stripped));
    put(&mut raw, "payload_hex", o.raw.payload_hex.clone());
    let diag = |d: &m_bus_parser::output::Diagnostic| {
        let mut m = Map::new();
        put(&mut m, "severity", Some(d.severity.clone()));
        put(&mut m, "code", Some(d.code.clone()));
        put(&mut m, "layer", Some(d.layer.clone()));
        put(&mut m, "message", Some(d.message.clone()));
        put(&mut m, "offset_start", d.offset_start);
        put(&mut m, "offset_end", d.offset_end);
        Value::Object(m)
    };
    let mut v = json!({
        "schema_version": o.schema_version, "decode_state": o.decode_state, "protocol": o.protocol,
        "frame": frame, "meter": meter, "transport": t, "security": s,
        "records": o.records.iter().map(record).collect::<Vec<_>>(), "raw": raw,
        "diagnostics": o.diagnostics.iter().map(diag).collect::<Vec<_>>(),
    });
    if let Some(e) = &o.enrichment {
        v["enrichment"] = json!({"source": e.source, "manufacturer_code": e.manufacturer_code, "manufacturer_name": e.manufacturer_name,
            "manufacturer_website": e.manufacturer_website, "manufacturer_description": e.manufacturer_description});
    }
    tidy(&mut v);
    v
}

/// Absent and empty members are the same thing.
pub fn tidy(v: &mut Value) {
    match v {
        Value::Object(m) => {
            m.retain(|_, x| !x.is_null() && x.as_array().is_none_or(|a| !a.is_empty()));
            m.values_mut().for_each(tidy);
        }
        Value::Array(a) => a.iter_mut().for_each(tidy),
        _ => {}
    }
}

/// RFC 4180.
pub fn parse_csv(text: &str) -> Result<Vec<Vec<String>>, String> {
    let c: Vec<char> = text.chars().collect();
    let mut rows = vec![vec![]];
    let mut i = 0;
    while i < c.len() {
        let mut field = String::new();
        if c[i] == '"' {
            i += 1;
            loop {
                match c.get(i) {
                    None => return Err("unterminated quote".into()),
                    Some('"') if c.get(i + 1) == Some(&'"') => {
                        field.push('"');
                        i += 2;
                    }
                    Some('"') => {
                        i += 1;
                        break;
                    }
                    Some(x) => {
                        field.push(*x);
                        i += 1;
                    }
                }
            }
            if !matches!(c.get(i), None | Some(',' | '\n' | '\r')) {
                return Err(format!("text after a quoted field at {i}"));
            }
        } else {
            while i < c.len() && !matches!(c[i], ',' | '\n' | '\r') {
                if c[i] == '"' {
                    return Err(format!("quote inside a bare field at {i}"));
                }
                field.push(c[i]);
                i += 1;
            }
        }
        rows.last_mut().unwrap().push(field);
        match c.get(i) {
            Some(',') => {
                i += 1;
                if i == c.len() {
                    rows.last_mut().unwrap().push(String::new());
                }
            }
            Some('\r') if c.get(i + 1) == Some(&'\n') => {
                i += 2;
                rows.push(vec![]);
            }
            Some('\n') => {
                i += 1;
                rows.push(vec![]);
                // an empty first field
                if c.get(i) == Some(&',') {
                    continue;
                }
            }
            Some(x) => return Err(format!("unexpected {x:?} at {i}")),
            None => {}
        }
    }
    if rows.last().is_some_and(|r| r.is_empty()) {
        rows.pop();
    }
    Ok(rows)
}

fn csv_want(o: &DecodedOutput) -> Vec<(String, String)> {
    let s = |x: &Option<String>| x.clone().unwrap_or_default();
    let id = o.meter.identity.as_ref();
    let join = |v: Vec<String>| v.join("|");
    let mut w: Vec<(String, String)> = [
        ("schema_version", o.schema_version.to_string()),
        ("protocol", o.protocol.clone()),
        ("frame_kind", o.frame.kind.clone()),
        ("frame_function", s(&o.frame.function)),
        ("address", s(&o.frame.address)),
        ("meter_id", id.map(|i| s(&i.id)).unwrap_or_default()),
        ("manufacturer_code", id.map(|i| s(&i.manufacturer_code)).unwrap_or_default()),
        ("identity_source", id.map(|i| i.source.clone()).unwrap_or_default()),
        ("access_numbers", join(o.transport.access_numbers.iter().map(|a| format!("{}:{}", a.source, a.value)).collect())),
        ("status_codes", join(o.transport.statuses.iter().map(|a| a.raw.clone()).collect())),
        ("security_mode", s(&o.security.mode)),
        ("decryption_state", o.security.decryption_state.clone()),
        ("decode_state", o.decode_state.clone()),
        ("record_count", o.records.len().to_string()),
        ("diagnostic_codes", join(o.diagnostics.iter().map(|a| a.code.clone()).collect())),
        ("manufacturer_name", o.enrichment.as_ref().map(|e| e.manufacturer_name.clone()).unwrap_or_default()),
        ("manufacturer_website", o.enrichment.as_ref().map(|e| e.manufacturer_website.clone()).unwrap_or_default()),
        ("frame_hex", o.raw.original_frame_hex.clone()),
    ]
    .into_iter()
    .map(|(k, v)| (k.to_string(), v))
    .collect();
    for (i, r) in o.records.iter().enumerate() {
        for (k, v) in [
            ("function", r.function.clone()),
            ("storage_number", r.storage_number.to_string()),
            ("tariff", r.tariff.to_string()),
            ("subunit", r.subunit.to_string()),
            ("quantities", r.quantities.join("|")),
            ("value_type", r.value.kind.clone()),
            ("value", value_display(r)),
            ("unit", s(&r.unit)),
            ("data_coding", r.data_coding.clone()),
            ("header_hex", r.header_hex.clone()),
            ("data_hex", r.data_hex.clone()),
        ] {
            w.push((format!("record_{i}_{k}"), v));
        }
    }
    w
}

/// Label of a node definition line `ID["label"]`, entities resolved.
fn node(line: &str) -> Result<Option<(String, String)>, String> {
    let t = line.trim_start_matches(' ');
    let Some((id, rest)) = t.split_once("[\"") else {
        return Ok(None);
    };
    let id = id.strip_prefix("subgraph ").unwrap_or(id);
    if id.is_empty() || !id.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
        return Err(format!("node name in {line:?}"));
    }
    let Some(label) = rest.strip_suffix("\"]") else {
        return Err(format!("node end in {line:?}"));
    };
    if label.contains(['"', '<', '>']) {
        return Err(format!("unescaped content in {line:?}"));
    }
    let mut text = String::new();
    let mut l = label;
    while let Some(i) = l.find('&') {
        text.push_str(&l[..i]);
        l = &l[i..];
        let mut hit = false;
        for (e, c) in [("&amp;", '&'), ("&quot;", '"'), ("&lt;", '<'), ("&gt;", '>')] {
            if let Some(r) = l.strip_prefix(e) {
                text.push(c);
                l = r;
                hit = true;
                break;
            }
        }
        if !hit {
            return Err(format!("bare ampersand in {line:?}"));
        }
    }
    text.push_str(l);
    Ok(Some((id.to_string(), text)))
}

fn mermaid(o: &DecodedOutput, text: &str) -> Result<(), String> {
    let mut nodes: Vec<(String, String)> = Vec::new();
    let mut depth = 0i32;
    let word = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
    for (i, line) in text.split('\n').enumerate() {
        let t = line.trim_start_matches(' ');
        if i == 0 {
            if t != "flowchart TD" {
                return Err("first line".into());
            }
            continue;
        }
        if let Some(n) = node(line)? {
            if t.starts_with("subgraph ") {
                depth += 1;
            }
            nodes.push(n);
            continue;
        }
        let edge = t.split_once(" --> ").or_else(|| t.split_once(" ~~~ "));
        if t == "end" {
            depth -= 1;
        } else if t.is_empty() || t == "direction LR" || t.starts_with("classDef ") || t.starts_with("class ") || t.starts_with("style ") {
            // fixed text
            if !t.chars().all(|c| c.is_ascii_alphanumeric() || " _,:#-.".contains(c)) {
                return Err(format!("unexpected line {line:?}"));
            }
        } else if edge.is_some_and(|(a, b)| word(a) && word(b)) {
        } else {
            return Err(format!("unexpected line {line:?}"));
        }
        if depth < 0 {
            return Err("unbalanced subgraph".into());
        }
    }
    if depth != 0 {
        return Err("unbalanced subgraph".into());
    }
    // nodes with content from the telegram, in order
    let flat = |s: &str| s.replace('\n', " ");
    let rec: Vec<&(String, String)> =
        nodes.iter().filter(|n| n.0.strip_prefix('R').is_some_and(|d| !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit()))).collect();
    if rec.len() != o.records.len() {
        return Err(format!("{} record nodes for {} records", rec.len(), o.records.len()));
    }
    for (i, (n, r)) in rec.iter().zip(&o.records).enumerate() {
        if n.0 != format!("R{i}") || n.1 != flat(&reading(r)) {
            return Err(format!("record node {i} is {n:?}, expected {:?}", reading(r)));
        }
    }
    let mut want: Vec<(&str, String)> = vec![("FRAME_KIND", o.protocol.clone()), ("FRAME_KIND", o.frame.kind.clone())];
    if let Some(f) = &o.frame.function {
        want.push(("FRAME_FUNCTION", f.clone()));
    }
    if let Some(a) = &o.frame.address {
        want.push(("FRAME_ADDRESS", a.clone()));
    }
    if let Some(i) = &o.meter.identity {
        want.push(("METER_ID", i.id.clone().unwrap_or_default()));
        want.push(("METER_MANUFACTURER", i.manufacturer_code.clone().unwrap_or_default()));
        want.push(("METER_TYPE", i.device_type.clone().unwrap_or_default()));
        if let Some(v) = i.version {
            want.push(("METER_VERSION", v.to_string()));
        }
    }
    want.push(("SECURITY_MODE", o.security.payload_protection.clone()));
    want.push(("SECURITY_STATE", o.security.decryption_state.clone()));
    if let Some(d) = o.diagnostics.first() {
        want.push(("DIAG", d.code.clone()));
    }
    for (id, text) in want {
        if !nodes.iter().any(|n| n.0 == id && n.1.contains(&text)) {
            return Err(format!("no node {id} with {text:?}"));
        }
    }
    Ok(())
}

pub fn yaml_value(y: &serde_yaml::Value) -> Value {
    use serde_yaml::Value as Y;
    match y {
        Y::Null => Value::Null,
        Y::Bool(b) => json!(b),
        Y::Number(n) => {
            if let Some(u) = n.as_u64() {
                json!(u)
            } else if let Some(i) = n.as_i64() {
                json!(i)
            } else {
                json!(n.as_f64())
            }
        }
        Y::String(s) => json!(s),
        Y::Sequence(a) => a.iter().map(yaml_value).collect(),
        Y::Mapping(m) => Value::Object(m.iter().map(|(k, v)| (k.as_str().unwrap_or("?").to_string(), yaml_value(v))).collect()),
        // an enum variant, an object of one field in JSON
        Y::Tagged(t) => json!({ t.tag.to_string().trim_start_matches('!'): yaml_value(&t.value) }),
    }
}

fn check(ch: &mut Ch, d: &[u8], key: Option<[u8; 16]>, enrich: bool) -> Res {
    ch.note(|| format!("bytes={} enrichment={enrich}{}", hex(d), key.map(|k| format!(" key={}", hex(&k))).unwrap_or_default()));
    let opts = DecodeOptions { key, include_enrichment: enrich };
    let ropts = RenderOptions { decode: opts.clone(), table_width: None };
    let o = m_bus_parser::decode_bytes(d, &opts);
    let r = |f: OutputFormat| render_bytes(d, f, &ropts);
    let all = [r(OutputFormat::Json), r(OutputFormat::Yaml), r(OutputFormat::Csv), r(OutputFormat::Mermaid)];
    ch.ok();
    let o = match o {
        Err(e) => {
            for x in &all {
                match x {
                    Err(f) if f.code() == e.code() => {}
                    _ => return fail("error", "a format differs from the decoder's error"),
                }
            }
            return refused(&e.code());
        }
        Ok(o) => o,
    };
    let mut texts = Vec::new();
    for x in all {
        match x {
            Ok(t) => texts.push(t),
            Err(e) => return fail("error", format!("rendering fails with {}", e.code())),
        }
    }
    let want = document(&o);
    let mut js: Value = match serde_json::from_str(&texts[0]) {
        Ok(v) => v,
        Err(e) => return fail("json", e.to_string()),
    };
    tidy(&mut js);
    if let Some(d) = model::jdiff("", &js, &want) {
        return fail("json", d);
    }
    ch.ok();
    let mut ym: Value = match serde_yaml::from_str::<serde_yaml::Value>(&texts[1]) {
        Ok(v) => yaml_value(&v),
        Err(e) => return fail("yaml", e.to_string()),
    };
    tidy(&mut ym);
    if let Some(d) = model::jdiff("", &ym, &want) {
        return fail("yaml", d);
    }
    ch.ok();
    let rows = match parse_csv(&texts[2]) {
        Ok(r) => r,
        Err(e) => return fail("csv", e),
    };
    if rows.len() != 2 || rows[0].len() != rows[1].len() {
        return fail("csv", format!("rows of {:?} fields", rows.iter().map(Vec::len).collect::<Vec<_>>()));
    }
    let got: Vec<(String, String)> = rows[0].iter().cloned().zip(rows[1].iter().cloned()).collect();
    let exp = csv_want(&o);
    if got != exp {
        let i = got.iter().zip(&exp).position(|(a, b)| a != b).unwrap_or(got.len().min(exp.len()));
        return fail("csv", format!("column {i}: {:?}, expected {:?}", got.get(i), exp.get(i)));
    }
    ch.ok();
    if let Err(e) = mermaid(&o, &texts[3]) {
        return fail("mermaid", e);
    }
    ch.ok();
    out(&texts[2])
}

fn c16_telegrams(ch: &mut Ch) -> Res {
    let d = ch.of(&telegrams());
    let key = ch.flag().then_some([0x22u8; 16]);
    let e = ch.flag();
    check(ch, &d, key, e)
}

fn c16_records(ch: &mut Ch) -> Res {
    let mut p = gen::between(ch);
    p.extend(gen::any_record(ch));
    p.extend(gen::between(ch));
    if ch.flag() {
        p.extend(gen::any_record(ch));
    }
    check(ch, &stream(&p), None, false)
}

fn text_stream(text: &[u8]) -> Vec<u8> {
    let mut r = vec![0x0D, 0x78, text.len() as u8];
    r.extend(text.iter().rev());
    r.extend([0x01, 0x13, 0x05]);
    stream(&r)
}

fn c16_bytes(ch: &mut Ch) -> Res {
    let a = ch.byte();
    let t = if ch.flag() { vec![a, ch.byte()] } else { vec![a] };
    check(ch, &text_stream(&t), None, false)
}

fn c16_specials(ch: &mut Ch) -> Res {
    const A: &[u8] = b"\"'<>&,;:#|-\n\r\t \\{}[]%@`a0~";
    let n = 1 + ch.n(ch.tier(3, 4));
    let t: Vec<u8> = (0..n).map(|_| A[ch.n(A.len())]).collect();
    check(ch, &text_stream(&t), None, false)
}

fn c16_words(ch: &mut Ch) -> Res {
    const W: [&str; 36] = [
        "",
        "null",
        "true",
        "False",
        "yes",
        "NO",
        "on",
        "~",
        "1",
        "-1",
        "1.5",
        "1e3",
        "0x1F",
        "0o7",
        "1_000",
        ".inf",
        ".nan",
        "2020-01-01",
        "12:30:45",
        "- a",
        "a: b",
        "# c",
        "? k",
        "!t",
        "&a",
        "*a",
        "---",
        "...",
        "end",
        "R0[\"x\"]",
        "A --> B",
        "%%{init}",
        "=1+1",
        "\"q\"",
        "'s'",
        "|",
    ];
    let w = ch.of(&W).as_bytes().to_vec();
    let b = ch.n(257);
    let t = match (ch.flag(), b) {
        (_, 256) => w,
        (true, b) => [w, vec![b as u8]].concat(),
        (false, b) => [vec![b as u8], w].concat(),
    };
    check(ch, &text_stream(&t), None, false)
}

fn c16_unicode(ch: &mut Ch) -> Res {
    let c = ch.n(0x110000);
    let Some(c) = char::from_u32(c as u32) else {
        return refused(&c);
    };
    let k = if ch.thorough || u32::from(c) < 0x10000 { ch.n(3) } else { 1 };
    let text = match k {
        0 => format!("{c}"),
        1 => format!("a{c}b"),
        _ => format!("{c} {c}"),
    };
    check(ch, &text_stream(text.as_bytes()), None, false)
}

fn c16_values(ch: &mut Ch) -> Res {
    let codings: [(u8, &[u8]); 9] = [
        (0x00, &[]),
        (0x01, &[0xF3]),
        (0x02, &[0xFF, 0x1C]),
        (0x04, &[0x32, 0x37, 0x1F, 0x15]),
        (0x05, &[0x00, 0x00, 0xC0, 0x7F]),
        (0x05, &[0xDB, 0x0F, 0x49, 0x40]),
        (0x06, &[0x1E, 0x0A, 0x10, 0x00, 0x1A, 0x00]),
        (0x0C, &[0x78, 0x56, 0x34, 0x12]),
        (0x0D, &[0x02, b'"', b',']),
    ];
    let (dif, data) = ch.of(&codings);
    let lead = ch.of(&[0u8, 0xFD, 0xFB, 0xFC]);
    let v = ch.byte();
    let mut p = vec![dif];
    if lead != 0 {
        p.push(lead);
    }
    p.push(v);
    if v & 0x80 != 0 {
        p.push(0x3B);
    }
    p.extend(data);
    p.extend([0x01, 0x13, 0x05]);
    check(ch, &stream(&p), None, false)
}

fn c16_long(ch: &mut Ch) -> Res {
    let t = gen::long_text(ch);
    check(ch, &text_stream(&t), None, false)
}

fn c16_texts(ch: &mut Ch) -> Res {
    const T: [&str; 16] = ["", "a", "\"", "\"\"", "a,b", "\n", "\r\n", "- x", "x: y", "#", "'", "]", "end", "\u{feff}", "null", "1e3"];
    let mut p = vec![];
    for i in 0..3 {
        let t = ch.of(&T).as_bytes();
        p.extend([0x0D, 0x78, t.len() as u8]);
        p.extend(t.iter().rev());
        if i == 1 {
            p.extend(gen::plaintext_record(crate::pbe()));
        }
    }
    check(ch, &stream(&p), None, false)
}

fn c16_context(ch: &mut Ch) -> Res {
    let k = ch.of(&sec::OPEN);
    let mut data = gen::any_record(ch);
    data.extend([0x01, 0x13, 0x05]);
    let e = ch.flag();
    let (cfg, key) = ch.of(&[(0, None), (0, Some(sec::KEY)), (0x0500, None), (0x0500, Some(sec::KEY)), (0x0500, Some([0x11; 16]))]);
    let framing = ch.n(2);
    let content = if cfg == 0 { data } else { sec::seal(k, &sec::METER, cfg, &data, &sec::KEY) };
    check(ch, &sec::telegram(k, &sec::METER, cfg, &content, framing), key, e)
}

fn c16_many(ch: &mut Ch) -> Res {
    let data: Vec<u8> = match ch.n(3) {
        0 => (0..ch.n(84)).flat_map(|i| [0x01, 0x13, i as u8]).collect(),
        1 => [0x00, 0x13].repeat(ch.n(127)),
        _ => {
            let r = gen::any_record(ch);
            r.repeat(252 / r.len() - ch.n(2))
        }
    };
    check(ch, &stream(&data), None, true)
}

fn c16_tail(ch: &mut Ch) -> Res {
    let p = gen::tail(ch, 250);
    check(ch, &stream(&p), None, false)
}

fn c16_header(ch: &mut Ch) -> Res {
    let d = super::link::any_header(ch);
    if sec::crc_by_chance(&d) {
        return refused(&"crc");
    }
    let e = ch.flag();
    check(ch, &d, None, e)
}

fn c16_cut(ch: &mut Ch) -> Res {
    let mut r = gen::any_record(ch);
    r.extend(gen::any_record(ch));
    let cut = ch.n(r.len() + 1);
    check(ch, &stream(&r[..cut]), None, false)
}

fn c16_readings(ch: &mut Ch) -> Res {
    let p = gen::reading(ch);
    check(ch, &stream(&p), None, false)
}

fn c16_opened(ch: &mut Ch) -> Res {
    let (d, key) = sec::any_sealed(ch, true);
    if sec::crc_by_chance(&d) {
        return refused(&"crc");
    }
    check(ch, &d, key, false)
}
