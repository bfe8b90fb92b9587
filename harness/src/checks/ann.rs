//! C14 annotated view.

use super::link::headers;
use super::*;
use crate::gen::{self, LINK};
use crate::seg;
use m_bus_parser::annotate::{annotate_frame, ByteSegment};

pub fn spaces() -> Vec<Space> {
    vec![
        space("C14", "c14-ci", "every CI byte with every payload length 0..24 and 4 contents, wired long, control and 4 wireless framings", c14_ci),
        space(
            "C14",
            "c14-byte",
            "each of 14 header kinds with every value of every header byte, records behind or not, wired and 4 wireless framings",
            c14_byte,
        ),
        both(space("C14", "c14-records", "every sequence of 2 of 35 records with 6 separators before, between and after, behind 7 header kinds", c14_records)),
        both(space("C14", "c14-trunc", "every pair of 35 records cut at every byte, wired, plain wireless, Format A and trailing CRC", c14_trunc)),
        both(space("C14", "c14-head", "every DIF x VIF with 14 extension and length shapes, wired", c14_head)),
        both(space("C14", "c14-stream", "every record stream of 0..2 (thorough 3) bytes, in wired and Format A telegrams", c14_stream)),
        space(
            "C14",
            "c14-len",
            "record payloads of every length up to the longest telegram in 3 contents, wired and 4 wireless framings, encrypted or not",
            c14_len,
        ),
        space("C14", "c14-run", "runs of 0..205 fillers, marks or reserved bytes of 4 values before, between and behind records behind 3 (thorough: 7) header kinds, wired, plain wireless, Format A and trailing CRC", c14_run),
        space("C14", "c14-tail", "manufacturer data and continuation marks of every length up to the longest telegram x 4 contents x 4 leads behind 7 header kinds, wired, plain wireless, Format A and trailing CRC", c14_tail),
        space("C14", "c14-many", "each of 35 records repeated 0 times up to the longest telegram behind 3 header kinds, wired, plain wireless, Format A and trailing CRC", c14_many),
        space("C14", "c14-readings", "numbers of every coding x 14 value information blocks, dates, times and variable-length numbers: one data byte over every (numbers: 12) values, 4 backgrounds", c14_readings),
        space("C14", "c14-kinds", "acknowledge, every C x A short frame, every C x 8 A long frame with 4 payload lengths", c14_kinds),
        space("C14", "c14-reject", "truncations, extensions and single-byte changes of telegrams: annotated exactly when decoded", c14_reject),
        space("C14", "c14-views", "annotated JSON and text of 14 header kinds x 35 records x encryption x 5 framings", c14_views),
    ]
}

pub fn seg_of(s: &ByteSegment) -> (usize, usize, String, Option<usize>, String) {
    (s.start, s.end, format!("{:?}", s.kind), s.group, format!("{:?}", s.layer))
}

pub fn cover(segs: &[ByteSegment], len: usize) -> Result<(), Fail> {
    let mut p = 0;
    for s in segs {
        if s.start != p || s.end <= s.start {
            return fail("cover", format!("segment {}..{} follows byte {p}", s.start, s.end));
        }
        p = s.end;
    }
    if p != len {
        return fail("cover", format!("segments end at {p} of {len}"));
    }
    Ok(())
}

fn check(ch: &mut Ch, d: &[u8]) -> Res {
    ch.note(|| format!("bytes={}", hex(d)));
    let got = annotate_frame(d);
    let dec = decode(d, None);
    ch.ok();
    let segs = match (&got, &dec) {
        (Err(_), Err(_)) => return refused(&d.len()),
        (Err(e), Ok(_)) => return fail("refused", format!("the decoder accepts it, the annotator fails: {e}")),
        (Ok(_), Err(e)) => return fail("accepted", format!("annotated although the decoder fails with {}", e.code())),
        (Ok(s), Ok(_)) => s,
    };
    cover(segs, d.len())?;
    let o = Opt { skip_7c: true, ..model::opt() };
    let dec = dec.ok();
    let records = dec.as_ref().map(|o| o.records.as_slice()).unwrap_or(&[]);
    // record groups against the decoder
    let mut groups: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
    for s in segs {
        let Some(g) = s.group else { continue };
        if g > groups.len() || g + 1 < groups.len() {
            return fail("group", format!("record group {g} after {}", groups.len()));
        }
        if g == groups.len() {
            groups.push(Default::default());
        }
        let bytes = &d[s.start..s.end];
        match format!("{:?}", s.kind).as_str() {
            "DataPayload" => groups[g].1.extend(bytes),
            "ManufacturerSpecific" if groups[g].0.is_empty() => {
                groups[g].0.push(bytes[0]);
                groups[g].1.extend(&bytes[1..]);
            }
            "ManufacturerSpecific" => groups[g].1.extend(bytes),
            _ => groups[g].0.extend(bytes),
        }
    }
    if groups.len() != records.len() {
        return fail("records", format!("{} record groups, decoder reports {} records", groups.len(), records.len()));
    }
    for (i, (g, r)) in groups.iter().zip(records).enumerate() {
        if (model::spaced(&g.0), model::spaced(&g.1)) != (r.header_hex.clone(), r.data_hex.clone()) {
            return fail("records", format!("group {i} is {} / {}, decoder has {} / {}", hex(&g.0), hex(&g.1), r.header_hex, r.data_hex));
        }
    }
    // names and positions against the model
    let Some(want) = seg::segments(d, false, o) else {
        return fail("model", "model refuses the telegram");
    };
    if model::decode(d, None, o).is_ok_and(|m| m.recs.overflow) {
        return refused(&"capacity");
    }
    let a: Vec<_> = segs.iter().map(seg_of).collect();
    let b: Vec<_> = want.iter().map(|s| (s.start, s.end, s.kind.to_string(), s.group, s.layer.to_string())).collect();
    if a != b {
        let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        return fail("segment", format!("segment {i}: {:?}, model {:?}", a.get(i), b.get(i)));
    }
    for (s, w) in segs.iter().zip(&want) {
        if !w.quotes(&s.detail) {
            return fail("detail", format!("{} at {}..{} is described as {:?}", w.kind, s.start, s.end, s.detail));
        }
    }
    out(&b.iter().map(|s| (s.1 - s.0, &s.2, s.3)).collect::<Vec<_>>())
}

fn in_frame(ch: &mut Ch, payload: &[u8]) -> Vec<u8> {
    match ch.n(5) {
        0 => gen::long(0x08, 0x01, payload),
        _ if payload.is_empty() => gen::long(0x53, 0x01, payload),
        k => {
            let f = gen::wireless(&LINK, payload);
            super::link::framing(k - 1, &f)
        }
    }
}

fn c14_ci(ch: &mut Ch) -> Res {
    let ci = ch.byte();
    let n = ch.n(25);
    let mut p = vec![ci];
    p.extend(match ch.n(4) {
        0 => vec![0x00; n],
        1 => (0..n).map(|i| [0x01u8, 0x13, 0x05][i % 3]).collect(),
        2 => (0..n).map(|i| (i * 0x11 % 0x9A) as u8 & 0x77).collect(),
        _ => gen::pattern(n, ci),
    });
    let d = if ch.flag() { gen::long(0x53, 0xFE, &p) } else { in_frame(ch, &p) };
    check(ch, &d)
}

fn c14_byte(ch: &mut Ch) -> Res {
    let mut h = ch.of(&headers());
    let p = ch.n(h.len());
    h[p] = ch.byte();
    if ch.flag() {
        h.extend([0x01, 0x13, 0x05, 0x02, 0x5B, 0x17, 0x00]);
    }
    let d = in_frame(ch, &h);
    check(ch, &d)
}

/// Headers that leave the records readable.
pub fn clear_headers() -> Vec<Vec<u8>> {
    let h = headers();
    vec![vec![0x78], h[0].clone(), h[1].clone(), h[2].clone(), h[3].clone(), h[10].clone(), h[11].clone(), h[14].clone()]
}

fn c14_records(ch: &mut Ch) -> Res {
    let mut p = ch.of(&clear_headers());
    p.extend(gen::between(ch));
    p.extend(gen::any_record(ch));
    p.extend(gen::between(ch));
    p.extend(gen::any_record(ch));
    p.extend(gen::between(ch));
    if ch.thorough && ch.flag() {
        p.push(ch.of(&[0x0Fu8, 0x1F]));
        p.extend([0x01, 0x13, 0x05]);
    }
    check(ch, &gen::long(0x08, 0x01, &p))
}

fn c14_trunc(ch: &mut Ch) -> Res {
    let mut p = vec![0x78];
    p.extend(gen::any_record(ch));
    p.extend(gen::any_record(ch));
    let cut = ch.n(p.len());
    p.truncate(p.len() - cut);
    let d = in_frame(ch, &p);
    check(ch, &d)
}

fn c14_head(ch: &mut Ch) -> Res {
    let (dif, vif) = (ch.byte(), ch.byte());
    let ext: [&[u8]; 7] = [&[], &[0x01], &[0x81, 0x02], &[0xFF, 0x8F, 0x7F], &[0x80; 10], &[0x3B], &[0xFC, 0x7C]];
    let k = ch.n(14);
    let mut p = vec![dif];
    let e = ext[k % 7];
    if dif & 0x80 != 0 {
        p.push(if e.len() > 1 { 0xC1 } else { 0x41 });
        if e.len() > 1 {
            p.push(0x05);
        }
    }
    p.push(vif);
    p.extend(e);
    if e.len() == 10 {
        p.push(0x00);
    }
    p.extend(if k < 7 {
        vec![0x02, 0x31, 0x32, 0x33, 0x01, 0x13, 0x05]
    } else {
        vec![0x04, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x01, 0x13, 0x05, 0x2F]
    });
    check(ch, &stream(&p))
}

fn c14_stream(ch: &mut Ch) -> Res {
    let n = ch.n(ch.tier(3, 4));
    let mut p = vec![0x78];
    for _ in 0..n {
        p.push(ch.byte());
    }
    let d = if ch.flag() { gen::format_a(&gen::wireless(&LINK, &p)) } else { gen::long(0x08, 0x01, &p) };
    check(ch, &d)
}

fn c14_len(ch: &mut Ch) -> Res {
    let cfg = ch.of(&[0x0000u16, 0x0500, 0x0700]);
    let mut p = match ch.n(3) {
        0 => gen::short_tpl(cfg),
        1 => gen::long_tpl(0x72, cfg),
        _ => [vec![0x8C, 0x00, 0x01], gen::short_tpl(cfg)].concat(),
    };
    let k = ch.n(5);
    let max = if k == 0 { 253 } else { super::link::ROOM[k - 1] };
    let n = ch.n(max + 1 - p.len());
    p.extend(match ch.n(3) {
        0 => (0..n).map(|i| [0x01u8, 0x13, 0x05][i % 3]).collect::<Vec<u8>>(),
        1 => vec![0x2F; n],
        _ => gen::pattern(n, 0x31),
    });
    let d = if k == 0 { gen::long(0x08, 0x01, &p) } else { super::link::framing(k - 1, &gen::wireless(&LINK, &p)) };
    check(ch, &d)
}

fn c14_kinds(ch: &mut Ch) -> Res {
    let d = match ch.n(3) {
        0 => vec![0xE5],
        1 => gen::short(ch.byte(), ch.byte()),
        _ => {
            let c = ch.byte();
            let a = ch.of(&[0u8, 1, 250, 251, 252, 253, 254, 255]);
            let n = ch.n(4);
            gen::long(c, a, &[0x78, 0x01, 0x13][..n])
        }
    };
    check(ch, &d)
}

fn c14_reject(ch: &mut Ch) -> Res {
    let mut p = ch.of(&headers());
    p.extend([0x01, 0x13, 0x05, 0x0C, 0x78, 0x78, 0x56, 0x34, 0x12]);
    let mut d = in_frame(ch, &p);
    match ch.n(3) {
        0 => {
            let n = ch.n(d.len());
            d.truncate(n);
        }
        1 => {
            let x = ch.of(&[0x00u8, 0x16, 0x2F, 0xFF]);
            for _ in 0..=ch.n(3) {
                d.push(x);
            }
        }
        _ => {
            let i = ch.n(d.len());
            d[i] ^= ch.of(&[0x01u8, 0x10, 0x80, 0xFF, 0x42]);
        }
    }
    check(ch, &d)
}

/// Field names of the text view by the name the JSON view gives the field.
const FIELD: [(&str, &str); 29] = [
    ("start_byte", "Start Byte"),
    ("length", "Length"),
    ("c_field", "C Field"),
    ("a_field", "A Field"),
    ("checksum", "Checksum"),
    ("stop_byte", "Stop Byte"),
    ("ci_field", "CI Field"),
    ("identification_number", "Identification Number"),
    ("manufacturer_code", "Manufacturer Code"),
    ("version", "Version"),
    ("device_type", "Device Type"),
    ("access_number", "Access Number"),
    ("status", "Status"),
    ("configuration_field", "Configuration Field"),
    ("encryption_config_byte", "Encryption Config Byte"),
    ("dif", "DIF"),
    ("dife", "DIFE"),
    ("vif", "VIF"),
    ("vife", "VIFE"),
    ("plaintext_vif", "Plaintext VIF"),
    ("data_payload", "Data"),
    ("l_field", "L Field"),
    ("wireless_manufacturer_id", "Manufacturer ID"),
    ("crc", "CRC"),
    ("extended_link_layer", "Extended Link Layer"),
    ("encrypted_payload", "Encrypted Payload"),
    ("manufacturer_specific", "Manufacturer Specific"),
    ("idle_filler", "Idle Filler"),
    ("unknown", "Unknown"),
];

fn c14_views(ch: &mut Ch) -> Res {
    let mut p = ch.of(&headers());
    // plain-text units, filler, manufacturer data and long values beside the usual records
    const MORE: [&[u8]; 6] = [
        &[0x01, 0xFC, 0x74, 0x02, b'b', b'a', 0x07],
        &[0x01, 0xFC, 0x02, b'b', b'a', 0x74, 0x07],
        &[0x2F, 0x2F, 0x01, 0x13, 0x05, 0x2F],
        &[0x01, 0x13, 0x05, 0x0F, 0x01, 0x02, 0x03],
        &[0x0D, 0x78, 0x09, b'1', b'2', b'3', b'4', b'5', b'6', b'7', b'8', b'9', 0x1F],
        &[0x84, 0x80, 0x40, 0x93, 0x7F, 0x01, 0x00, 0x00, 0x00, 0x01],
    ];
    let i = ch.n(gen::RECORDS.len() + MORE.len() + 1);
    let more = |i: usize| MORE.get(i.wrapping_sub(gen::RECORDS.len())).copied();
    p.extend(gen::RECORDS.get(i).copied().or_else(|| more(i)).map(|r| r.to_vec()).unwrap_or_else(|| gen::pattern(40, 1)));
    if ch.flag() {
        // configuration word of the header, if it has one
        let at = match p[0] {
            0x72 | 0x76 => 12,
            0x7A | 0xA5 => 4,
            0xA0 => 5,
            0x8C if p[3] == 0x7A => 7,
            0x8C if p[3] == 0x72 => 15,
            _ => 0,
        };
        if at > 0 {
            p[at] = 0x05;
        }
    }
    let d = in_frame(ch, &p);
    ch.note(|| format!("bytes={}", hex(&d)));
    let segs = match annotate_frame(&d) {
        Ok(s) => s,
        Err(e) => return fail("refused", e.to_string()),
    };
    let render = |f: m_bus_parser::OutputFormat| m_bus_parser::render_bytes(&d, f, &Default::default());
    let js = match render(m_bus_parser::OutputFormat::Annotated) {
        Ok(s) => s,
        Err(e) => return fail("view", format!("annotated JSON fails with {}", e.code())),
    };
    ch.ok();
    let v: Value = match serde_json::from_str(&js) {
        Ok(v) => v,
        Err(e) => return fail("view", format!("annotated JSON is malformed: {e}")),
    };
    let bytes: Vec<u8> = v["bytes"].as_array().into_iter().flatten().filter_map(|b| b.as_u64()).map(|b| b as u8).collect();
    if bytes != d {
        return fail("view", "annotated JSON carries other bytes than the frame");
    }
    if v["decrypted"] != Value::Bool(false) {
        return fail("view", "marked as decrypted without a key");
    }
    if v["segments"] != serde_json::to_value(&segs).unwrap_or(Value::Null) {
        return fail("view", "annotated JSON carries other segments than the annotation");
    }
    let text = match render(m_bus_parser::OutputFormat::AnnotatedText) {
        Ok(s) => s,
        Err(e) => return fail("view", format!("annotated text fails with {}", e.code())),
    };
    ch.ok();
    // hex dump: every byte once, in order
    let mut dump = Vec::new();
    for line in text.lines().skip(2).take_while(|l| !l.is_empty()) {
        let mut it = line.split_whitespace();
        if it.next() != Some(&format!("{:04X}", dump.len())) {
            return fail("view", format!("hex dump line {line:?}"));
        }
        let row: Vec<u8> = it.take(16.min(d.len() - dump.len())).filter_map(|t| u8::from_str_radix(t, 16).ok()).collect();
        dump.extend(row);
    }
    if dump != d {
        return fail("view", "hex dump differs from the frame");
    }
    // one row per segment
    let rows: Vec<&str> = text.lines().filter(|l| l.starts_with("│  [")).collect();
    if rows.len() != segs.len() {
        return fail("view", format!("{} rows for {} segments", rows.len(), segs.len()));
    }
    for (row, s) in rows.iter().zip(&segs) {
        let kind = serde_json::to_value(&s.kind).unwrap_or_default();
        let Some(name) = FIELD.iter().find(|f| kind == f.0).map(|f| f.1) else {
            return fail("view", format!("unknown field {kind}"));
        };
        // the name stands between the bytes and the detail, set off by spaces
        if !row.split("  ").any(|c| c.trim() == name) && !row.contains(&format!(" {name} ")) {
            return fail("view", format!("row {row:?} does not name {name:?}"));
        }
        let at = if s.end - s.start == 1 { format!("[{:02X}]", s.start) } else { format!("[{:02X}..{:02X}]", s.start, s.end) };
        let shown = model::spaced(&d[s.start..s.end.min(s.start + 8)]);
        let first = s.detail.lines().next().unwrap_or("");
        for part in [at.as_str(), shown.as_str(), first] {
            if !row.contains(part) {
                return fail("view", format!("row {row:?} lacks {part:?}"));
            }
        }
    }
    out(&text)
}

fn c14_tail(ch: &mut Ch) -> Res {
    let mut p = ch.of(&clear_headers());
    p.extend(gen::tail(ch, 215));
    let d = in_frame(ch, &p);
    check(ch, &d)
}

fn c14_run(ch: &mut Ch) -> Res {
    let n = ch.tier(3, 7);
    let mut p = ch.of(&clear_headers()[..n]);
    p.extend(gen::run(ch, 215));
    let d = in_frame(ch, &p);
    check(ch, &d)
}

fn c14_many(ch: &mut Ch) -> Res {
    let mut p = ch.of(&clear_headers()[..3]);
    p.extend(gen::many(ch, 215));
    let d = in_frame(ch, &p);
    check(ch, &d)
}

fn c14_readings(ch: &mut Ch) -> Res {
    let p = gen::reading(ch);
    check(ch, &stream(&p))
}
