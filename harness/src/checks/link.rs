//! C02 wired frames, C03 wireless frames, C04 application headers, C20 identity domains.

use super::*;
use crate::gen::{self, LINK};
use m_bus_parser::{Address, Function, WiredFrame};

pub fn spaces() -> Vec<Space> {
    vec![
        space("C02", "c02-tiny", "all byte strings of length 0..3 (thorough: and 4 after each start byte)", c02_tiny),
        space("C02", "c02-short", "short frames: every C x A with 6 checksum, 5 stop-byte and 4 length deviations", c02_short),
        space("C02", "c02-ca", "long frames: every C x A with 4 payload lengths", c02_ca),
        space(
            "C02",
            "c02-len",
            "long frames: every payload length 0..253 with 2 fills, length fields L1,L2 off by -3..3 or 0/255 each, or bytes missing/added at the end",
            c02_len,
        ),
        space(
            "C02",
            "c02-sub",
            "long frames of payload length 0..12 and 250..253: every single byte replaced by every value, checksum kept or recomputed",
            c02_sub,
        ),
        space("C02", "c02-sub2", "long frames of payload length 1..4: every pair of header/trailer bytes replaced by 12 values each", c02_sub2),
        space(
            "C02",
            "c02-surplus",
            "acknowledge, short and long frames with 0..600, 65535, 65536 or 131072 bytes inserted before the checksum or appended, checksum and length fields adapted or not",
            c02_surplus,
        ),
        space("C03", "c03-mfr", "every manufacturer code with 4 framings", c03_mfr),
        space("C03", "c03-id", "every value of each identification, version, device-type and C byte with every CI class and 4 framings", c03_fields),
        space("C03", "c03-len", "every payload length 1..300 in 4 framings, with 5 fills", c03_len),
        space("C03", "c03-lfield", "every L field value with payload lengths 1..40 in 4 framings", c03_lfield),
        space(
            "C03",
            "c03-sub",
            "Format A, plain and trailing-CRC telegrams with payload 1..40 (thorough 1..90): every single byte replaced by 9 (thorough 255) other values",
            c03_sub,
        ),
        space("C03", "c03-sub-long", "telegrams with payloads of 41..246 bytes in 4 framings: every single byte changed", c03_sub_long),
        space("C03", "c03-crc", "Format A telegrams: every combination of corrupted blocks (up to 6 blocks), L field of stripped or raw length", c03_crc),
        space("C03", "c03-short", "all truncations and extensions of telegrams in 4 framings", c03_short),
        space("C04", "c04-ci", "every CI byte with every payload length 0..24 and 4 contents, wired and wireless", c04_ci),
        space("C04", "c04-byte", "each header kind: every value of every header byte, wired and wireless, with records behind", c04_byte),
        space(
            "C04",
            "c04-alike",
            "radio telegrams whose long header repeats the link identity: every value of every identity byte in either, with one more bit changed or not",
            c04_alike,
        ),
        space("C04", "c04-pair", "each header kind: every pair of header bytes over 9 values each", c04_pair),
        space("C04", "c04-ell", "ELL prefix 8C with every inner CI and every inner length 0..20, 3 contents", c04_ell),
        space("C04", "c04-block", "the application-layer entry point: each header kind cut to every length, every value of every byte (two bytes over all values for reset and counters), 0..2 trailing bytes", c04_block),
        space("C04", "c04-cfg", "every 16-bit configuration word in long, short and ELL-prefixed headers", c04_cfg),
        space("C04", "c04-data", "records of every length 0..232 behind each header kind: record data starts right after the header", c04_data),
    ]
}

// ---------------------------------------------------------------------------------------- C02

fn c02_check(ch: &mut Ch, d: &[u8]) -> Res {
    use model::Wired as W;
    ch.note(|| format!("bytes={}", hex(d)));
    let want = model::wired(d);
    let got = WiredFrame::try_from(d);
    ch.ok();
    let (kind, f, a, payload): (&str, Option<String>, Option<u8>, &[u8]) = match &got {
        Err(_) => {
            if want.is_some() {
                return fail("rejected", format!("model accepts {want:?}"));
            }
            // the one-call decoder must not present it as a wired frame either
            if d.len() < 3 || matches!(d[0], 0x10 | 0x68 | 0xE5) {
                if let Ok(o) = decode(d, None) {
                    if o.protocol == "wired" {
                        return fail("accepted", "one-call decoder reports a wired frame");
                    }
                }
            }
            return refused(&(d.first().copied(), d.len()));
        }
        Ok(WiredFrame::SingleCharacter { character }) => {
            if *character != 0xE5 {
                return fail("kind", "single character");
            }
            ("ack", None, None, &[])
        }
        Ok(WiredFrame::ShortFrame { function, address }) => ("short", Some(function_text(function)?), Some(address_byte(address)?), &[]),
        Ok(WiredFrame::LongFrame { function, address, data }) => ("long", Some(function_text(function)?), Some(address_byte(address)?), *data),
        Ok(WiredFrame::ControlFrame { function, address, data }) => ("control", Some(function_text(function)?), Some(address_byte(address)?), *data),
        Ok(_) => return fail("kind", "unknown frame kind"),
    };
    let Some(want) = want else {
        return fail("accepted", format!("accepted as {kind} frame, model rejects"));
    };
    let expect = match &want {
        W::Ack => ("ack", None, None, vec![]),
        W::Short { c, a } => ("short", model::function_name(*c), Some(*a), vec![]),
        W::Long { c, a, payload } => ("long", model::function_name(*c), Some(*a), payload.clone()),
        W::Control { c, a, payload } => ("control", model::function_name(*c), Some(*a), payload.clone()),
    };
    if (kind, f.clone(), a, payload.to_vec()) != expect {
        return fail("field", format!("implementation {:?}, model {expect:?}", (kind, f, a, hex(payload))));
    }
    // the canonical output shows the same
    match decode(d, None) {
        Err(e) => return fail("output", format!("one-call decoder fails with {}", e.code())),
        Ok(o) => {
            ch.ok();
            let kind = if kind == "ack" { "single_character" } else { kind };
            let pl = matches!(want, W::Long { .. } | W::Control { .. }).then(|| hex(payload));
            if o.protocol != "wired"
                || o.frame.kind != kind
                || o.frame.function != f
                || o.frame.address != a.map(model::address_name)
                || o.raw.payload_hex != pl
                || o.raw.original_frame_hex != hex(d)
                || o.raw.byte_length != d.len()
            {
                return fail("output", format!("canonical output {:?} {:?}", o.frame, o.raw));
            }
        }
    }
    out(&(kind, f, a, payload.len()))
}

fn function_text(f: &Function) -> Result<String, Fail> {
    Ok(match f {
        Function::SndNk { prm } => format!("SND_NKE (PRM: {prm})"),
        Function::SndNr => "SND_NR".into(),
        Function::SndUd { fcb } => format!("SND_UD (FCB: {fcb})"),
        Function::ReqUd1 { fcb } => format!("REQ_UD1 (FCB: {fcb})"),
        Function::ReqUd2 { fcb } => format!("REQ_UD2 (FCB: {fcb})"),
        Function::RspUd { acd, dfc } => format!("RSP_UD (ACD: {acd}, DFC: {dfc})"),
        #[allow(unreachable_patterns)]
        _ => return fail("function", "unknown function"),
    })
}

fn address_byte(a: &Address) -> Result<u8, Fail> {
    Ok(match a {
        Address::Uninitalized => 0,
        Address::Primary(n) if (1..=250).contains(n) || *n == 251 || *n == 252 => *n,
        Address::Secondary => 253,
        Address::Broadcast { reply_required: true } => 254,
        Address::Broadcast { reply_required: false } => 255,
        other => return fail("address", format!("{other:?}")),
    })
}

fn c02_tiny(ch: &mut Ch) -> Res {
    let n = ch.n(ch.tier(4, 5));
    let d: Vec<u8> = (0..n).map(|i| if n == 4 && i == 0 { ch.of(&[0x68u8, 0x10, 0xE5, 0x16]) } else { ch.byte() }).collect();
    c02_check(ch, &d)
}

fn c02_short(ch: &mut Ch) -> Res {
    let mut d = gen::short(ch.byte(), ch.byte());
    d[3] = d[3].wrapping_add(ch.of(&[0u8, 1, 0xFF, 0x10, 0x80, 0x6A]));
    d[4] = ch.of(&[0x16u8, 0x15, 0x17, 0x00, 0x68]);
    match ch.n(4) {
        0 => {}
        1 => {
            d.pop();
        }
        2 => d.push(0x16),
        _ => d.insert(0, 0x10),
    }
    c02_check(ch, &d)
}

fn c02_ca(ch: &mut Ch) -> Res {
    let (c, a) = (ch.byte(), ch.byte());
    let n = ch.of(&[0usize, 1, 3, 20]);
    let d = gen::long(c, a, &gen::pattern(n, c ^ a));
    c02_check(ch, &d)
}

fn c02_len(ch: &mut Ch) -> Res {
    let n = ch.n(254);
    let fill = ch.flag();
    let c = ch.of(&[0x08u8, 0x53]);
    let p = if fill { vec![0x16; n] } else { gen::pattern(n, 9) };
    let mut d = gen::long(c, 1, &p);
    match ch.n(4) {
        0 => {
            let off = ch.of(&[0i32, -3, -2, -1, 1, 2, 3]);
            let which = ch.n(3);
            for i in 1..3 {
                if which == i - 1 || which == 2 {
                    d[i] = (i32::from(d[i]) + off) as u8;
                }
            }
        }
        1 => {
            let v = ch.of(&[0u8, 1, 254, 255]);
            let which = ch.n(3);
            for i in 1..3 {
                if which == i - 1 || which == 2 {
                    d[i] = v;
                }
            }
        }
        2 => {
            let cut = 1 + ch.n(8.min(d.len() - 1));
            d.truncate(d.len() - cut);
        }
        _ => {
            let add = 1 + ch.n(4);
            let b = ch.of(&[0x16u8, 0x00]);
            d.extend(vec![b; add]);
        }
    }
    c02_check(ch, &d)
}

fn c02_sub(ch: &mut Ch) -> Res {
    let k = ch.n(17);
    let n = if k < 13 { k } else { 250 + k - 13 };
    let mut d = gen::long(ch.of(&[0x08u8, 0x53, 0x73]), 5, &gen::pattern(n, 3));
    let p = ch.n(d.len());
    d[p] = ch.byte();
    if ch.flag() {
        let e = d.len() - 2;
        if p != e {
            d[e] = model::checksum(&d[4..e]);
        }
    }
    c02_check(ch, &d)
}

fn c02_sub2(ch: &mut Ch) -> Res {
    let n = 1 + ch.n(4);
    let mut d = gen::long(0x08, 1, &gen::pattern(n, 3));
    let pos: Vec<usize> = vec![0, 1, 2, 3, 4, 5, d.len() - 2, d.len() - 1];
    const V: [u8; 12] = [0x00, 0x01, 0x03, 0x04, 0x05, 0x10, 0x16, 0x53, 0x68, 0x69, 0xE5, 0xFF];
    let i = ch.n(pos.len() - 1);
    let j = i + 1 + ch.n(pos.len() - 1 - i);
    d[pos[i]] = ch.of(&V);
    d[pos[j]] = ch.of(&V);
    if ch.flag() && pos[j] < d.len() - 2 {
        let e = d.len() - 2;
        d[e] = model::checksum(&d[4..e]);
    }
    c02_check(ch, &d)
}

fn c02_surplus(ch: &mut Ch) -> Res {
    let k = ch.n(604);
    let add = if k <= 600 { k } else { [65535, 65536, 131072][k - 601] };
    let b = ch.of(&[0x2Fu8, 0x00]);
    let extra = vec![b; add];
    let mut d = match ch.n(4) {
        0 => vec![0xE5],
        1 => gen::short(0x5B, 1),
        2 => gen::long(0x08, 1, &[0x78]),
        _ => gen::long(0x53, 1, &gen::pattern(253, 1)),
    };
    let e = d.len().saturating_sub(2);
    if ch.flag() {
        d.extend(&extra);
    } else {
        d.splice(e..e, extra.iter().copied());
        if d.len() > 6 && d[0] != 0x2F && d[0] != 0 && d[0] != 0xE5 && ch.flag() {
            let from = if d[0] == 0x10 { 1 } else { 4 };
            let e = d.len() - 2;
            d[e] = model::checksum(&d[from..e]);
            if d[0] == 0x68 && ch.flag() {
                let l = (d.len() - 6) as u8;
                d[1] = l;
                d[2] = l;
            }
        }
    }
    c02_check(ch, &d)
}

// ---------------------------------------------------------------------------------------- C03

const C03: &[&str] = &["protocol", "frame", "meter", "raw"];

pub fn framed(ch: &mut Ch, frame: &[u8]) -> Vec<u8> {
    let k = ch.n(4);
    framing(k, frame)
}

/// Plain, Format A, trailing CRC, or Format A with a length field that counts the CRCs.
/// Longest application data of a wireless telegram in a framing.
pub const ROOM: [usize; 4] = [246, 246, 244, 216];

pub fn framing(k: usize, frame: &[u8]) -> Vec<u8> {
    match k {
        0 => frame.to_vec(),
        1 => gen::format_a(frame),
        2 => gen::trailing(frame),
        _ => {
            // length field counts the block CRCs
            let mut f = frame.to_vec();
            let raw = gen::format_a(&f).len();
            f[0] = (raw - 1) as u8;
            gen::format_a(&f)
        }
    }
}

fn c03_check(ch: &mut Ch, d: &[u8]) -> Res {
    if model::wired(d).is_some() {
        return refused(&"wired");
    }
    compare(ch, d, None, C03)
}

fn c03_mfr(ch: &mut Ch) -> Res {
    let mut l = LINK.clone();
    l.mfr = [ch.byte(), ch.byte()];
    let f = gen::wireless(&l, &[0x78, 0x01, 0x13, 0x05]);
    let d = framed(ch, &f);
    c03_check(ch, &d)
}

fn c03_fields(ch: &mut Ch) -> Res {
    let mut l = LINK.clone();
    let which = ch.n(7);
    let v = ch.byte();
    match which {
        0..=3 => l.id[which] = v,
        4 => l.version = v,
        5 => l.device = v,
        _ => l.c = v,
    }
    let ci = ch.of(&[0x72u8, 0x7A, 0x78, 0x8C, 0xA0, 0xA1, 0xAF, 0xB0, 0x9F, 0x50, 0x00]);
    let mut p = vec![ci];
    p.extend(gen::pattern(16, 0x21).iter().map(|b| b & 0x77));
    let f = gen::wireless(&l, &p);
    let d = framed(ch, &f);
    c03_check(ch, &d)
}

fn fill(ch: &mut Ch, n: usize) -> Vec<u8> {
    match ch.n(5) {
        0 => gen::pattern(n, 0x11),
        1 => vec![0x00; n],
        2 => vec![0xFF; n],
        3 => (0..n).map(|i| if i == 0 { 0x78 } else { 0x2F }).collect(),
        _ => {
            let mut v = vec![0x7A, 0x01, 0x00, 0x00, 0x00];
            v.extend(gen::pattern(n, 0x55));
            v.truncate(n);
            v
        }
    }
}

fn c03_len(ch: &mut Ch) -> Res {
    let n = 1 + ch.n(300);
    let p = fill(ch, n);
    let f = gen::wireless(&LINK, &p);
    let d = framed(ch, &f);
    c03_check(ch, &d)
}

fn c03_lfield(ch: &mut Ch) -> Res {
    let n = 1 + ch.n(40);
    let l = ch.byte();
    let mut f = gen::wireless(&LINK, &gen::pattern(n, 0x78));
    f[10] = 0x78;
    let d = match ch.n(4) {
        0 => {
            f[0] = l;
            f
        }
        1 => {
            f[0] = l;
            gen::format_a(&f)
        }
        2 => {
            f[0] = l.wrapping_sub(2);
            gen::trailing(&f)
        }
        _ => {
            let mut a = gen::format_a(&f);
            a[0] = l;
            a
        }
    };
    c03_check(ch, &d)
}

fn c03_sub(ch: &mut Ch) -> Res {
    let n = 1 + ch.n(ch.tier(40, 90));
    let mut f = gen::wireless(&LINK, &gen::pattern(n, 0x78));
    f[10] = 0x78;
    let mut d = framed(ch, &f);
    let p = ch.n(d.len());
    let x = if ch.thorough { 1 + ch.n(255) as u8 } else { ch.of(&[0x01u8, 0x02, 0x08, 0x10, 0x40, 0x80, 0xFF, 0x55, 0xA3]) };
    d[p] ^= x;
    c03_check(ch, &d)
}

fn c03_sub_long(ch: &mut Ch) -> Res {
    let n =
        if ch.thorough { 41 + ch.n(206) } else { ch.of(&[41usize, 69, 70, 71, 86, 118, 119, 127, 134, 150, 182, 198, 214, 217, 218, 229, 230, 231, 245, 246]) };
    let mut f = gen::wireless(&LINK, &gen::pattern(n, 0x78));
    f[10] = 0x78;
    let mut d = framed(ch, &f);
    let p = ch.n(d.len());
    d[p] ^= ch.of(&[0x01u8, 0x80, 0x5A]);
    c03_check(ch, &d)
}

fn c03_crc(ch: &mut Ch) -> Res {
    // 1..6 blocks, last block of 1, 2, 3, 15 or 16 bytes
    let blocks = 1 + ch.n(5);
    let last = ch.of(&[1usize, 2, 3, 7, 14, 15, 16]);
    let n = (blocks - 1) * 16 + last;
    let mut f = gen::wireless(&LINK, &gen::pattern(n, 0x77));
    f[10] = 0x78;
    if ch.flag() {
        f[0] = (gen::format_a(&f).len() - 1) as u8;
    }
    let mut d = gen::format_a(&f);
    let mut end = 12;
    let mut b = 0;
    loop {
        match ch.n(4) {
            0 => {}
            1 => d[end - 1] ^= 0x01,
            2 => d[end - 2] ^= 0x80,
            _ => d[end - 3] ^= 0x10,
        }
        b += 1;
        if b > blocks {
            break;
        }
        end = (end + 18).min(d.len());
    }
    c03_check(ch, &d)
}

fn c03_short(ch: &mut Ch) -> Res {
    let n = ch.of(&[1usize, 4, 5, 6, 17, 21, 22, 23, 37, 40]);
    let mut f = gen::wireless(&LINK, &gen::pattern(n, 0x78));
    f[10] = 0x78;
    let mut d = framed(ch, &f);
    match ch.n(3) {
        0 => {
            let k = 1 + ch.n(d.len() - 1);
            d.truncate(k);
        }
        1 => {
            let k = 1 + ch.n(5);
            let b = ch.of(&[0x00u8, 0x2F, 0xFF]);
            d.extend(vec![b; k]);
        }
        _ => {
            // cut and length field adapted
            let k = 1 + ch.n(d.len() - 1);
            d.truncate(k);
            d[0] = (k - 1) as u8;
        }
    }
    c03_check(ch, &d)
}

// ---------------------------------------------------------------------------------------- C04

/// Headers, identities and where the records start.
const C04: &[&str] = &["meter", "transport", "security.mode_code", "security.mode", "security.payload_protection"];

fn c04_check(ch: &mut Ch, wireless: bool, payload: &[u8]) -> Res {
    let d = if wireless { gen::wireless(&LINK, payload) } else { gen::long(0x08, 0x01, payload) };
    ch.note(|| format!("bytes={}", hex(&d)));
    let Ok(o) = decode(&d, None) else {
        return fail("rejected", "valid frame rejected");
    };
    let Ok(m) = model::decode(&d, None, Opt { skip_7c: true, ..model::opt() }) else {
        return fail("model", "model rejects");
    };
    ch.ok();
    let v = to_value(&o);
    if let Some(diff) = model::jdiff("", &project(&v, C04), &project(&m.json, C04)) {
        return fail("field", diff);
    }
    let partial = o.diagnostics.iter().any(|d| d.code == "application.partial");
    if partial != m.app.is_none() {
        return fail("unsupported", format!("reported as unsupported: {partial}, model {}", m.app.is_none()));
    }
    // record data starts right after the header: compare the bytes of the records
    if !m.recs.overflow {
        let got: Vec<String> = o.records.iter().map(|r| format!("{} {}", r.header_hex, r.data_hex)).collect();
        let rd = m.record_data.clone().unwrap_or_default();
        let want: Vec<String> =
            m.recs.recs.iter().map(|r| format!("{} {}", model::spaced(&rd[r.start..r.data_start]), model::spaced(&rd[r.data_start..r.end]))).collect();
        if got != want {
            return fail("records", format!("record bytes {got:?}, model {want:?}"));
        }
    }
    let d = digest(&project(&v, C04).to_string());
    Ok(Out { digest: d, trivial: m.app.is_none() })
}

fn c04_ci(ch: &mut Ch) -> Res {
    let wl = ch.flag();
    let ci = ch.byte();
    let n = ch.n(25);
    let mut p = vec![ci];
    p.extend(match ch.n(4) {
        0 => vec![0x00; n],
        1 => (0..n).map(|i| [0x01u8, 0x13, 0x05][i % 3]).collect(),
        2 => (0..n).map(|i| (i * 0x11 % 0x9A) as u8 & 0x77).collect(),
        _ => gen::pattern(n, ci),
    });
    c04_check(ch, wl, &p)
}

/// (header bytes, number of bytes that are varied)
pub fn headers() -> Vec<Vec<u8>> {
    let long = gen::long_tpl(0x72, 0);
    let long76 = gen::long_tpl(0x76, 0);
    let short = gen::short_tpl(0);
    let mut a0 = short.clone();
    a0[0] = 0xA0;
    a0.insert(1, 0x33);
    let mut a5 = short.clone();
    a5[0] = 0xA5;
    let ell = |inner: &[u8]| {
        let mut v = vec![0x8C, 0x20, 0x77];
        v.extend(inner);
        v
    };
    vec![
        long.clone(),
        long76.clone(),
        short.clone(),
        a0,
        a5,
        vec![0x78],
        vec![0x73, 0x78, 0x56, 0x34, 0x12, 0x0A, 0x00, 0xE9, 0x7E, 0x01, 0x00, 0x00, 0x00, 0x35, 0x01, 0x00, 0x00],
        vec![0x77, 0x78, 0x56, 0x34, 0x12, 0x0A, 0x00, 0xE9, 0x7E, 0x01, 0x00, 0x00, 0x00, 0x35, 0x01, 0x00, 0x00],
        vec![0x50, 0x01],
        ell(&[0x78]),
        ell(&short),
        ell(&long),
        vec![0x8D, 0x21, 0x55, 0x01, 0x02, 0x03, 0x04, 0xAA, 0xBB],
        vec![0x8E, 0x22, 0x56, 0x93, 0x15, 0x78, 0x56, 0x34, 0x12, 0x01, 0x07, 0x0A, 0x0B, 0x0C, 0x0D, 0xCC, 0xDD],
        ell(&long76),
    ]
}

/// A telegram with a record, one byte of its link or application header replaced by any value.
pub fn any_header(ch: &mut Ch) -> Vec<u8> {
    let mut p = ch.of(&headers());
    let n = p.len();
    p.extend([0x01, 0x13, 0x05]);
    let wired = ch.flag();
    let at = ch.n(n + if wired { 2 } else { 9 });
    let v = ch.byte();
    if at < n {
        p[at] = v;
    }
    let mut d = if wired { gen::long(0x08, 0x01, &p) } else { gen::wireless(&LINK, &p) };
    if at >= n {
        d[at - n + if wired { 4 } else { 1 }] = v;
    }
    if wired {
        let sum = d.len() - 2;
        d[sum] = d[4..sum].iter().fold(0, |a, b| a.wrapping_add(*b));
    }
    d
}

fn c04_byte(ch: &mut Ch) -> Res {
    let wl = ch.flag();
    let mut h = ch.of(&headers());
    let p = ch.n(h.len());
    h[p] = ch.byte();
    if ch.flag() {
        h.extend([0x01, 0x13, 0x05, 0x02, 0x5B, 0x17, 0x00]);
    }
    c04_check(ch, wl, &h)
}

fn c04_alike(ch: &mut Ch) -> Res {
    let mut h = ch.of(&[vec![], vec![0x8C, 0x20, 0x77]]);
    let base = h.len() + 1;
    h.extend(gen::long_tpl(ch.of(&[0x72, 0x76]), 0));
    h[base..base + 8].copy_from_slice(&[0x78, 0x56, 0x34, 0x12, 0x93, 0x15, 0x33, 0x03]);
    h[base + ch.n(8)] = ch.byte();
    if ch.flag() {
        h[base + ch.n(8)] ^= 1 << ch.n(8);
    }
    h.extend([0x01, 0x13, 0x05]);
    c04_check(ch, true, &h)
}

fn c04_pair(ch: &mut Ch) -> Res {
    let mut h = ch.of(&headers());
    if h.len() < 2 {
        return refused(&0);
    }
    const V: [u8; 9] = [0x00, 0x01, 0x0A, 0x10, 0x20, 0x78, 0x8D, 0x99, 0xFF];
    let i = ch.n(h.len() - 1);
    let j = i + 1 + ch.n(h.len() - 1 - i);
    h[i] = ch.of(&V);
    h[j] = ch.of(&V);
    let wl = ch.flag();
    h.extend([0x01, 0x13, 0x05]);
    c04_check(ch, wl, &h)
}

fn c04_ell(ch: &mut Ch) -> Res {
    let wl = ch.flag();
    let ci = ch.byte();
    let n = ch.n(21);
    let mut p = vec![0x8C, ch.of(&[0x00u8, 0x20, 0xFF]), 0x31, ci];
    p.extend(match ch.n(3) {
        0 => vec![0x00; n],
        1 => (0..n).map(|i| [0x01u8, 0x13, 0x05][i % 3]).collect(),
        _ => gen::pattern(n, ci),
    });
    c04_check(ch, wl, &p)
}

/// The application-layer entry point on its own: same acceptance and the same fields as the model.
fn c04_block(ch: &mut Ch) -> Res {
    let hs = headers();
    let mut h = ch.of(&hs);
    match ch.n(3) {
        0 => {
            let p = ch.n(h.len());
            h[p] = ch.byte();
            let keep = 1 + ch.n(h.len());
            h.truncate(keep);
        }
        1 => {
            // Two bytes at once, in the fields the telegram-level results do not carry.
            let at: &[usize] = match h[0] {
                0x50 => &[1],
                0x73 | 0x77 => &[1, 4, 9, 12, 13, 16],
                _ => return refused(&()),
            };
            let (a, b) = (ch.of(at), ch.of(at));
            h[a] = ch.byte();
            h[b] = ch.byte();
        }
        _ => {
            let p = ch.n(h.len());
            h[p] = ch.byte();
            for _ in 0..1 + ch.n(2) {
                h.push(ch.of(&[0x00, 0x2F, 0x99, 0xFF]));
            }
        }
    }
    ch.ok();
    match (m_bus_parser::user_data::UserDataBlock::try_from(h.as_slice()), model::app(&h)) {
        (Ok(b), Some(m)) if super::api::same_app(&b, &m, &h) => out(&format!("{m:?}")),
        (Err(_), None) => refused(&h[0]),
        (b, m) => fail("block", format!("application data {}: implementation {b:?}, model {m:?}", hex(&h))),
    }
}

fn c04_cfg(ch: &mut Ch) -> Res {
    let cfg = u16::from_le_bytes([ch.byte(), ch.byte()]);
    let mut h = match ch.n(4) {
        0 => gen::long_tpl(0x72, cfg),
        1 => gen::short_tpl(cfg),
        2 => [vec![0x8C, 0x00, 0x01], gen::short_tpl(cfg)].concat(),
        _ => [vec![0x8C, 0x00, 0x01], gen::long_tpl(0x72, cfg)].concat(),
    };
    h.extend([0x2F, 0x2F, 0x01, 0x13, 0x05]);
    c04_check(ch, true, &h)
}

fn c04_data(ch: &mut Ch) -> Res {
    let wl = ch.flag();
    let mut h = ch.of(&headers());
    let n = ch.n(233);
    let rec: [&[u8]; 3] = [&[0x01, 0x13, 0x05], &[0x2F, 0x2F, 0x2F], &[0x02, 0x5B, 0x01, 0x02]];
    let r = ch.of(&rec);
    h.extend((0..n).map(|i| r[i % r.len()]));
    h.truncate(246);
    c04_check(ch, wl, &h)
}
