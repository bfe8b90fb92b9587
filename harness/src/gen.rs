//! Builders of telegrams. They only assemble bytes; nothing here looks at the implementation.

use crate::fw::Ch;
use crate::model;

pub fn long(c: u8, a: u8, payload: &[u8]) -> Vec<u8> {
    let l = (payload.len() + 2) as u8;
    let mut v = vec![0x68, l, l, 0x68, c, a];
    v.extend(payload);
    v.push(model::checksum(&v[4..]));
    v.push(0x16);
    v
}

pub fn short(c: u8, a: u8) -> Vec<u8> {
    vec![0x10, c, a, c.wrapping_add(a), 0x16]
}

/// Wireless telegram without CRCs.
#[derive(Clone)]
pub struct Link {
    pub c: u8,
    pub mfr: [u8; 2],
    pub id: [u8; 4],
    pub version: u8,
    pub device: u8,
}

pub const LINK: Link = Link { c: 0x44, mfr: [0x93, 0x15], id: [0x78, 0x56, 0x34, 0x12], version: 0x33, device: 0x03 };

pub fn wireless(l: &Link, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![0, l.c];
    v.extend(l.mfr);
    v.extend(l.id);
    v.push(l.version);
    v.push(l.device);
    v.extend(payload);
    v[0] = (v.len() - 1) as u8;
    v
}

/// Adds a trailing frame CRC (Format B style; the length field counts it).
pub fn trailing(frame: &[u8]) -> Vec<u8> {
    let mut v = frame.to_vec();
    v[0] = v[0].wrapping_add(2);
    let c = model::crc(&v);
    v.extend(c.to_be_bytes());
    v
}

/// Inserts the Format A block CRCs.
pub fn format_a(frame: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    let mut p = 0;
    while p < frame.len() {
        let n = if p == 0 { 10 } else { 16 }.min(frame.len() - p);
        v.extend(&frame[p..p + n]);
        v.extend(model::crc(&frame[p..p + n]).to_be_bytes());
        p += n;
    }
    v
}

pub fn long_tpl(ci: u8, cfg: u16) -> Vec<u8> {
    let c = cfg.to_le_bytes();
    vec![ci, 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 0x01, 0x07, 0x55, 0x00, c[0], c[1]]
}

pub fn short_tpl(cfg: u16) -> Vec<u8> {
    let c = cfg.to_le_bytes();
    vec![0x7A, 0x2A, 0x00, c[0], c[1]]
}

/// Representative complete records: every data field code and several value informations.
pub const RECORDS: &[&[u8]] = &[
    &[0x01, 0x13, 0x05],
    &[0x02, 0x5B, 0x17, 0x80],
    &[0x03, 0x2B, 0x01, 0x02, 0x03],
    &[0x04, 0x06, 0x10, 0x27, 0x00, 0x00],
    &[0x05, 0x2E, 0x00, 0x00, 0x80, 0x3F],
    &[0x06, 0x03, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x7F],
    &[0x07, 0x00, 1, 2, 3, 4, 5, 6, 7, 0x88],
    &[0x00, 0x13],
    &[0x08, 0x13],
    &[0x09, 0x78, 0x42],
    &[0x0A, 0x5A, 0x34, 0x12],
    &[0x0B, 0x3B, 0x56, 0x34, 0x12],
    &[0x0C, 0x78, 0x78, 0x56, 0x34, 0x12],
    &[0x0E, 0x16, 0x12, 0x90, 0x78, 0x56, 0x34, 0x12],
    &[0x0D, 0x78, 0x05, b'O', b'L', b'L', b'E', b'H'],
    &[0x0D, 0x13, 0xC2, 0x34, 0x12],
    &[0x0D, 0x13, 0xD1, 0x07],
    &[0x0D, 0x13, 0xE3, 0x01, 0x02, 0x83],
    &[0x0D, 0x79, 0x00],
    &[0x42, 0x6C, 0xBF, 0x1C],
    &[0x04, 0x6D, 0x32, 0x37, 0x1F, 0x15],
    &[0x03, 0x6D, 0x1E, 0x0A, 0x10],
    &[0x06, 0x6D, 0x1E, 0x0A, 0x10, 0x15, 0x1A, 0x00],
    &[0x81, 0x01, 0x13, 0x2F],
    &[0xD2, 0xC3, 0x7F, 0x93, 0x3B, 0x01, 0x0F],
    &[0x01, 0xFD, 0x17, 0x00],
    &[0x02, 0xFD, 0x49, 0xE6, 0x00],
    &[0x02, 0xFB, 0x1A, 0x99, 0x01],
    &[0x32, 0xFF, 0x21, 0x00, 0x00],
    &[0x02, 0x7F, 0x10, 0x00],
    &[0x04, 0x90, 0xFC, 0x81, 0x7A, 0x2F, 0x0F, 0x1F, 0x7F],
    // the largest storage, tariff and subunit numbers
    &[0x82, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x7F, 0x13, 0x01, 0x80],
    // one-, two- and four-byte characters
    &[0x0D, 0x78, 0x07, 0x80, 0x98, 0x9F, 0xF0, 0xA9, 0xC3, b'A'],
    // a chain of modifiers
    &[0x01, 0x93, 0xBA, 0xBE, 0xBB, 0xF2, 0x3C, 0x85],
];

/// Fillers, markers and reserved codes between records.
pub const BETWEEN: &[&[u8]] = &[&[0x2F], &[0x7F], &[0x3F], &[0xAF], &[0x2F, 0x2F]];

/// A plain-text record for this build's layout.
pub fn plaintext_record(pbe: bool) -> Vec<u8> {
    if pbe {
        vec![0x02, 0xFC, 0x03, b'H', b'R', b'%', 0x74, 0x44, 0x01]
    } else {
        vec![0x02, 0xFC, 0x74, 0x03, b'H', b'R', b'%', 0x44, 0x01]
    }
}

/// Any record of the list, including the plain-text one.
pub fn any_record(ch: &mut Ch) -> Vec<u8> {
    let i = ch.n(RECORDS.len() + 1);
    RECORDS.get(i).map(|r| r.to_vec()).unwrap_or_else(|| plaintext_record(crate::pbe()))
}

pub fn between(ch: &mut Ch) -> Vec<u8> {
    let i = ch.n(BETWEEN.len() + 1);
    if i == 0 {
        vec![]
    } else {
        BETWEEN[i - 1].to_vec()
    }
}

/// Number of data bytes of a fixed-length data field code.
pub fn width(code: u8) -> usize {
    [0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, 0, 6, 0][(code & 15) as usize]
}

/// Texts of every length up to the longest, with one special character somewhere or nowhere.
pub fn long_text(ch: &mut Ch) -> Vec<u8> {
    let unit = ch.of(&["a", " ", "\"", "é", "€", "👍", "a,", "<&", "ab "]);
    let n = ch.n(192);
    let mut t: Vec<u8> = unit.bytes().cycle().take(n / unit.len() * unit.len()).collect();
    let s = ch.of(&["", "\"", "\n", "<", ",", "#", ":", "\u{7F}", "ü"]);
    if !s.is_empty() {
        let at = ch.of(&[0, 1, 2]) * (t.len() / unit.len()) / 2 * unit.len();
        t.splice(at..at, s.bytes());
    }
    t.truncate(191);
    t
}

/// One record repeated as often as one telegram can hold, or less.
pub fn many(ch: &mut Ch, room: usize) -> Vec<u8> {
    let r = any_record(ch);
    let n = ch.n(room / r.len() + 1);
    r.repeat(n)
}

/// Manufacturer data or a continuation mark, of every length up to `room`, with or without a record before.
pub fn tail(ch: &mut Ch, room: usize) -> Vec<u8> {
    let lead: &[u8] = ch.of(&[&[][..], &[0x01, 0x13, 0x05], &[0x2F, 0x2F], &[0x01, 0x13, 0x05, 0x7F]]);
    let mark = ch.of(&[0x0Fu8, 0x1F]);
    let n = ch.n(room - lead.len());
    let fill = match ch.n(4) {
        0 => vec![0x00; n],
        1 => vec![0x2F; n],
        2 => vec![0x0F; n],
        _ => pattern(n, 7),
    };
    [lead, &[mark], &fill].concat()
}

/// A run of one byte without data, of every length up to `room`, before, between or behind records.
pub fn run(ch: &mut Ch, room: usize) -> Vec<u8> {
    let lead: &[u8] = ch.of(&[&[][..], &[0x01, 0x13, 0x05], &[0x42, 0x6C, 0xBF, 0x1C]]);
    let byte = ch.of(&[0x2Fu8, 0x7F, 0x3F, 0xAF]);
    let n = ch.n(room - 10);
    let rear: &[u8] = ch.of(&[&[][..], &[0x01, 0x13, 0x05], &[0x0F, 0x55], &[0x04, 0x13, 0x01]]);
    [lead, &vec![byte; n], rear].concat()
}

/// A number, date or time of every coding: one byte of the data over every or 12 values, 4 backgrounds.
pub fn reading(ch: &mut Ch) -> Vec<u8> {
    let (mut d, n, date) = match ch.n(3) {
        0 => {
            let (dif, n) = ch.of(&[
                (0x01u8, 1usize),
                (0x02, 2),
                (0x03, 3),
                (0x04, 4),
                (0x05, 4),
                (0x06, 6),
                (0x07, 8),
                (0x09, 1),
                (0x0A, 2),
                (0x0B, 3),
                (0x0C, 4),
                (0x0E, 6),
            ]);
            let vib: &[u8] = ch.of(&[
                &[0x13][..],
                &[0x16],
                &[0x00],
                &[0x07],
                &[0x3F],
                &[0x5B],
                &[0x93, 0x70],
                &[0x93, 0x7D],
                &[0x93, 0x78],
                &[0x96, 0x79],
                &[0xFD, 0x49],
                &[0xFD, 0x17],
                &[0xFB, 0x00],
                &[0x7F],
            ]);
            ([&[dif], vib].concat(), n, false)
        }
        1 => {
            let (dif, vif, n) = ch.of(&[(0x02u8, 0x6Cu8, 2usize), (0x04, 0x6D, 4), (0x03, 0x6D, 3), (0x06, 0x6D, 6)]);
            (vec![dif, vif], n, true)
        }
        _ => {
            let code = 0xC0 + ch.n(64) as u8;
            let n = match code {
                0xC0..=0xC9 | 0xD0..=0xD9 => usize::from(code & 15),
                0xE0..=0xEF => usize::from(code & 15),
                0xF0..=0xF4 => 4 * (usize::from(code) - 0xEC),
                0xF5 => 48,
                0xF6 => 64,
                _ => 0,
            };
            (vec![0x0D, 0x13, code], n, false)
        }
    };
    let mut v = match ch.n(4) {
        0 => vec![0x00; n],
        1 => vec![0xFF; n],
        2 if date => [0x1E, 0x2D, 0x10, 0x35, 0x1A, 0x00][..n].to_vec(),
        2 => vec![0x99; n],
        _ => pattern(n, 3).iter().map(|b| b & 0x77).collect(),
    };
    if n > 0 {
        let at = ch.n(n);
        v[at] = if date { ch.byte() } else { ch.of(&[0x00, 0x01, 0x09, 0x0A, 0x10, 0x7F, 0x80, 0x99, 0x9A, 0xF0, 0xF5, 0xFF]) };
    }
    d.extend(v);
    d
}

/// Texts with a long token that is no byte: 0..100 characters of 1 to 4 bytes at 4 alignments.
pub fn token(ch: &mut Ch) -> String {
    let lead = ch.of(&["", "0x", "12 ", " \u{a0}"]);
    let c = ch.of(&["g", "\u{e9}", "\u{6f22}", "\u{1f44d}", "A", "\u{301}", "-", "x"]);
    let pad = &"abc"[..ch.n(4)];
    let n = ch.n(101);
    let rear = ch.of(&["", " 34", "z"]);
    format!("{lead}{pad}{}{rear}", c.repeat(n))
}

/// Distinct non-repeating filler for payload bytes.
pub fn pattern(n: usize, seed: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(seed).rotate_left(3)).collect()
}
