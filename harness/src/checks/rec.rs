//! C05 record partition, C06 data information, C07 raw values, C08 value information,
//! C09 dates and times, C10 exact decimals.

use super::*;
use crate::gen;

pub fn spaces() -> Vec<Space> {
    vec![
        both(space(
            "C05",
            "c05-mix",
            "all sequences of 1..2 (thorough 3) records from 35 templates covering every data field code, with every filler/marker choice between and around them, cut at every byte",
            c05_mix,
        )),
        both(space("C05", "c05-head", "all DIF x VIF byte pairs followed by each of 12 tails, then a sentinel record", c05_head)),
        space("C05", "c05-short", "all byte strings of length 1..2 (thorough 3) and all strings of length 3..5 (thorough 6) over 13 structure bytes", c05_short),
        space("C05", "c05-long", "1..83 repetitions of each 3-byte record with 0..2 fillers before, plus every payload length with a variable-length text, long integers, every cut", c05_long),
        space(
            "C05",
            "c05-many",
            "record entry point: 0..300, 1000, 4096 and 20000 repetitions of 8 records behind 0..2 fillers, whole, followed by an incomplete record or by a marker; 2-byte records filling a frame",
            c05_many,
        ),
        both(space("C05", "c05-triple", "sequences of 3 out of 35 records, the last one cut at 4 places", c05_triple)),
        space("C05", "c05-context", "1..2 of 35 records, a marker or a cut, behind each of 11 headers in the clear and encrypted", c05_context),
        space("C05", "c05-run", "runs of 0..240 fillers, marks or reserved bytes of 4 values before, between and behind records, a cut one and manufacturer data included", c05_run),
        space("C05", "c05-tail", "manufacturer data and continuation marks of every length up to the longest telegram x 4 contents x 4 leads behind each of 11 headers in the clear and encrypted", c05_tail),
        both(space("C05", "c05-unit", "plain-text units of every length 0..10 over 3 characters with every byte value at every position x 0..1 of 3 VIFEs, followed by a record", c05_unit)),
        space("C06", "c06-single", "every DIF with every DIFE chain of length 0..2 over all byte values of the last two extension bytes", c06_pairs),
        space("C06", "c06-chain", "chains of 1..12 DIFEs over 5 backgrounds with all 256 values at every position", c06_chain),
        space("C06", "c06-bits", "chains of 1..10 DIFEs over {80,C0,90,A0,B0,81,82,84,88,FF} in the last four positions, zero before", c06_bits),
        space("C06", "c06-far", "6 DIF chains behind 0..200 bytes of fillers, short or long records x every header, in the clear and encrypted", c06_far),
        space("C06", "c06-context", "every DIF with 0..2 DIFEs of 10 values, behind each of 11 headers in the clear and encrypted", c06_context),
        space("C06", "c06-cross", "every DIF x DIFE chains of 0..3 out of 6 values x 14 value information blocks", c06_cross),
        space("C06", "c06-seq", "sequences of 2..3 out of 40 records, with a filler, a marker or nothing between", c06_seq),
        space("C07", "c07-int", "every 8- and 16-bit pattern; 24/32/48/64-bit patterns over boundary bytes at every position (thorough: all 24-bit patterns)", c07_int),
        space("C07", "c07-bcd", "every 2- and 4-digit BCD pattern; 6/8/12-digit patterns over 7 byte values per position and all 256 at each single position", c07_bcd),
        space("C07", "c07-real", "every sign/exponent/high-mantissa pattern (65536) with 5 low halves", c07_real),
        space("C07", "c07-lvar", "every variable-length code x every available length shortage 0..2 x 8 content patterns", c07_lvar),
        space("C07", "c07-text", "all texts of 0..3 (thorough 4) bytes over 27 bytes including every class of UTF-8 lead and continuation byte", c07_text),
        space("C07", "c07-lvar-bytes", "variable-length numbers of 0..3 bytes: every value over 16 byte values", c07_lvar_bytes),
        space("C07", "c07-lvar-sweep", "variable-length numbers of every code: every byte value at every position over 4 backgrounds", c07_lvar_sweep),
        space("C07", "c07-unicode", "texts holding every Unicode scalar value, alone and between ASCII, Latin-1 and broken UTF-8", c07_unicode),
        space("C07", "c07-utf8", "four-byte UTF-8 candidates: every lead F0..F7, 12 second and 8 third and fourth bytes, behind 0..1 bytes", c07_utf8),
        space("C07", "c07-text-long", "texts of every length 0..191 of 1..4-byte characters behind 0..3 ASCII characters, one byte changed or not", c07_text_long),
        space("C07", "c07-far", "8 encodings behind 0..200 bytes of fillers, short or long records x every header, in the clear and encrypted", c07_far),
        space("C07", "c07-context", "every data field code: every byte value at every position over 4 backgrounds, 13 variable-length codes, behind each of 11 headers in the clear and encrypted", c07_context),
        space("C07", "c07-units", "every data field code x every VIF, FD and FB code x 0..1 of 8 VIFEs x 6 fills x 3 storage settings", c07_units),
        space("C07", "c07-seq", "sequences of 2..3 out of 43 records, with a filler, a marker or nothing between", c07_seq),
        both(space("C08", "c08-primary", "every VIF with every single VIFE and 14 second VIFEs, with 6 data codings", c08_primary)),
        both(space("C08", "c08-fd-fb", "FD and FB with every first extension byte, every second VIFE and 10 third VIFEs", c08_ext)),
        space("C08", "c08-chain", "chains of 1..4 (thorough 5) VIFEs over 24 combinable codes after 4 VIFs", c08_chain),
        space("C08", "c08-long", "chains of 5..12 VIFEs: background code with every code at every position", c08_long),
        space("C08", "c08-pairs", "every extended VIF with every pair of VIFEs", c08_pairs),
        space("C08", "c08-triples", "every triple of VIFEs on a volume VIF", c08_triples),
        space("C08", "c08-ext-pairs", "every FD and FB extension with every pair of VIFEs (quick: second out of 40)", c08_ext_pairs),
        both(space("C08", "c08-plain", "plain-text VIFs 7C and FC with unit lengths 0..12, 9 texts and 0..2 VIFEs from 20 codes, followed by a sentinel record", c08_plain)),
        both(space("C08", "c08-unit", "plain-text units of every length 0..10 over 3 characters with every byte value at every position x 0..1 of 3 VIFEs, followed by a record", c08_unit)),
        space("C08", "c08-far", "8 units behind 0..200 bytes of fillers, short or long records x every header, in the clear and encrypted", c08_far),
        space("C08", "c08-context", "every VIF, FD and FB code with 0..1 of 16 VIFEs, behind each of 11 headers in the clear and encrypted", c08_context),
        space("C08", "c08-codings", "every VIF, FD and FB code x 0..1 of 10 VIFEs x every DIF without extension", c08_codings),
        space("C08", "c08-seq", "sequences of 2..3 out of 42 records, with a filler, a marker or nothing between", c08_seq),
        space("C09", "c09-date", "every 16-bit date pattern, with and without VIFE and storage", c09_date),
        space("C09", "c09-f", "32-bit date-time: every date half with 12 time halves and every time half with 12 date halves", c09_f),
        space("C09", "c09-i", "48-bit date-time: every pair of adjacent bytes exhaustively over 9 backgrounds", c09_i),
        space("C09", "c09-j", "24-bit time: every second x minute x hour over all 64x64x32 values with 3 spare-bit settings (thorough: all 2^24)", c09_j),
        space("C09", "c09-codings", "date and date-time VIFs with every DIF coding, 9 VIFE choices and 6 data patterns: announced length respected", c09_codings),
        space("C09", "c09-far", "6 dates and times behind 0..200 bytes of fillers, short or long records x every header, in the clear and encrypted", c09_far),
        space("C09", "c09-context", "the date and time encodings: every byte value at every position over 6 backgrounds, behind each of 11 headers in the clear and encrypted", c09_context),
        space("C09", "c09-seq", "sequences of 2..3 out of 43 records, with a filler, a marker or nothing between", c09_seq),
        space("C10", "c10-scale", "28 significands (every width, sign and encoding) x every scaled VIF x 0..2 multiplicative/additive VIFEs", c10_scale),
        space("C10", "c10-lvar", "variable-length numbers of every code and length x 9 contents and every single byte x 6 powers of ten and corrections", c10_lvar),
        space("C10", "c10-digits", "all 16-bit and 4-digit BCD significands with 7 powers of ten and 5 additive corrections", c10_digits),
        space("C10", "c10-seq", "sequences of 2..3 out of 43 records, with a filler, a marker or nothing between", c10_seq),
        space("C10", "c10-sweep", "wide integers and BCD numbers: every byte value at every position with a second byte out of 4, over 3 backgrounds x 8 value information blocks", c10_sweep),
        space("C10", "c10-chain", "5 significands with chains of 1..4 (thorough 5) multiplicative and additive VIFEs", c10_chain),
        space("C10", "c10-mixed", "4 significands x 12 VIFs of every table x 0..4 VIFEs or extension tables out of 14, corrections or not", c10_mixed),
        space("C10", "c10-far", "6 scaled values behind 0..200 bytes of fillers, short or long records x every header, in the clear and encrypted", c10_far),
        space("C10", "c10-context", "28 significands x 12 value information blocks, behind each of 11 headers in the clear and encrypted", c10_context),
        space("C10", "c10-real", "real numbers over 512 exponent/sign patterns and 6 mantissas with 16 powers of ten and 5 additive corrections", c10_real),
    ]
}

const SENTINEL: [u8; 4] = [0x02, 0x5B, 0x34, 0x12];

fn c05_mix(ch: &mut Ch) -> Res {
    let n = 1 + ch.n(ch.tier(2, 3));
    let mut d = gen::between(ch);
    let mut last = 0;
    for _ in 0..n {
        last = d.len();
        d.extend(gen::any_record(ch));
        if n < 3 {
            d.extend(gen::between(ch));
        }
    }
    // a cut inside the last record and everything after it, or an open-ended marker instead
    let tail = ch.n(d.len() - last + 2);
    match tail {
        0 => {}
        1 => d.extend([0x0F, 0x01, 0x13, 0x05]),
        k => d.truncate(last + k - 2 + 1),
    }
    if tail == 0 && ch.flag() {
        d.extend([0x1F]);
    }
    check_records(ch, &d, PART, true)
}

fn c05_head(ch: &mut Ch) -> Res {
    let tails: [&[u8]; 12] = [
        &[],
        &[0x01],
        &[0x01, 0x02],
        &[0x01, 0x02, 0x03, 0x04],
        &[0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09],
        &[0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00],
        &[0x80, 0x01, 0x02, 0x03, 0x04],
        &[0xFF, 0x7F, 0x13, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06],
        &[0x03, 0x41, 0x42, 0x43, 0x55, 0x66],
        &[0xE2, 0x01, 0x02, 0x13, 0x01],
        &[0x2F, 0x2F, 0x0F, 0x1F],
        &[0x13, 0xC1, 0x99, 0x13, 0x13, 0x13, 0x13, 0x13, 0x13],
    ];
    let dif = ch.byte();
    let vif = ch.byte();
    let mut d = vec![dif, vif];
    d.extend(ch.of(&tails));
    if ch.flag() {
        d.extend(SENTINEL);
    }
    check_records(ch, &d, PART, true)
}

fn c05_short(ch: &mut Ch) -> Res {
    let full = ch.tier(2, 3);
    let n = 1 + ch.n(ch.tier(5, 6));
    const A: [u8; 13] = [0x00, 0x01, 0x02, 0x0D, 0x0F, 0x1F, 0x2F, 0x3F, 0x7F, 0x80, 0x81, 0xFF, 0x7C];
    let d: Vec<u8> = (0..n).map(|_| if n <= full { ch.byte() } else { ch.of(&A) }).collect();
    check_records(ch, &d, PART, true)
}

fn c05_long(ch: &mut Ch) -> Res {
    match ch.n(3) {
        0 => {
            let n = 1 + ch.n(83);
            let fill = ch.n(3);
            let rec: [&[u8]; 4] = [&[0x01, 0x13, 0x2F], &[0x09, 0x78, 0x0F], &[0x00, 0xFD, 0x17], &[0x81, 0x80, 0x7F]];
            let r = ch.of(&rec);
            let mut d = vec![0x2F; fill];
            for i in 0..n {
                d.extend(r);
                if r.len() == 3 && r[0] == 0x81 {
                    d.extend([0x13, i as u8]);
                }
            }
            d.truncate(251);
            check_records(ch, &d, PART, true)
        }
        1 => {
            let n = ch.n(192);
            let mut d = vec![0x0D, 0x78, n as u8];
            d.extend(gen::pattern(n.min(191), 0x41));
            let have = ch.n(3);
            match have {
                0 => d.extend(SENTINEL),
                1 => {}
                _ => {
                    d.pop();
                }
            }
            check_records(ch, &d, PART, true)
        }
        _ => {
            let code = 0xE0 + ch.n(32) as u8;
            let avail = ch.n(70);
            let mut d = vec![0x4D, 0x13, code];
            d.extend(gen::pattern(avail, 7));
            check_records(ch, &d, PART, true)
        }
    }
}

fn c05_many(ch: &mut Ch) -> Res {
    let unit: Vec<u8> = match ch.n(8) {
        0 => vec![0x00, 0x13],
        1 => vec![0x01, 0x13, 0x2F],
        2 => vec![0x2F, 0x01, 0x13, 0x0F],
        3 => [&[0x0D, 0x78, 60][..], &gen::pattern(60, 0x41)].concat(),
        4 => gen::RECORDS[23].to_vec(),
        5 => vec![0x7F],
        6 => vec![0x2F, 0x2F, 0x3F, 0x08, 0x13],
        _ => [&[0x0D, 0x13, 0xF6][..], &gen::pattern(64, 0x41)].concat(),
    };
    let fill = ch.n(3);
    let k = ch.n(304);
    let n = if k <= 300 { k } else { [1000, 4096, 20000][k - 301] };
    let mut d = vec![0x2F; fill];
    for _ in 0..n {
        d.extend(&unit);
    }
    match ch.n(3) {
        0 => {}
        1 => d.extend([0x04, 0x13, 0x01]),
        _ => d.extend([0x0F, 0x04, 0x13, 0x01]),
    }
    if d.is_empty() {
        return refused(&"empty");
    }
    if d.len() <= 251 {
        check_records(ch, &d, PART, true)?;
    }
    ch.note(|| format!("{fill} fillers, {n} x {}, {} bytes", hex(&unit), d.len()));
    let m = model::records(&d, Opt { skip_7c: true, ..model::opt() });
    ch.ok();
    match (m_bus_parser::decode_data_records(&d), m.error) {
        (Err(_), Some(e)) => refused(&e),
        (Ok(r), None) => {
            if r.len() != m.recs.len() {
                return fail("record", format!("{} records, model has {}", r.len(), m.recs.len()));
            }
            for (i, (r, q)) in r.iter().zip(&m.recs).enumerate() {
                if let Some(x) = record_diff(i, r, q, &d, PART | VAL | DIB) {
                    return fail("record", x);
                }
            }
            out(&(r.len(), d.len()))
        }
        (r, e) => fail("record", format!("records {:?}, model fails at {e:?}", r.map(|r| r.len()).map_err(|e| e.code()))),
    }
}

fn c05_triple(ch: &mut Ch) -> Res {
    let mut d = gen::any_record(ch);
    d.extend(gen::any_record(ch));
    let at = d.len();
    d.extend(gen::any_record(ch));
    let k = ch.n(4);
    let n = d.len();
    d.truncate(match k {
        0 => n,
        1 => n - 1,
        2 => at + 1,
        _ => at + (n - at) / 2,
    });
    check_records(ch, &d, PART | VAL | DIB | QTY, true)
}

/// Sequences of records: what a record means does not depend on its neighbours.
fn seq(ch: &mut Ch, extra: &[&[u8]], mask: u32) -> Res {
    let n = 2 + ch.n(2);
    let mut d = vec![];
    for i in 0..n {
        let k = ch.n(gen::RECORDS.len() + extra.len());
        d.extend(gen::RECORDS.get(k).unwrap_or_else(|| &extra[k - gen::RECORDS.len()]).iter());
        if i == 0 {
            d.extend(ch.of(&[&[][..], &[0x2F], &[0x3F]]));
        }
    }
    check_records(ch, &d, mask, false)
}

fn c06_seq(ch: &mut Ch) -> Res {
    const MORE: [&[u8]; 6] = [
        &[0x84, 0x40, 0x13, 1, 0, 0, 0],
        &[0xC4, 0x80, 0x10, 0x13, 2, 0, 0, 0],
        &[0xB1, 0x30, 0x13, 3],
        &[0x61, 0x13, 4],
        &[0x81, 0x8F, 0x80, 0x80, 0x01, 0x13, 5],
        &[0x11, 0x6C, 6],
    ];
    seq(ch, &MORE, DIB)
}

fn c07_seq(ch: &mut Ch) -> Res {
    const MORE: [&[u8]; 9] = [
        &[0x02, 0x16, 0xFF, 0xFF],
        &[0x04, 0x16, 0x00, 0x00, 0x00, 0x80],
        &[0x07, 0x16, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x7F],
        &[0x05, 0x16, 0x00, 0x00, 0xC0, 0x7F],
        &[0x0A, 0x16, 0x99, 0x99],
        &[0x0D, 0x78, 0xC2, 0x01, 0x00],
        &[0x0D, 0x78, 0x03, 0xE9, b'a', 0xFF],
        &[0x0D, 0x16, 0xE1, 0xFF],
        &[0x0C, 0x16, 0x00, 0x00, 0x00, 0x00],
    ];
    seq(ch, &MORE, VAL | CODING)
}

fn c08_seq(ch: &mut Ch) -> Res {
    const MORE: [&[u8]; 8] = [
        &[0x01, 0x93, 0x2C, 1],
        &[0x01, 0xFD, 0xFD, 0x01, 1],
        &[0x01, 0xFD, 0x93, 0x22, 1],
        &[0x01, 0xFB, 0x83, 0x39, 1],
        &[0x01, 0x93, 0xFC, 0x0C, 1],
        &[0x01, 0xFF, 0x93, 0x13, 1],
        &[0x01, 0x6E, 1],
        &[0x01, 0xEF, 0x7F, 1],
    ];
    seq(ch, &MORE, QTY)
}

fn c09_seq(ch: &mut Ch) -> Res {
    const MORE: [&[u8]; 9] = [
        &[0x02, 0x6C, 0x00, 0x00],
        &[0x02, 0xEC, 0x7E, 0xFF, 0x2C],
        &[0x42, 0x6C, 0x7F, 0x1C],
        &[0x04, 0x6D, 0x3F, 0x1F, 0x00, 0x00],
        &[0x04, 0x6D, 0x80, 0x80, 0xE1, 0xF1],
        &[0x03, 0x6D, 0x3F, 0x3F, 0x1F],
        &[0x06, 0x6D, 0x3F, 0x3F, 0x1F, 0xFF, 0xFF, 0xFF],
        &[0x02, 0xFD, 0x70, 0x21, 0x31],
        &[0x04, 0xFD, 0x30, 0x21, 0x0A, 0x21, 0x31],
    ];
    seq(ch, &MORE, VAL)
}

fn c10_seq(ch: &mut Ch) -> Res {
    const MORE: [&[u8]; 9] = [
        &[0x01, 0x93, 0x70, 0xFB],
        &[0x01, 0x93, 0x7D, 0x05],
        &[0x01, 0x93, 0x78, 0x02],
        &[0x01, 0x93, 0xFB, 0x7B, 0xFF],
        &[0x02, 0x10, 0x64, 0x00],
        &[0x02, 0x17, 0x00, 0x00],
        &[0x09, 0x10, 0x50],
        &[0x05, 0x10, 0x00, 0x00, 0x80, 0x7F],
        &[0x0D, 0x10, 0xD1, 0x15],
    ];
    seq(ch, &MORE, VAL)
}

fn c06_cross(ch: &mut Ch) -> Res {
    const VIBS: [&[u8]; 14] = [
        &[0x13],
        &[0x78],
        &[0x6C],
        &[0x6D],
        &[0x7F],
        &[0x93, 0x3B],
        &[0xFF, 0x21],
        &[0xFD, 0x17],
        &[0xFB, 0x1A],
        &[0x93, 0xFC, 0x10],
        &[0x6E],
        &[0x90, 0x7D],
        &[0x93, 0xBA, 0xBE, 0x3B],
        &[0xFD, 0xFD, 0x01],
    ];
    let mut d = vec![ch.byte()];
    if d[0] & 15 == 15 {
        return refused(&"special");
    }
    if d[0] & 0x80 != 0 {
        for i in 0..3 {
            let b = ch.of(&[0x00u8, 0x0F, 0x31, 0x4A, 0x7F, 0x55]);
            let more = i < 2 && ch.flag();
            d.push(b | (more as u8) << 7);
            if !more {
                break;
            }
        }
    }
    d.extend(ch.of(&VIBS));
    match d[0] & 15 {
        0xD => d.extend([0x02, 0x41, 0x42]),
        c => d.extend(vec![0x21; gen::width(c)]),
    }
    check_records(ch, &d, DIB, false)
}

/// Every VIF and every FD and FB code, each followed by one of `more` or nothing.
fn any_vib(ch: &mut Ch, more: &[u8]) -> Vec<u8> {
    let mut v = match ch.n(3) {
        0 => vec![ch.n(128) as u8],
        1 => vec![0xFD, ch.n(128) as u8],
        _ => vec![0xFB, ch.n(128) as u8],
    };
    let k = ch.n(more.len() + 1);
    if k > 0 {
        *v.last_mut().unwrap() |= 0x80;
        v.push(more[k - 1]);
    }
    v
}

fn c07_units(ch: &mut Ch) -> Res {
    let code = ch.n(15) as u8;
    let vib = any_vib(ch, &[0x13, 0x2C, 0x3B, 0x39, 0x6C, 0x70, 0x7D, 0x7F]);
    let mut d = match ch.n(3) {
        0 => vec![code],
        1 => vec![0x40 | code],
        _ => vec![0xB0 | code, 0x31],
    };
    d.extend(&vib);
    let fill = ch.of(&[0x00u8, 0x01, 0x21, 0x80, 0x99, 0xFF]);
    match code {
        0xD => {
            d.push(ch.of(&[0x02u8, 0xC2, 0xD2, 0xE2]));
            d.extend([fill; 2]);
        }
        c => d.extend(vec![fill; gen::width(c)]),
    }
    check_records(ch, &d, VAL | CODING, false)
}

fn c08_codings(ch: &mut Ch) -> Res {
    let dif = ch.n(128) as u8;
    if dif & 15 == 15 {
        return refused(&"special");
    }
    let mut d = vec![dif];
    d.extend(any_vib(ch, &[0x10, 0x13, 0x22, 0x2C, 0x39, 0x3B, 0x50, 0x6F, 0x74, 0x7F]));
    match dif & 15 {
        0xD => d.extend([0x02, 0x41, 0x42]),
        c => d.extend(vec![0x21; gen::width(c)]),
    }
    check_records(ch, &d, QTY, false)
}

fn c10_sweep(ch: &mut Ch) -> Res {
    let (dif, n) = ch.of(&[(0x03u8, 3), (0x04, 4), (0x06, 6), (0x07, 8), (0x0B, 3), (0x0C, 4), (0x0E, 6)]);
    let bg = ch.of(&[0x00u8, 0x99, 0xFF]);
    let mut v = vec![bg; n];
    let p = ch.n(n);
    v[p] = ch.byte();
    let q = ch.n(n + 1);
    if q < n {
        v[q] = ch.of(&[0x00u8, 0x10, 0x7F, 0x80]);
    }
    let vib = ch.of(&[&[0x16u8][..], &[0x10], &[0x13], &[0x17], &[0x93, 0x78], &[0x95, 0x7B], &[0x90, 0xF0, 0x7D], &[0x2F]]);
    c10_run(ch, (dif, &v), vib)
}

fn c06_run(ch: &mut Ch, dib: &[u8]) -> Res {
    let mut d = dib.to_vec();
    d.extend([0x13, 1, 0, 0, 0, 0, 0, 0, 0]);
    // data bytes beyond the announced ones are consumed by fillers
    let used = match dib[0] & 15 {
        0 | 8 => 0,
        1 | 9 => 1,
        2 | 0xA => 2,
        3 | 0xB => 3,
        4 | 5 | 0xC => 4,
        6 | 0xE => 6,
        7 => 8,
        _ => 8,
    };
    let l = dib.len() + 1;
    for b in &mut d[l + used..] {
        *b = 0x2F;
    }
    if dib[0] & 15 == 0xD {
        d.truncate(l);
        d.extend([0x01, 0x41]);
    }
    check_records(ch, &d, DIB, false)
}

fn c06_pairs(ch: &mut Ch) -> Res {
    let dif = ch.byte();
    if dif & 15 == 15 {
        return c06_run(ch, &[dif]);
    }
    let mut dib = vec![dif];
    if dif & 0x80 != 0 {
        let a = ch.byte();
        dib.push(a);
        if a & 0x80 != 0 {
            let b = if dif & 0x0F == 1 || ch.thorough { ch.n(128) as u8 } else { ch.of(&[0x00, 0x01, 0x0F, 0x10, 0x30, 0x40, 0x7F]) };
            dib.push(b);
        }
    }
    c06_run(ch, &dib)
}

fn c06_chain(ch: &mut Ch) -> Res {
    let n = 1 + ch.n(12);
    let bg = ch.of(&[0x80u8, 0xFF, 0x8F, 0xB0, 0xC0]);
    let pos = ch.n(n);
    let val = ch.byte();
    let dif = ch.of(&[0x81u8, 0xC2, 0xB4]);
    let mut dib = vec![dif];
    dib.extend(vec![bg; n]);
    dib[pos + 1] = val;
    dib[n] &= 0x7F;
    c06_run(ch, &dib)
}

fn c06_bits(ch: &mut Ch) -> Res {
    let n = 1 + ch.n(10);
    const A: [u8; 10] = [0x80, 0xC0, 0x90, 0xA0, 0xB0, 0x81, 0x82, 0x84, 0x88, 0xFF];
    let mut dib = vec![ch.of(&[0x81u8, 0xC1])];
    for i in 0..n {
        dib.push(if i + 4 >= n { ch.of(&A) } else { 0x80 });
    }
    dib[n] &= 0x7F;
    c06_run(ch, &dib)
}

/// VIFs without a power of ten
const PLAIN_VIFS: [u8; 3] = [0x16, 0x78, 0x03];

fn c07_run(ch: &mut Ch, dif: u8, data: &[u8]) -> Res {
    let vif = ch.of(&PLAIN_VIFS[..1]);
    let mut d = vec![dif, vif];
    d.extend(data);
    check_records(ch, &d, VAL | CODING, false)
}

fn swept(ch: &mut Ch, n: usize, bytes: &[u8]) -> Vec<u8> {
    if ch.flag() {
        (0..n).map(|_| ch.of(bytes)).collect()
    } else {
        let bg = ch.of(&[0x00u8, 0x11, 0x99, 0xFF]);
        let mut v = vec![bg; n];
        let p = ch.n(n);
        v[p] = ch.byte();
        v
    }
}

fn c07_int(ch: &mut Ch) -> Res {
    match ch.n(6) {
        0 => {
            let v = [ch.byte()];
            let dif = ch.of(&[0x01u8, 0x41, 0x11]);
            c07_run(ch, dif, &v)
        }
        1 => {
            let v = [ch.byte(), ch.byte()];
            c07_run(ch, 0x02, &v)
        }
        2 => {
            let v = if ch.thorough {
                vec![ch.byte(), ch.byte(), ch.byte()]
            } else {
                swept(ch, 3, &[0, 1, 2, 0x0F, 0x10, 0x55, 0x7E, 0x7F, 0x80, 0x81, 0xAA, 0xF0, 0xFE, 0xFF])
            };
            c07_run(ch, 0x03, &v)
        }
        3 => {
            let v = swept(ch, 4, &[0, 1, 0x0F, 0x10, 0x7F, 0x80, 0x81, 0xF0, 0xFE, 0xFF]);
            c07_run(ch, 0x04, &v)
        }
        4 => {
            let v = swept(ch, 6, &[0, 1, 0x55, 0x7F, 0x80, 0xFE, 0xFF]);
            c07_run(ch, 0x06, &v)
        }
        _ => {
            let v = swept(ch, 8, &[0, 1, 0x7F, 0x80, 0xFF]);
            c07_run(ch, 0x07, &v)
        }
    }
}

fn c07_bcd(ch: &mut Ch) -> Res {
    let k = ch.n(5);
    let n = [1, 2, 3, 4, 6][k];
    let dif = [0x09u8, 0x0A, 0x0B, 0x0C, 0x0E][k];
    let v = match n {
        1 => vec![ch.byte()],
        2 => vec![ch.byte(), ch.byte()],
        _ => swept(ch, n, &[0x00, 0x01, 0x10, 0x99, 0x0A, 0xF0, 0x58]),
    };
    c07_run(ch, dif, &v)
}

fn c07_real(ch: &mut Ch) -> Res {
    let (a, b) = (ch.byte(), ch.byte());
    let lo = ch.of(&[[0u8, 0], [1, 0], [0xFF, 0xFF], [0x00, 0x80], [0xCD, 0xAB]]);
    c07_run(ch, 0x05, &[lo[0], lo[1], b, a])
}

fn c07_lvar(ch: &mut Ch) -> Res {
    let code = ch.byte();
    let need = lvar_len(code);
    let short = ch.n(3);
    let body: Vec<u8> = match ch.n(8) {
        0 => vec![0x00; need],
        1 => vec![0xFF; need],
        2 => vec![0x99; need],
        3 => vec![0x41; need],
        4 => (0..need).map(|i| (i * 37 + 1) as u8).collect(),
        5 => (0..need).map(|i| if i + 1 == need { 0x80 } else { 0x00 }).collect(),
        6 => (0..need).map(|i| if i + 1 == need { 0x7F } else { 0xFF }).collect(),
        _ => (0..need).map(|i| (((i * 3) % 10) * 16 + (i * 7 + 5) % 10) as u8).collect(),
    };
    let mut v = vec![code];
    v.extend(&body[..need.saturating_sub(short)]);
    c07_run(ch, 0x0D, &v)
}

fn c07_text(ch: &mut Ch) -> Res {
    const A: [u8; 27] = [
        0x00, 0x0A, 0x1F, 0x20, 0x22, 0x26, 0x30, 0x3C, 0x41, 0x7A, 0x7F, 0x80, 0x85, 0x9F, 0xA0, 0xB5, 0xBF, 0xC0, 0xC2, 0xC3, 0xDF, 0xE0, 0xE2, 0xED, 0xEF,
        0xF4, 0xFF,
    ];
    let n = ch.n(ch.tier(4, 5));
    let mut v = vec![n as u8];
    for _ in 0..n {
        v.push(ch.of(&A));
    }
    c07_run(ch, 0x0D, &v)
}

fn c07_lvar_bytes(ch: &mut Ch) -> Res {
    const A: [u8; 16] = [0x00, 0x01, 0x09, 0x0A, 0x0F, 0x10, 0x19, 0x55, 0x7F, 0x80, 0x90, 0x99, 0x9A, 0xA0, 0xF0, 0xFF];
    let n = ch.n(4);
    let mut v = vec![ch.of(&[0xC0u8, 0xD0, 0xE0]) + n as u8];
    for _ in 0..n {
        v.push(ch.of(&A));
    }
    c07_run(ch, 0x0D, &v)
}

fn lvar_len(code: u8) -> usize {
    match code {
        0..=0xBF => usize::from(code),
        0xC0..=0xEF => usize::from(code & 15),
        0xF0..=0xF4 => 4 * (usize::from(code & 15) + 4),
        0xF5 => 48,
        0xF6 => 64,
        _ => 4,
    }
}

fn c07_lvar_sweep(ch: &mut Ch) -> Res {
    let code = 0xC0 + ch.n(0x37) as u8;
    let n = lvar_len(code);
    if n == 0 {
        return refused(&"empty");
    }
    let bg = ch.of(&[0x00u8, 0x25, 0x99, 0xFF]);
    let mut v = vec![code];
    v.extend(vec![bg; n]);
    let p = 1 + ch.n(n);
    v[p] = ch.byte();
    c07_run(ch, 0x0D, &v)
}

fn c07_send(ch: &mut Ch, text: &[u8]) -> Res {
    let mut v = vec![text.len() as u8];
    v.extend(text.iter().rev());
    c07_run(ch, 0x0D, &v)
}

fn c07_unicode(ch: &mut Ch) -> Res {
    let page = ch.n(0x1100) as u32;
    let c = char::from_u32(page << 8 | u32::from(ch.byte()));
    let Some(c) = c else {
        return refused(&"surrogate");
    };
    let mut t = Vec::new();
    let mut b = [0; 4];
    let s = c.encode_utf8(&mut b).as_bytes();
    match ch.n(ch.tier(2, 4)) {
        0 => t.extend(s),
        1 => {
            t.extend(b"m");
            t.extend(s);
            t.extend(b"/s");
        }
        2 => {
            t.extend(s);
            t.push(0xB0);
        }
        _ => {
            t.extend("é漢".as_bytes());
            t.extend(s);
            t.extend(s);
        }
    }
    c07_send(ch, &t)
}

fn c07_utf8(ch: &mut Ch) -> Res {
    let mut t = Vec::new();
    if ch.flag() {
        t.push(ch.of(&[0x41u8, 0x80, 0xC3]));
    }
    t.push(0xF0 + ch.n(8) as u8);
    t.push(ch.of(&[0x7Fu8, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xAF, 0xB0, 0xBF, 0xC0, 0xF0, 0xFF]));
    for _ in 0..2 {
        t.push(ch.of(&[0x00u8, 0x41, 0x7F, 0x80, 0x9F, 0xA0, 0xBF, 0xC0]));
    }
    if ch.flag() {
        t.push(ch.of(&[0x41u8, 0x80, 0xF0]));
    }
    c07_send(ch, &t)
}

fn c07_text_long(ch: &mut Ch) -> Res {
    let n = ch.n(192);
    let unit = ch.of(&["A", "é", "漢", "😀", "é漢", "A😀", "\u{301}e"]);
    let lead = ch.n(4);
    let mut t = vec![b'x'; lead];
    while t.len() < n {
        t.extend(unit.as_bytes());
    }
    // a character may be cut here: then the text is not UTF-8 and read as Latin-1
    t.truncate(n);
    match ch.n(3) {
        0 => {}
        1 if n > 0 => t[n / 2] = 0xFF,
        _ if n > 0 => t[n - 1] = 0x2E,
        _ => {}
    }
    c07_send(ch, &t)
}

/// Data for a coding, with a nonzero last digit.
fn coding(ch: &mut Ch, thin: bool) -> (u8, &'static [u8]) {
    let all: [(u8, &[u8]); 6] = [
        (0x01, &[0x07]),
        (0x02, &[0x07, 0x00]),
        (0x0C, &[0x07, 0x00, 0x00, 0x00]),
        (0x04, &[0x03, 0x00, 0x00, 0x80]),
        (0x05, &[0x00, 0x00, 0x80, 0x3F]),
        (0x00, &[]),
    ];
    if thin {
        all[0]
    } else {
        ch.of(&all)
    }
}

fn c08_run(ch: &mut Ch, coding: (u8, &[u8]), vib: &[u8]) -> Res {
    let mut d = vec![coding.0];
    d.extend(vib);
    d.extend(coding.1);
    check_records(ch, &d, VAL | QTY, true)
}

fn c08_primary(ch: &mut Ch) -> Res {
    let vif = ch.byte();
    if vif & 0x7F == 0x7C {
        return refused(&"plain-text VIFs are covered by c08-plain");
    }
    let mut vib = vec![vif];
    if vif & 0x80 == 0 {
        let c = coding(ch, false);
        return c08_run(ch, c, &vib);
    }
    let a = ch.byte();
    vib.push(a);
    if a & 0x80 != 0 {
        vib.push(ch.of(&[0x00u8, 0x12, 0x20, 0x28, 0x33, 0x3B, 0x40, 0x50, 0x70, 0x77, 0x7A, 0x7B, 0x7D, 0x7F]));
    }
    let thin = !ch.thorough;
    let c = coding(ch, thin);
    c08_run(ch, c, &vib)
}

fn c08_ext(ch: &mut Ch) -> Res {
    let mut vib = vec![ch.of(&[0xFDu8, 0xFB])];
    let a = ch.byte();
    vib.push(a);
    if a & 0x80 != 0 {
        let b = ch.byte();
        vib.push(b);
        if b & 0x80 != 0 {
            vib.push(ch.of(&[0x01u8, 0x12, 0x22, 0x2C, 0x3E, 0x50, 0x71, 0x7B, 0x7D, 0x7F]));
        }
    }
    let thin = a & 0x80 != 0;
    let c = coding(ch, thin);
    c08_run(ch, c, &vib)
}

/// combinable codes, one of each kind
const COMB: [u8; 24] =
    [0x00, 0x12, 0x13, 0x1A, 0x20, 0x22, 0x28, 0x2D, 0x30, 0x31, 0x33, 0x36, 0x39, 0x3D, 0x40, 0x54, 0x6A, 0x70, 0x73, 0x77, 0x7B, 0x7C, 0x7D, 0x7F];

fn c08_chain(ch: &mut Ch) -> Res {
    let vif = ch.of(&[0x90u8, 0x83, 0xEC, 0xFF]);
    let n = 1 + ch.n(ch.tier(4, 5));
    let mut vib = vec![vif];
    for i in 0..n {
        let c = ch.of(&COMB);
        vib.push(if i + 1 < n { c | 0x80 } else { c });
    }
    c08_run(ch, (0x01, &[0x07]), &vib)
}

fn c08_long(ch: &mut Ch) -> Res {
    let n = 5 + ch.n(8);
    let bg = ch.of(&[0x93u8, 0xF6, 0xF7, 0xFB, 0xB6, 0xFC]);
    let p = ch.n(n);
    let val = ch.n(128) as u8;
    let vif = ch.of(&[0x93u8, 0xFD, 0xFB, 0xFC]);
    let mut vib = vec![vif];
    vib.extend(vec![bg; n]);
    vib[1 + p] = val | 0x80;
    vib[n] &= 0x7F;
    if vif == 0xFC {
        if crate::pbe() {
            vib.insert(1, 0);
        } else {
            vib.push(0);
        }
    }
    c08_run(ch, (0x01, &[0x07]), &vib)
}

fn c08_pairs(ch: &mut Ch) -> Res {
    let vif = ch.n(128) as u8 | 0x80;
    if vif == 0xFC {
        return refused(&"plain text");
    }
    let vib = [vif, ch.n(128) as u8 | 0x80, ch.n(128) as u8];
    c08_run(ch, (0x01, &[0x07]), &vib)
}

/// Every kind of VIFE, and the neighbours of the table borders.
const THIRD: [u8; 40] = [
    0x00, 0x01, 0x07, 0x0B, 0x0F, 0x10, 0x11, 0x12, 0x13, 0x15, 0x17, 0x1D, 0x1F, 0x20, 0x21, 0x22, 0x25, 0x28, 0x2B, 0x2F, 0x31, 0x36, 0x38, 0x39, 0x3A, 0x3B,
    0x3C, 0x3D, 0x3E, 0x3F, 0x40, 0x48, 0x51, 0x5F, 0x6F, 0x73, 0x79, 0x7C, 0x7D, 0x7F,
];

fn c08_triples(ch: &mut Ch) -> Res {
    let a = ch.n(128) as u8;
    let b = ch.n(128) as u8;
    let c = ch.n(128) as u8;
    c08_run(ch, (0x01, &[0x07]), &[0x93, a | 0x80, b | 0x80, c])
}

fn c08_ext_pairs(ch: &mut Ch) -> Res {
    let t = ch.of(&[0xFDu8, 0xFB]);
    let a = ch.n(128) as u8;
    let b = ch.n(128) as u8;
    let c = if ch.thorough { ch.n(128) as u8 } else { ch.of(&THIRD) };
    c08_run(ch, (0x01, &[0x07]), &[t, a | 0x80, b | 0x80, c])
}

fn c08_plain(ch: &mut Ch) -> Res {
    let vif = ch.of(&[0x7Cu8, 0xFC]);
    let len = ch.n(13);
    let txt: Vec<u8> = match ch.n(9) {
        0 => vec![b'A'; len],
        1 => vec![0x00; len],
        2 => vec![0xFF; len],
        3 => vec![0x7C; len],
        4 => vec![0x80; len],
        5 => vec![0x13; len],
        6 => (0..len).map(|i| b"\xC2\xB0\xE2\x82\xAC%/<&"[i % 9]).collect(),
        7 => (0..len).map(|i| i as u8).collect(),
        _ => vec![0x2F; len],
    };
    let mut vifes = Vec::new();
    if vif == 0xFC {
        const C: [u8; 20] = [0x00, 0x12, 0x20, 0x28, 0x2D, 0x30, 0x33, 0x3B, 0x40, 0x54, 0x6A, 0x70, 0x73, 0x74, 0x77, 0x7B, 0x7C, 0x7D, 0x7E, 0x7F];
        let two = ch.flag();
        if two {
            vifes.push(ch.of(&C) | 0x80);
        }
        vifes.push(ch.of(&C));
    }
    let mut vib = vec![vif];
    let mut text = vec![len as u8];
    text.extend(&txt);
    if crate::pbe() {
        vib.extend(&text);
        vib.extend(&vifes);
    } else {
        vib.extend(&vifes);
        vib.extend(&text);
    }
    let mut d = vec![0x01];
    d.extend(&vib);
    d.push(0x07);
    d.extend(SENTINEL);
    check_records(ch, &d, VAL | QTY | PART, true)
}

fn c09_check(ch: &mut Ch, d: &[u8]) -> Res {
    check_records(ch, d, VAL | CODING | PART, false)
}

fn c09_date(ch: &mut Ch) -> Res {
    let (a, b) = (ch.byte(), ch.byte());
    let head = ch.of(&[&[0x02u8, 0x6C][..], &[0x42, 0xEC, 0x7E], &[0x82, 0x01, 0x6C]]);
    let mut d = head.to_vec();
    d.extend([a, b]);
    d.extend([0x01, 0x13, 0x01]);
    c09_check(ch, &d)
}

const DAYS: [[u8; 2]; 12] = [
    [0x1F, 0x15],
    [0x00, 0x00],
    [0xFF, 0xFF],
    [0xE1, 0xF1],
    [0x21, 0x0C],
    [0x3D, 0x22],
    [0x01, 0x0D],
    [0x01, 0x0F],
    [0x00, 0x11],
    [0x1E, 0xF2],
    [0x81, 0x91],
    [0x5F, 0x7C],
];
const TIMES: [[u8; 2]; 12] = [
    [0x00, 0x00],
    [0x3B, 0x17],
    [0x3C, 0x17],
    [0x3B, 0x18],
    [0x3F, 0x1F],
    [0x80, 0x00],
    [0x40, 0x80],
    [0x1E, 0xEA],
    [0xFF, 0xFF],
    [0x3F, 0x0A],
    [0x05, 0x1F],
    [0x3E, 0x1E],
];

fn c09_f(ch: &mut Ch) -> Res {
    let (t, dd);
    if ch.flag() {
        t = [ch.byte(), ch.byte()];
        dd = ch.of(&DAYS);
    } else {
        dd = [ch.byte(), ch.byte()];
        t = ch.of(&TIMES);
    }
    let mut d = vec![0x04, 0x6D];
    d.extend(t);
    d.extend(dd);
    c09_check(ch, &d)
}

fn c09_i(ch: &mut Ch) -> Res {
    let bg = ch.of(&[
        [0x1E, 0x0A, 0x10, 0x15, 0x1A, 0x00],
        [0x00, 0x00, 0x00, 0x21, 0x01, 0x00],
        [0x3F, 0x3F, 0x1F, 0x00, 0xFF, 0xFF],
        [0xFF; 6],
        [0x00; 6],
        [0x3C, 0x3B, 0x17, 0xFF, 0x1C, 0x80],
        [0x80, 0x40, 0xE0, 0x41, 0x2F, 0x40],
        [0x3B, 0x3C, 0x18, 0x5E, 0xF2, 0x3F],
        [0x3F, 0x05, 0x06, 0xE1, 0xF3, 0x00],
    ]);
    let p = ch.n(5);
    let mut v = bg;
    v[p] = ch.byte();
    v[p + 1] = ch.byte();
    let mut d = vec![0x06, 0x6D];
    d.extend(v);
    c09_check(ch, &d)
}

fn c09_j(ch: &mut Ch) -> Res {
    let v = if ch.thorough {
        [ch.byte(), ch.byte(), ch.byte()]
    } else {
        let spare = ch.of(&[[0u8, 0, 0], [0xC0, 0xC0, 0xE0], [0x80, 0x40, 0x20]]);
        [ch.n(64) as u8 | spare[0], ch.n(64) as u8 | spare[1], ch.n(32) as u8 | spare[2]]
    };
    let mut d = vec![0x03, 0x6D];
    d.extend(v);
    c09_check(ch, &d)
}

fn c09_codings(ch: &mut Ch) -> Res {
    let dif = ch.byte();
    let vib = ch.of(&[&[0x6Cu8][..], &[0x6D], &[0xEC, 0x12], &[0xED, 0x7E], &[0xEC, 0x39], &[0xED, 0xBC, 0x7E], &[0xFD, 0x70], &[0xFD, 0x65], &[0x93, 0x6C]]);
    let pat = ch.of(&[0x00u8, 0x11, 0x21, 0x3F, 0x99, 0xFF]);
    let mut d = vec![dif];
    if dif & 0x80 != 0 {
        d.push(0x01);
    }
    d.extend(vib);
    if dif & 15 == 0xD {
        d.push(ch.of(&[0x02u8, 0x04, 0xE2, 0xE3, 0xE4, 0xE6, 0xC2, 0xC4]));
    }
    d.extend(vec![pat; 14]);
    let cut = ch.n(12);
    d.truncate(d.len() - cut);
    c09_check(ch, &d)
}

// The same records behind other headers: byte order, encryption and radio framing must not matter.

fn c05_context(ch: &mut Ch) -> Res {
    let mut d = gen::any_record(ch);
    match ch.n(4) {
        0 => {}
        1 => d.extend(gen::any_record(ch)),
        2 => d.extend([0x2F, 0x0F, 0x01, 0x13]),
        _ => {
            let cut = 1 + ch.n(d.len());
            d.truncate(d.len() - cut);
        }
    }
    check_records_in(ch, &d, PART)
}

fn c06_context(ch: &mut Ch) -> Res {
    let dif = ch.byte();
    let mut d = vec![dif];
    if dif & 0x80 != 0 {
        const E: [u8; 10] = [0x00, 0x01, 0x0F, 0x10, 0x30, 0x40, 0x7F, 0x2A, 0x55, 0x08];
        if ch.flag() {
            d.push(ch.of(&E) | 0x80);
        }
        d.push(ch.of(&E));
    }
    d.extend([0x13, 0x02, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37]);
    check_records_in(ch, &d, DIB)
}

fn c07_context(ch: &mut Ch) -> Res {
    let code = ch.n(16);
    if code == 8 || code == 15 {
        return refused(&"no data");
    }
    let mut d = vec![code as u8, 0x13];
    let n = if code == 0xD {
        let lvar = ch.of(&[0x00u8, 0x01, 0x03, 0x0A, 0xC0, 0xC1, 0xC4, 0xD1, 0xD4, 0xE1, 0xE4, 0xE8, 0xF4]);
        d.push(lvar);
        lvar_len(lvar)
    } else {
        [0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, 0, 6, 0][code]
    };
    let bg = ch.of(&[0x00u8, 0x12, 0x99, 0xFF]);
    // distinct neighbours, so that a byte order shows
    let mut v: Vec<u8> = (0..n).map(|i| if bg == 0x12 { [0x12, 0x34, 0x56, 0x78][i % 4] } else { bg }).collect();
    if n > 0 {
        let p = ch.n(n);
        v[p] = ch.byte();
    }
    d.extend(v);
    check_records_in(ch, &d, VAL | CODING)
}

fn c08_context(ch: &mut Ch) -> Res {
    const E: [u8; 16] = [0x00, 0x12, 0x17, 0x22, 0x39, 0x3B, 0x3C, 0x45, 0x6C, 0x70, 0x75, 0x79, 0x7D, 0x7E, 0x7F, 0x50];
    let mut vib = match ch.n(3) {
        0 => vec![ch.byte() & 0x7F],
        1 => vec![0xFD, ch.byte() & 0x7F],
        _ => vec![0xFB, ch.byte() & 0x7F],
    };
    if ch.flag() {
        if let Some(last) = vib.last_mut() {
            *last |= 0x80;
        }
        if vib[0] == 0xFC {
            vib.extend([ch.of(&E), 0x02, b'h', b'W']);
        } else {
            vib.push(ch.of(&E));
        }
    }
    let mut d = vec![ch.of(&[0x02u8, 0x0A, 0x0D])];
    d.extend(vib);
    d.extend([0x02, 0x31, 0x32, 0x02, 0x5B, 0x34, 0x12]);
    check_records_in(ch, &d, QTY)
}

fn c09_context(ch: &mut Ch) -> Res {
    let (dif, vif, n) =
        ch.of(&[(0x02u8, 0x6Cu8, 2usize), (0x04, 0x6D, 4), (0x03, 0x6D, 3), (0x06, 0x6D, 6), (0x42, 0x6C, 2), (0x0A, 0x6C, 2), (0x0C, 0x6D, 4)]);
    let bg = ch.of(&[
        [0x00u8; 6],
        [0xFF; 6],
        [0x21; 6],
        [0x1F, 0x0C, 0x17, 0x25, 0x3F, 0x0C],
        [0x3B, 0x17, 0x9F, 0x2C, 0x11, 0x22],
        [0x9C, 0x11, 0x8C, 0x11, 0x00, 0x80],
    ]);
    let mut v = bg[..n].to_vec();
    let p = ch.n(n);
    v[p] = ch.byte();
    check_records_in(ch, &[&[dif, vif][..], &v, &SENTINEL].concat(), VAL | CODING)
}

fn c10_context(ch: &mut Ch) -> Res {
    let (dif, v) = ch.of(&SIG);
    let vib = ch.of(&[
        &[0x13u8][..],
        &[0x16],
        &[0x00],
        &[0x07],
        &[0x93, 0x70],
        &[0x93, 0x7D],
        &[0x93, 0x78],
        &[0x93, 0xF3, 0x7B],
        &[0x96, 0x79],
        &[0xFD, 0x40],
        &[0xFB, 0x00],
        &[0x5B],
    ]);
    check_records_in(ch, &[&[dif][..], vib, v].concat(), VAL)
}

/// Significands in every numeric encoding: (DIF, bytes)
const SIG: [(u8, &[u8]); 28] = [
    (0x01, &[0x00]),
    (0x01, &[0x01]),
    (0x01, &[0x7F]),
    (0x01, &[0x80]),
    (0x01, &[0xFF]),
    (0x01, &[0x0A]),
    (0x02, &[0xE8, 0x03]),
    (0x02, &[0x00, 0x80]),
    (0x02, &[0x9C, 0xFF]),
    (0x03, &[0xFF, 0xFF, 0x7F]),
    (0x03, &[0x00, 0x00, 0x80]),
    (0x04, &[0x00, 0xCA, 0x9A, 0x3B]),
    (0x04, &[0x00, 0x00, 0x00, 0x80]),
    (0x04, &[0xFF, 0xFF, 0xFF, 0x7F]),
    (0x06, &[0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x7F]),
    (0x06, &[0x00, 0x00, 0x00, 0x00, 0x00, 0x80]),
    (0x07, &[0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x7F]),
    (0x07, &[0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x80]),
    (0x07, &[0x01, 0x00, 0x00, 0x00, 0x00, 0x00, 0x20, 0x00]),
    (0x09, &[0x50]),
    (0x0A, &[0x00, 0x10]),
    (0x0C, &[0x99, 0x99, 0x99, 0x99]),
    (0x0E, &[0x01, 0x00, 0x00, 0x00, 0x00, 0x90]),
    (0x0D, &[0xC9, 0x09, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x99]),
    (0x0D, &[0xD2, 0x50, 0x01]),
    (0x0D, &[0xD1, 0x00]),
    (0x0D, &[0xEA, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x7F]),
    (0x0D, &[0xF0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x80]),
];

fn c10_run(ch: &mut Ch, sig: (u8, &[u8]), vib: &[u8]) -> Res {
    let mut d = vec![sig.0];
    d.extend(vib);
    d.extend(sig.1);
    check_records(ch, &d, VAL, false)
}

fn c10_scale(ch: &mut Ch) -> Res {
    let sig = ch.of(&SIG);
    let mut vib = match ch.n(3) {
        0 => vec![ch.n(0x6C) as u8],
        1 => vec![0xFD, ch.of(&[0x00u8, 0x01, 0x03, 0x40, 0x41, 0x44, 0x48, 0x49, 0x4A, 0x4F, 0x50, 0x51, 0x57, 0x5B, 0x5C, 0x5D, 0x5F])],
        _ => vec![0xFB, ch.of(&[0x00u8, 0x01, 0x02, 0x05, 0x06, 0x08, 0x09, 0x0F, 0x10, 0x17, 0x18, 0x1A, 0x21, 0x28, 0x2C, 0x31, 0x74, 0x78, 0x7F])],
    };
    const M: [u8; 16] = [0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7A, 0x7B, 0x7D, 0x30, 0x31, 0x32];
    let n = ch.n(3);
    for _ in 0..n {
        *vib.last_mut().unwrap() |= 0x80;
        let c = if n == 2 && !ch.thorough { ch.of(&[0x70u8, 0x72, 0x77, 0x78, 0x7A, 0x7B, 0x7D]) } else { ch.of(&M) };
        vib.push(c);
    }
    c10_run(ch, sig, &vib)
}

fn c10_lvar(ch: &mut Ch) -> Res {
    let code = 0xC0 + ch.n(0x37) as u8;
    let n = lvar_len(code);
    let mut v = vec![code];
    if ch.flag() {
        v.extend(match ch.n(9) {
            0 => vec![0x00; n],
            1 => vec![0xFF; n],
            2 => vec![0x99; n],
            3 => (0..n).map(|i| if i + 1 == n { 0x80 } else { 0x00 }).collect(),
            4 => (0..n).map(|i| if i + 1 == n { 0x7F } else { 0xFF }).collect(),
            5 => (0..n).map(|i| if i == 0 { 0x10 } else { 0x00 }).collect(),
            6 => (0..n).map(|i| if i + 1 == n { 0x10 } else { 0x00 }).collect(),
            7 => (0..n).map(|i| (((i * 3) % 10) * 16 + (i * 7 + 5) % 10) as u8).collect::<Vec<u8>>(),
            _ => (0..n).map(|i| (i * 37 + 0x81) as u8).collect(),
        });
    } else if n > 0 {
        let bg = ch.of(&[0x00u8, 0x99, 0xFF]);
        v.extend(vec![bg; n]);
        let p = 1 + ch.n(n);
        v[p] = ch.of(&[0x00u8, 0x01, 0x09, 0x10, 0x79, 0x80, 0x90, 0xFE]);
    }
    let vib = ch.of(&[&[0x16u8][..], &[0x10], &[0x17], &[0x93, 0x78], &[0x95, 0x7B], &[0x90, 0xF0, 0x7D]]);
    c10_run(ch, (0x0D, &v), vib)
}

fn c10_digits(ch: &mut Ch) -> Res {
    let dif = ch.of(&[0x02u8, 0x0A]);
    let v = if dif == 0x02 {
        [ch.byte(), ch.byte()]
    } else {
        let (a, b) = (ch.n(100), ch.n(100));
        [(a / 10 * 16 + a % 10) as u8, (b / 10 * 16 + b % 10) as u8]
    };
    let vif = ch.of(&[0x10u8, 0x13, 0x15, 0x16, 0x17, 0x08, 0x0D]);
    let add = ch.of(&[0u8, 0x78, 0x79, 0x7A, 0x7B]);
    let vib = if add == 0 { vec![vif] } else { vec![vif | 0x80, add] };
    c10_run(ch, (dif, &v), &vib)
}

fn c10_chain(ch: &mut Ch) -> Res {
    let sig = SIG[ch.of(&[0usize, 3, 11, 17, 24])];
    let n = 1 + ch.n(ch.tier(4, 5));
    const M: [u8; 13] = [0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7A, 0x7B, 0x7D];
    let mut vib = vec![0x93u8];
    for _ in 0..n {
        vib.push(ch.of(&M) | 0x80);
    }
    vib[n] &= 0x7F;
    c10_run(ch, sig, &vib)
}

fn c10_real(ch: &mut Ch) -> Res {
    let hi = ch.byte();
    let ex = ch.n(2) as u8;
    let m = ch.of(&[[0u8, 0, 0], [1, 0, 0], [0xFF, 0xFF, 0x7F], [0, 0, 0x40], [0xCD, 0xCC, 0x4C], [0x56, 0x34, 0x12]]);
    let v = [m[0], m[1], m[2] | ex << 7, hi];
    let vif = ch.of(&[0x10u8, 0x13, 0x16, 0x17, 0x08, 0x0F, 0x2B, 0x28]);
    let two = ch.of(&[0u8, 0x70, 0x77, 0x7D]);
    let add = ch.of(&[0u8, 0x78, 0x79, 0x7A, 0x7B]);
    let mut vib = vec![vif];
    for c in [two, add] {
        if c != 0 {
            *vib.last_mut().unwrap() |= 0x80;
            vib.push(c);
        }
    }
    c10_run(ch, (0x05, &v), &vib)
}

fn c05_tail(ch: &mut Ch) -> Res {
    let p = gen::tail(ch, 205);
    check_records_in(ch, &p, PART)
}

fn c05_run(ch: &mut Ch) -> Res {
    let p = gen::run(ch, 250);
    check_records(ch, &p, PART, true)
}

fn c10_mixed(ch: &mut Ch) -> Res {
    let sig = SIG[ch.of(&[1usize, 6, 11, 24])];
    let mut vib = ch
        .of(&[
            &[0x13u8][..],
            &[0x2B],
            &[0x5B],
            &[0x6E],
            &[0x7E],
            &[0x7F],
            &[0xFD, 0x48],
            &[0xFD, 0x08],
            &[0xFD, 0xFD, 0x00],
            &[0xFD, 0xFD, 0x78],
            &[0xFB, 0x00],
            &[0xFB, 0x78],
        ])
        .to_vec();
    const M: [&[u8]; 14] =
        [&[0x70], &[0x77], &[0x78], &[0x7B], &[0x7D], &[0x12], &[0x3B], &[0x00], &[0x7C, 0x78], &[0x7C, 0x70], &[0x7C, 0x01], &[0x7F, 0x78], &[0x7F], &[0x7E]];
    let n = ch.n(5);
    for _ in 0..n {
        vib.extend(ch.of(&M));
    }
    let last = vib.len() - 1;
    for b in &mut vib[..last] {
        *b |= 0x80;
    }
    c10_run(ch, sig, &vib)
}

fn c05_unit(ch: &mut Ch) -> Res {
    let d = unit(ch);
    check_records(ch, &d, PART, true)
}

fn c08_unit(ch: &mut Ch) -> Res {
    let d = unit(ch);
    check_records(ch, &d, QTY, true)
}

/// A record with a plain-text unit in this build's layout, and another record.
fn unit(ch: &mut Ch) -> Vec<u8> {
    let len = ch.n(11);
    let mut text = vec![ch.of(b"A \xFC"); len];
    if len > 0 {
        let at = ch.n(len);
        text[at] = ch.byte();
    }
    text.insert(0, len as u8);
    let vife: &[u8] = ch.of(&[&[][..], &[0x00], &[0x74], &[0x3B]]);
    let vif: &[u8] = if vife.is_empty() { &[0x7C] } else { &[0xFC] };
    let (a, b): (&[u8], &[u8]) = if crate::pbe() { (&text, vife) } else { (vife, &text) };
    [&[0x02], vif, a, b, &[0x39, 0x30], &SENTINEL].concat()
}

fn c06_far(ch: &mut Ch) -> Res {
    let mut d = lead(ch);
    d.extend(ch.of::<&[u8]>(&[
        &[0x81, 0x01, 0x13, 0x2F],
        &[0x42, 0x13, 0x01, 0x02],
        &[0xD2, 0xC3, 0x7F, 0x13, 0x01, 0x0F],
        &[0x32, 0x13, 0x00, 0x00],
        &[0x82, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x7F, 0x13, 0x01, 0x80],
        &[0xCD, 0x10, 0x13, 0x02, 0x41, 0x42],
    ]));
    check_records_in(ch, &d, DIB)
}

fn c07_far(ch: &mut Ch) -> Res {
    let mut d = lead(ch);
    d.extend(ch.of::<&[u8]>(&[
        &[0x02, 0x13, 0x17, 0x80],
        &[0x03, 0x13, 0x01, 0x02, 0x83],
        &[0x05, 0x13, 0x00, 0x00, 0x80, 0x3F],
        &[0x07, 0x13, 1, 2, 3, 4, 5, 6, 7, 0x88],
        &[0x0C, 0x13, 0x78, 0x56, 0x34, 0xF2],
        &[0x0D, 0x13, 0x05, b'O', b'L', b'L', b'E', b'H'],
        &[0x0D, 0x13, 0xD2, 0x34, 0x12],
        &[0x0D, 0x13, 0xE3, 0x01, 0x02, 0x83],
    ]));
    check_records_in(ch, &d, VAL | CODING)
}

fn c08_far(ch: &mut Ch) -> Res {
    let mut d = lead(ch);
    d.extend(ch.of::<&[u8]>(&[
        &[0x01, 0x13, 0x05],
        &[0x01, 0x5B, 0x05],
        &[0x01, 0xFD, 0x17, 0x00],
        &[0x01, 0xFD, 0x49, 0xE6],
        &[0x01, 0xFB, 0x1A, 0x99],
        &[0x01, 0x93, 0x3B, 0x01],
        &[0x01, 0xFF, 0x21, 0x00],
        &[0x01, 0x7F, 0x10],
    ]));
    check_records_in(ch, &d, QTY)
}

fn c09_far(ch: &mut Ch) -> Res {
    let mut d = lead(ch);
    d.extend(ch.of::<&[u8]>(&[
        &[0x42, 0x6C, 0xBF, 0x1C],
        &[0x02, 0x6C, 0xFF, 0xFF],
        &[0x04, 0x6D, 0x32, 0x37, 0x1F, 0x15],
        &[0x03, 0x6D, 0x1E, 0x0A, 0x10],
        &[0x06, 0x6D, 0x1E, 0x0A, 0x10, 0x15, 0x1A, 0x00],
        &[0x04, 0x6D, 0x80, 0x00, 0x00, 0x00],
    ]));
    check_records_in(ch, &d, VAL | CODING)
}

fn c10_far(ch: &mut Ch) -> Res {
    let mut d = lead(ch);
    d.extend(ch.of::<&[u8]>(&[
        &[0x02, 0x13, 0x17, 0x80],
        &[0x04, 0x06, 0x10, 0x27, 0x00, 0x00],
        &[0x0C, 0x16, 0x78, 0x56, 0x34, 0xF2],
        &[0x02, 0x93, 0x70, 0x11, 0x01],
        &[0x02, 0x96, 0x7D, 0x11, 0x01],
        &[0x05, 0x2E, 0x00, 0x00, 0x80, 0x3F],
    ]));
    check_records_in(ch, &d, VAL)
}

/// What lies before a record deep in a telegram.
fn lead(ch: &mut Ch) -> Vec<u8> {
    match ch.n(3) {
        0 => vec![0x2F; ch.n(196)],
        1 => [0x01, 0x13, 0x05].repeat(ch.n(66)),
        _ => {
            let n = ch.n(192);
            let mut d = vec![0x0D, 0x78, n as u8];
            d.extend(vec![b'x'; n]);
            d
        }
    }
}
