//! Reference model of the decoder, written from the M-Bus specification and the documented output
//! contract. Deliberately slow and literal; shares no code with the implementation.

use crate::fw::hex;
use crate::vif::{self, Vi};
use serde_json::{json, Map, Value};

// ------------------------------------------------------------------------------------ numbers

/// Signed decimal integer, digits most significant first without leading zeros ("0" for zero).
#[derive(Clone, Debug, PartialEq)]
pub struct Dec {
    pub neg: bool,
    pub digits: String,
}

impl Dec {
    pub fn new(neg: bool, digits: &str) -> Dec {
        let d = digits.trim_start_matches('0');
        if d.is_empty() {
            Dec { neg: false, digits: "0".into() }
        } else {
            Dec { neg, digits: d.into() }
        }
    }
    /// Little-endian two's complement.
    pub fn from_le(bytes: &[u8]) -> Dec {
        if bytes.is_empty() {
            return Dec::new(false, "0");
        }
        let neg = bytes[bytes.len() - 1] >= 0x80;
        let mut mag = bytes.to_vec();
        if neg {
            for b in &mut mag {
                *b = !*b;
            }
            for b in &mut mag {
                let (s, c) = b.overflowing_add(1);
                *b = s;
                if !c {
                    break;
                }
            }
        }
        if mag.len() <= 15 {
            let mut v: u128 = 0;
            for b in mag.iter().rev() {
                v = v * 256 + u128::from(*b);
            }
            return Dec::new(neg, &v.to_string());
        }
        // long division by ten
        let mut digits = Vec::new();
        while mag.iter().any(|b| *b != 0) {
            let mut rem = 0u32;
            for b in mag.iter_mut().rev() {
                let cur = rem * 256 + u32::from(*b);
                *b = (cur / 10) as u8;
                rem = cur % 10;
            }
            digits.push(char::from(b'0' + rem as u8));
        }
        Dec::new(neg, &digits.iter().rev().collect::<String>())
    }
    /// times ten to the `scale`, plus a sum of powers of ten
    pub fn scaled(&self, scale: i32, offsets: &[i32]) -> String {
        let min = offsets.iter().copied().chain([scale]).min().unwrap();
        let mut acc = Dec::new(self.neg, &format!("{}{}", self.digits, "0".repeat((scale - min) as usize)));
        for o in offsets {
            acc = acc.add(&Dec::new(false, &format!("1{}", "0".repeat((o - min) as usize))));
        }
        // place the decimal point
        if acc.digits == "0" {
            return "0".into();
        }
        let body = if min >= 0 {
            format!("{}{}", acc.digits, "0".repeat(min as usize))
        } else {
            let places = (-min) as usize;
            let padded = format!("{}{}", "0".repeat((places + 1).saturating_sub(acc.digits.len())), acc.digits);
            let (i, f) = padded.split_at(padded.len() - places);
            let f = f.trim_end_matches('0');
            if f.is_empty() {
                i.to_string()
            } else {
                format!("{i}.{f}")
            }
        };
        if acc.neg {
            format!("-{body}")
        } else {
            body
        }
    }
    fn add(&self, o: &Dec) -> Dec {
        let n = self.digits.len().max(o.digits.len()) + 1;
        let get = |d: &Dec| -> Vec<i32> {
            let mut v: Vec<i32> = d.digits.bytes().rev().map(|b| i32::from(b - b'0')).collect();
            v.resize(n, 0);
            if d.neg {
                for x in &mut v {
                    *x = -*x;
                }
            }
            v
        };
        let (a, b) = (get(self), get(o));
        let mut s: Vec<i32> = a.iter().zip(&b).map(|(x, y)| x + y).collect();
        let neg = s.iter().rev().find(|x| **x != 0).is_some_and(|x| *x < 0);
        // the leading nonzero column decides the sign only after normalising; redo with that sign
        let norm = |s: &mut Vec<i32>| -> bool {
            let mut c = 0;
            for x in s.iter_mut() {
                let t = *x + c;
                *x = t.rem_euclid(10);
                c = (t - *x) / 10;
            }
            c < 0
        };
        let mut t = s.clone();
        if neg {
            for x in &mut t {
                *x = -*x;
            }
        }
        let mut flipped = neg;
        if norm(&mut t) {
            for x in &mut s {
                *x = -*x;
            }
            t = s;
            if neg {
                for x in &mut t {
                    *x = -*x;
                }
            }
            flipped = !neg;
            let bad = norm(&mut t);
            assert!(!bad);
        }
        Dec::new(flipped, &t.iter().rev().map(|d| char::from(b'0' + *d as u8)).collect::<String>())
    }
}

// ------------------------------------------------------------------------------------ records

#[derive(Clone, Debug, PartialEq)]
pub enum Comp {
    Single(u32),
    Month(u8),
    Every,
    Invalid,
}

#[derive(Clone, Debug, PartialEq)]
pub enum MVal {
    None,
    Mfr,
    Num(Dec),
    Real(f32),
    Text(String),
    /// kind, components in output order
    Time(&'static str, Vec<(&'static str, Comp)>),
}

#[derive(Clone, Debug)]
pub struct MRec {
    pub start: usize,
    pub data_start: usize,
    pub end: usize,
    pub function: String,
    pub storage: u64,
    pub tariff: u64,
    pub subunit: u64,
    pub vi: Option<Vi>,
    pub coding: &'static str,
    pub val: MVal,
    pub dif_len: usize,
    pub vifs: Vec<u8>,
    /// position and length of the plain-text unit, if any
    pub plain: Option<(usize, usize)>,
}

#[derive(Clone, Copy, Default)]
pub struct Opt {
    /// plain-text unit precedes the VIFE chain
    pub pbe: bool,
    /// BCD most significant byte first
    pub msb: bool,
    /// known finding: the unit string of VIF 0x7C is not consumed in the standard layout
    pub skip_7c: bool,
}

/// Options of this build as it is documented to behave.
pub fn opt() -> Opt {
    Opt { pbe: crate::pbe(), ..Opt::default() }
}

#[derive(Clone, Debug, Default)]
pub struct MRecs {
    pub recs: Vec<MRec>,
    pub error: Option<usize>,
    /// (offset, skipped byte)
    pub skipped: Vec<(usize, u8)>,
    /// some record uses VIF 0x7C in the standard layout (known finding)
    pub has_7c: bool,
    /// some value information exceeds the decoder's documented capacity
    pub overflow: bool,
}

const FUNCTIONS: [&str; 4] = ["Instantaneous value", "Maximum value", "Minimum value", "Value during error state"];

pub fn records(data: &[u8], o: Opt) -> MRecs {
    let mut out = MRecs::default();
    let mut p = 0;
    while p < data.len() {
        let dif = data[p];
        let special = |coding: &'static str, end: usize, val: MVal| MRec {
            start: p,
            data_start: p + 1,
            end,
            function: coding.to_string(),
            storage: 0,
            tariff: 0,
            subunit: 0,
            vi: None,
            coding,
            val,
            dif_len: 1,
            vifs: vec![],
            plain: None,
        };
        match dif {
            0x0F => {
                out.recs.push(special("Manufacturer specific", data.len(), MVal::Mfr));
                p = data.len();
            }
            0x1F => {
                out.recs.push(special("More records follow", data.len(), MVal::Mfr));
                p = data.len();
            }
            0x7F => {
                // a marker, not a value; the decoder shows the storage bit of the byte
                out.recs.push(MRec { storage: 1, ..special("Global readout request", p + 1, MVal::None) });
                p += 1;
            }
            _ if dif & 0x0F == 0x0F => {
                out.skipped.push((p, dif));
                p += 1;
            }
            _ => match record(data, p, o, &mut out) {
                Some(r) => {
                    p = r.end;
                    out.recs.push(r);
                }
                None => {
                    out.error = Some(p);
                    break;
                }
            },
        }
    }
    out
}

fn record(data: &[u8], start: usize, o: Opt, out: &mut MRecs) -> Option<MRec> {
    let mut p = start;
    let dif = data[p];
    p += 1;
    let mut difes = Vec::new();
    let mut more = dif & 0x80 != 0;
    while more {
        let b = *data.get(p)?;
        p += 1;
        difes.push(b);
        if difes.len() > 10 {
            return None;
        }
        more = b & 0x80 != 0;
    }
    let mut storage = u64::from(dif >> 6 & 1);
    let (mut tariff, mut subunit) = (0u64, 0u64);
    for (i, b) in difes.iter().enumerate() {
        storage += u64::from(b & 0x0F) << (1 + 4 * i);
        tariff += u64::from(b >> 4 & 3) << (2 * i);
        subunit += u64::from(b >> 6 & 1) << i;
    }
    let dif_len = p - start;

    // value information block
    let vif_byte = *data.get(p)?;
    p += 1;
    let mut vifs = vec![vif_byte];
    let mut plain = None;
    let is_plain = vif_byte & 0x7F == 0x7C;
    let take_plain = |p: &mut usize| -> Option<(usize, usize)> {
        let n = usize::from(*data.get(*p)?);
        if n > 9 || *p + 1 + n > data.len() {
            return None;
        }
        let at = (*p, 1 + n);
        *p += 1 + n;
        Some(at)
    };
    if is_plain && o.pbe {
        plain = Some(take_plain(&mut p)?);
    }
    let mut more = vif_byte & 0x80 != 0;
    while more {
        let b = *data.get(p)?;
        p += 1;
        vifs.push(b);
        more = b & 0x80 != 0;
        if more && vifs.len() > 10 {
            return None;
        }
    }
    if is_plain && !o.pbe {
        if vif_byte == 0x7C {
            out.has_7c = true;
        }
        if vif_byte != 0x7C || !o.skip_7c {
            plain = Some(take_plain(&mut p)?);
        }
    }
    let vi = vif::chain(vif_byte, &vifs[1..])?;
    if vi.overflow {
        out.overflow = true;
        return None;
    }

    // data
    let date = vi.labels.first() == Some(&"Time point (date)");
    let datetime = vi.labels.first() == Some(&"Time point (date and time)");
    let data_start = p;
    let rest = &data[p..];
    let int = |n: usize| -> Option<(usize, MVal)> { Some((n, MVal::Num(Dec::from_le(rest.get(..n)?)))) };
    let bcd = |n: usize| -> Option<(usize, MVal)> { Some((n, MVal::Num(bcd_value(rest.get(..n)?, false, o.msb)?))) };
    let (coding, (len, val)) = match dif & 0x0F {
        0 => ("No data", (0, MVal::None)),
        1 => ("8-bit integer", int(1)?),
        2 if date => ("Date (type G)", (2, type_g(rest.get(..2)?))),
        2 => ("16-bit integer", int(2)?),
        3 if datetime => ("Time (type J)", (3, type_j(rest.get(..3)?))),
        3 => ("24-bit integer", int(3)?),
        4 if datetime => ("Date and time (type F)", (4, type_f(rest.get(..4)?))),
        4 => ("32-bit integer", int(4)?),
        5 => ("32-bit real", (4, MVal::Real(f32::from_le_bytes(rest.get(..4)?.try_into().unwrap())))),
        6 if datetime => ("Date and time (type I)", (6, type_i(rest.get(..6)?))),
        6 => ("48-bit integer", int(6)?),
        7 => ("64-bit integer", int(8)?),
        8 => ("Selection for readout", (0, MVal::None)),
        9 => ("2-digit BCD", bcd(1)?),
        0xA => ("4-digit BCD", bcd(2)?),
        0xB => ("6-digit BCD", bcd(3)?),
        0xC => ("8-digit BCD", bcd(4)?),
        0xE => ("12-digit BCD", bcd(6)?),
        _ => ("Variable length", lvar(rest, o.msb)?),
    };
    Some(MRec {
        start,
        data_start,
        end: data_start + len,
        function: FUNCTIONS[usize::from(dif >> 4 & 3)].to_string(),
        storage,
        tariff,
        subunit,
        vi: Some(vi),
        coding,
        val,
        dif_len,
        vifs,
        plain,
    })
}

fn bcd_value(bytes: &[u8], neg: bool, msb: bool) -> Option<Dec> {
    let mut s = String::new();
    let order: Vec<u8> = if msb { bytes.to_vec() } else { bytes.iter().rev().copied().collect() };
    for b in order {
        for d in [b >> 4, b & 15] {
            if d > 9 {
                return None;
            }
            s.push(char::from(b'0' + d));
        }
    }
    Some(Dec::new(neg, &s))
}

pub fn text(bytes: &[u8]) -> String {
    let rev: Vec<u8> = bytes.iter().rev().copied().collect();
    match String::from_utf8(rev) {
        Ok(s) => s,
        Err(e) => e.into_bytes().iter().map(|b| char::from(*b)).collect(),
    }
}

fn lvar(rest: &[u8], msb: bool) -> Option<(usize, MVal)> {
    let l = *rest.first()?;
    let n = usize::from(l & 0x0F);
    let body = |n: usize| rest.get(1..1 + n);
    Some(match l {
        0x00..=0xBF => (1 + usize::from(l), MVal::Text(text(body(usize::from(l))?))),
        0xC0..=0xC9 => (1 + n, MVal::Num(bcd_value(body(n)?, false, msb)?)),
        0xD0..=0xD9 => (1 + n, MVal::Num(bcd_value(body(n)?, true, msb)?)),
        0xE0..=0xEF => (1 + n, MVal::Num(Dec::from_le(body(n)?))),
        0xF0..=0xF4 => (1 + 4 * (n + 4), MVal::Num(Dec::from_le(body(4 * (n + 4))?))),
        0xF5 => (49, MVal::Num(Dec::from_le(body(48)?))),
        0xF6 => (65, MVal::Num(Dec::from_le(body(64)?))),
        _ => return None,
    })
}

fn day(b: u8) -> Comp {
    match b & 0x1F {
        0 => Comp::Every,
        d => Comp::Single(u32::from(d)),
    }
}
fn month(b: u8) -> Comp {
    match b & 0x0F {
        15 => Comp::Every,
        m @ 1..=12 => Comp::Month(m),
        _ => Comp::Invalid,
    }
}
fn year(lo: u8, hi: u8) -> Comp {
    match u32::from(lo >> 5) + u32::from(hi >> 4) * 8 {
        127 => Comp::Every,
        y => Comp::Single(y),
    }
}
fn sixty(b: u8) -> Comp {
    match b & 0x3F {
        63 => Comp::Every,
        m @ 0..=59 => Comp::Single(u32::from(m)),
        _ => Comp::Invalid,
    }
}
fn hour(b: u8) -> Comp {
    match b & 0x1F {
        31 => Comp::Every,
        h @ 0..=23 => Comp::Single(u32::from(h)),
        _ => Comp::Invalid,
    }
}
fn type_g(d: &[u8]) -> MVal {
    MVal::Time("date", vec![("day", day(d[0])), ("month", month(d[1])), ("year", year(d[0], d[1]))])
}
fn type_f(d: &[u8]) -> MVal {
    MVal::Time("datetime", vec![("day", day(d[2])), ("month", month(d[3])), ("year", year(d[2], d[3])), ("hour", hour(d[1])), ("minute", sixty(d[0]))])
}
fn type_i(d: &[u8]) -> MVal {
    MVal::Time(
        "datetime",
        vec![("day", day(d[3])), ("month", month(d[4])), ("year", year(d[3], d[4])), ("hour", hour(d[2])), ("minute", sixty(d[1])), ("second", sixty(d[0]))],
    )
}
fn type_j(d: &[u8]) -> MVal {
    MVal::Time("time", vec![("hour", hour(d[2])), ("minute", sixty(d[1])), ("second", sixty(d[0]))])
}

const MONTHS: [&str; 12] = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];

impl MRec {
    pub fn real_value(&self) -> Option<f64> {
        let MVal::Real(f) = self.val else { return None };
        let vi = self.vi.as_ref().unwrap();
        let mut v = f64::from(f);
        // one rounding per step, like exact decimal scaling of the same value
        if vi.scale >= 0 {
            v *= 10f64.powi(vi.scale);
        } else {
            v /= 10f64.powi(-vi.scale);
        }
        for o in &vi.offsets {
            v += if *o >= 0 { 10f64.powi(*o) } else { 1.0 / 10f64.powi(-*o) };
        }
        Some(v)
    }
    pub fn kind(&self) -> &'static str {
        match &self.val {
            MVal::None => "none",
            MVal::Mfr => "manufacturer_specific",
            MVal::Num(_) => "decimal",
            MVal::Real(_) => "float",
            MVal::Text(_) => "text",
            MVal::Time(k, _) => k,
        }
    }
    pub fn value(&self) -> Option<Value> {
        Some(match &self.val {
            MVal::None | MVal::Mfr => return None,
            MVal::Num(d) => {
                let vi = self.vi.as_ref().unwrap();
                json!(d.scaled(vi.scale, &vi.offsets))
            }
            MVal::Real(_) => {
                let v = self.real_value().unwrap();
                if v.is_nan() {
                    json!("nan")
                } else if v.is_infinite() {
                    json!(if v > 0.0 { "positive_infinity" } else { "negative_infinity" })
                } else {
                    json!(v)
                }
            }
            MVal::Text(t) => json!(t),
            MVal::Time(kind, comps) => {
                let num = |name: &str| -> Option<Option<u32>> {
                    comps.iter().find(|c| c.0 == name).map(|c| match c.1 {
                        Comp::Single(v) => Some(v),
                        Comp::Month(m) => Some(u32::from(m)),
                        _ => None,
                    })
                };
                let complete = comps.iter().all(|c| matches!(c.1, Comp::Single(_) | Comp::Month(_)));
                if complete {
                    let g = |n: &str| num(n).flatten().unwrap_or(0);
                    let date = format!("{:04}-{:02}-{:02}", g("year"), g("month"), g("day"));
                    let time = format!("{:02}:{:02}:{:02}", g("hour"), g("minute"), g("second"));
                    match *kind {
                        "date" => json!(date),
                        "time" => json!(time),
                        _ => json!(format!("{date}T{time}")),
                    }
                } else {
                    let mut m = Map::new();
                    for (n, c) in comps {
                        m.insert(
                            n.to_string(),
                            match c {
                                Comp::Single(v) => json!(v),
                                Comp::Month(v) => json!(MONTHS[usize::from(*v) - 1]),
                                Comp::Every => json!("every"),
                                Comp::Invalid => json!("invalid"),
                            },
                        );
                    }
                    Value::Object(m)
                }
            }
        })
    }
    pub fn json(&self, index: usize, data: &[u8]) -> Value {
        let mut m = Map::new();
        m.insert("index".into(), json!(index));
        m.insert("function".into(), json!(self.function));
        m.insert("storage_number".into(), json!(self.storage));
        m.insert("tariff".into(), json!(self.tariff));
        m.insert("subunit".into(), json!(self.subunit));
        m.insert("quantities".into(), json!(self.vi.as_ref().map(|v| v.labels.clone()).unwrap_or_default()));
        let mut v = Map::new();
        v.insert("kind".into(), json!(self.kind()));
        if let Some(x) = self.value() {
            v.insert("value".into(), x);
        }
        m.insert("value".into(), Value::Object(v));
        if let Some(u) = self.vi.as_ref().and_then(|v| vif::unit_text(&v.units)) {
            m.insert("unit".into(), json!(u));
        }
        m.insert("data_coding".into(), json!(self.coding));
        m.insert("header_hex".into(), json!(spaced(&data[self.start..self.data_start])));
        m.insert("data_hex".into(), json!(spaced(&data[self.data_start..self.end])));
        Value::Object(m)
    }
}

pub fn spaced(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02X}")).collect::<Vec<_>>().join(" ")
}

/// JSON equality with a tolerance for floating-point numbers.
pub fn jeq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            if x == y {
                return true;
            }
            if x.is_f64() || y.is_f64() {
                let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
                return x == y || (x - y).abs() <= 1e-12 * x.abs().max(y.abs());
            }
            false
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| jeq(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).is_some_and(|q| jeq(p, q))),
        _ => a == b,
    }
}

// ------------------------------------------------------------------------------------ frames

pub fn crc(data: &[u8]) -> u16 {
    let mut r = 0u16;
    for b in data {
        for i in (0..8).rev() {
            let bit = (b >> i & 1) != 0;
            let top = r & 0x8000 != 0;
            r <<= 1;
            if bit != top {
                r ^= 0x3D65;
            }
        }
    }
    !r
}

pub fn checksum(b: &[u8]) -> u8 {
    b.iter().fold(0u8, |a, x| a.wrapping_add(*x))
}

pub fn function_name(c: u8) -> Option<String> {
    Some(match c {
        0x40 => "SND_NKE (PRM: false)".into(),
        0x44 => "SND_NR".into(),
        0x53 | 0x73 => format!("SND_UD (FCB: {})", c == 0x73),
        0x5A | 0x7A => format!("REQ_UD1 (FCB: {})", c == 0x7A),
        0x5B | 0x7B => format!("REQ_UD2 (FCB: {})", c == 0x7B),
        0x08 | 0x18 | 0x28 | 0x38 => {
            format!("RSP_UD (ACD: {}, DFC: {})", c & 0x20 != 0, c & 0x10 != 0)
        }
        _ => return None,
    })
}

pub fn address_name(a: u8) -> String {
    match a {
        0 => "Uninitalized".into(),
        253 => "Secondary".into(),
        254 => "Broadcast (Reply Required: true)".into(),
        255 => "Broadcast (Reply Required: false)".into(),
        n => format!("Primary ({n})"),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Wired {
    Ack,
    Short { c: u8, a: u8 },
    Long { c: u8, a: u8, payload: Vec<u8> },
    Control { c: u8, a: u8, payload: Vec<u8> },
}

pub fn wired(d: &[u8]) -> Option<Wired> {
    match d {
        [0xE5] => Some(Wired::Ack),
        [0x10, c, a, cs, 0x16] => (checksum(&[*c, *a]) == *cs && function_name(*c).is_some()).then_some(Wired::Short { c: *c, a: *a }),
        [0x68, l1, l2, 0x68, rest @ ..] => {
            let l = usize::from(*l1);
            if l1 != l2 || l < 2 || rest.len() != l + 2 || rest[l] != checksum(&rest[..l]) || rest[l + 1] != 0x16 {
                return None;
            }
            let (c, a, payload) = (rest[0], rest[1], rest[2..l].to_vec());
            function_name(c)?;
            Some(if c == 0x53 { Wired::Control { c, a, payload } } else { Wired::Long { c, a, payload } })
        }
        _ => None,
    }
}

pub fn manufacturer(id: u16) -> Option<String> {
    let l = [id >> 10, id >> 5 & 31, id & 31];
    l.iter().all(|x| (1..=26).contains(x)).then(|| l.iter().map(|x| char::from(b'@' + *x as u8)).collect())
}

pub fn bcd_id(b: &[u8]) -> Option<u32> {
    let mut v = 0u32;
    for x in b.iter().rev() {
        if x >> 4 > 9 || x & 15 > 9 {
            return None;
        }
        v = v * 100 + u32::from(x >> 4) * 10 + u32::from(x & 15);
    }
    Some(v)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Wireless {
    pub c: u8,
    pub mfr: u16,
    pub id: u32,
    pub version: u8,
    pub device: u8,
    pub payload: Vec<u8>,
    /// start of the verified trailing CRC
    pub crc_start: Option<usize>,
}

pub fn trailing_crc(d: &[u8]) -> Option<usize> {
    if d.len() < 12 {
        return None;
    }
    let n = d.len() - 2;
    (crc(&d[..n]).to_be_bytes() == d[n..]).then_some(n)
}

pub fn wireless(d: &[u8]) -> Option<Wireless> {
    if d.len() < 11 || usize::from(d[0]) + 1 != d.len() {
        return None;
    }
    let mfr = u16::from_le_bytes([d[2], d[3]]);
    manufacturer(mfr)?;
    let id = bcd_id(&d[4..8])?;
    let crc_start = trailing_crc(d);
    Some(Wireless {
        c: d[1],
        mfr,
        id,
        version: d[8],
        device: if (0xA0..=0xAF).contains(&d[10]) { d[9] >> 4 } else { d[9] },
        payload: d[10..crc_start.unwrap_or(d.len())].to_vec(),
        crc_start,
    })
}

/// Removes the CRCs of a Format A telegram. None: the bytes are not one.
///
/// Blocks are 10 bytes, then up to 16, each followed by its CRC; a receiver also meets telegrams
/// whose later blocks are shorter than 16 or already stripped, which the L-field then tells.
pub fn strip_a(d: &[u8]) -> Option<Vec<u8>> {
    if d.len() < 12 || d.len() > 512 || crc(&d[..10]).to_be_bytes() != d[10..12] {
        return None;
    }
    let mut out = d[..10].to_vec();
    let mut p = 12;
    let mut all = true;
    while p < d.len() {
        let rem = d.len() - p;
        let mut found = None;
        if rem >= 3 {
            for n in (1..=16.min(rem - 2)).rev() {
                if crc(&d[p..p + n]).to_be_bytes() == d[p + n..p + n + 2] {
                    found = Some(n);
                    break;
                }
            }
        }
        match found {
            Some(n) => {
                out.extend(&d[p..p + n]);
                p += n + 2;
            }
            None => {
                all = false;
                out.extend(&d[p..]);
                p = d.len();
            }
        }
    }
    let l = usize::from(d[0]);
    if l != out.len() - 1 && !(all && l == d.len() - 1) {
        return None;
    }
    out[0] = (out.len() - 1) as u8;
    Some(out)
}

pub fn device_name(c: u8) -> String {
    match c {
        0x00 => "Other",
        0x01 => "Oil Meter",
        0x02 => "Electricity Meter",
        0x03 => "Gas Meter",
        0x04 => "Heat Meter (Return)",
        0x05 => "Steam Meter",
        0x06 => "Warm Water Meter (30-90°C)",
        0x07 => "Water Meter",
        0x08 => "Heat Cost Allocator",
        0x09 => "Compressed Air",
        0x0A => "Cooling Meter (Return)",
        0x0B => "Cooling Meter (Flow)",
        0x0C => "Heat Meter (Flow)",
        0x0D => "Combined Heat/Cooling Meter",
        0x0E => "Bus/System Component",
        0x0F => "Unknown Device",
        0x10 => "Irrigation Water Meter",
        0x11 => "Water Data Logger",
        0x12 => "Gas Data Logger",
        0x13 => "Gas Converter",
        0x14 => "Calorific Value",
        0x15 => "Hot Water Meter (≥90°C)",
        0x16 => "Cold Water Meter",
        0x17 => "Dual Register Water Meter",
        0x18 => "Pressure Meter",
        0x19 => "A/D Converter",
        0x1A => "Smoke Detector",
        0x1B => "Room Sensor",
        0x1C => "Gas Detector",
        0x1D..=0x1F => return format!("Reserved Sensor (0x{c:02X})"),
        0x20 => "Breaker (Electricity)",
        0x21 => "Valve (Gas/Water)",
        0x22..=0x24 => return format!("Reserved Switch (0x{c:02X})"),
        0x25 => "Customer Unit (Display)",
        0x26..=0x27 => return format!("Reserved Customer Unit (0x{c:02X})"),
        0x28 => "Waste Water Meter",
        0x29 => "Garbage",
        0x2A => "Reserved (CO₂)",
        0x2B..=0x2F => return format!("Reserved Environmental (0x{c:02X})"),
        0x30 => "Service Tool",
        0x31 => "Communication Controller (Gateway)",
        0x32 => "Unidirectional Repeater",
        0x33 => "Bidirectional Repeater",
        0x34..=0x35 | 0x39..=0x3F => return format!("Reserved System (0x{c:02X})"),
        0x36 => "Radio Converter (System Side)",
        0x37 => "Radio Converter (Meter Side)",
        0x38 => "Bus Converter (Meter Side)",
        0x40..=0xFE => return format!("Reserved (0x{c:02X})"),
        0xFF => "Wildcard",
    }
    .to_string()
}

pub fn mode_name(m: u8) -> String {
    match m {
        0 => "No encryption used",
        1 => "Manufacturer specific usage",
        2 => "DES; IV = 0 (deprecated)",
        3 => "DES; IV ≠ 0 (deprecated)",
        4 => "Specific usage (Bibliographical Entry [6])",
        5 => "AES-CBC-128; IV ≠ 0",
        6 | 11 | 12 | 14 => "Reserved for future use",
        7 => "AES-CBC-128; IV = 0",
        8 => "AES-CTR-128; CMAC",
        9 => "AES-GCM-128",
        10 => "AES-CCM-128",
        13 => "Specific usage (Bibliographical Entry [8])",
        15 => "Specific usage (Bibliographical Entry [7])",
        _ => return format!("Reserved for future use (mode {m})"),
    }
    .to_string()
}

pub fn status_name(s: u8) -> String {
    let names = [
        "Counter binary signed",
        "Counter fixed date",
        "Power low",
        "Permanent error",
        "Temporary error",
        "Manufacturer specific 1",
        "Manufacturer specific 2",
        "Manufacturer specific 3",
    ];
    let v: Vec<&str> = (0..8).filter(|i| s >> i & 1 != 0).map(|i| names[i]).collect();
    if v.is_empty() {
        "No Error(s)".into()
    } else {
        v.join(", ")
    }
}

// ------------------------------------------------------------------------------- application layer

#[derive(Clone, Debug, PartialEq)]
pub struct Ell {
    pub cc: u8,
    pub acc: u8,
    pub receiver: Option<(u16, [u8; 6])>,
    pub session: Option<([u8; 4], u16)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tpl {
    pub acc: u8,
    pub status: u8,
    pub cfg: u16,
}
impl Tpl {
    pub fn mode(&self) -> u8 {
        (self.cfg >> 8 & 0x1F) as u8
    }
    /// Number of encrypted blocks; 0: not stated.
    pub fn blocks(&self) -> usize {
        (self.cfg >> 4 & 0xF) as usize
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum App {
    Reset,
    Fixed {
        id: u32,
        acc: u8,
        status: u8,
        unit: u16,
    },
    Long {
        ell: Option<Ell>,
        id: u32,
        mfr: u16,
        version: u8,
        device: u8,
        tpl: Tpl,
        msb: bool,
        off: usize,
    },
    Short {
        ell: Option<Ell>,
        tpl: Tpl,
        off: usize,
    },
    /// extended link layer with its own encryption; nothing is known behind it
    EllCrypt {
        ell: Ell,
        off: usize,
    },
    NoHeader {
        ell: Option<Ell>,
        off: usize,
    },
}

/// None: unsupported or incomplete application data.
pub fn app(p: &[u8]) -> Option<App> {
    let tpl = |o: usize| -> Option<Tpl> {
        let b = p.get(o..o + 4)?;
        Some(Tpl { acc: b[0], status: b[1], cfg: u16::from_le_bytes([b[2], b[3]]) })
    };
    match *p.first()? {
        0x50 => p.get(1).map(|_| App::Reset),
        ci @ (0x72 | 0x76) => {
            let t = tpl(9)?;
            let mut idb = p[1..5].to_vec();
            if ci == 0x76 {
                idb.reverse();
            }
            Some(App::Long {
                ell: None,
                id: bcd_id(&idb)?,
                mfr: u16::from_le_bytes([p[5], p[6]]),
                version: p[7],
                device: p[8],
                tpl: t,
                msb: ci == 0x76,
                off: 13,
            })
        }
        0x73 | 0x77 => {
            let b = p.get(1..17)?;
            bcd_id(&b[8..12])?;
            bcd_id(&b[12..16])?;
            Some(App::Fixed { id: bcd_id(&b[..4])?, acc: b[4], status: b[5], unit: u16::from_be_bytes([b[6], b[7]]) })
        }
        0x78 => Some(App::NoHeader { ell: None, off: 1 }),
        0xA0 => {
            // one more configuration byte directly after the CI
            Some(App::Short { ell: None, tpl: tpl(2)?, off: 6 })
        }
        0x7A | 0xA1..=0xAF => Some(App::Short { ell: None, tpl: tpl(1)?, off: 5 }),
        0x8C => {
            let e = Ell { cc: *p.get(1)?, acc: *p.get(2)?, receiver: None, session: None };
            if matches!(p.get(3)?, 0x8C..=0x8E) {
                return None;
            }
            match app(&p[3..])? {
                App::Long { id, mfr, version, device, tpl, msb, off, .. } => Some(App::Long { ell: Some(e), id, mfr, version, device, tpl, msb, off: off + 3 }),
                App::Short { tpl, off, .. } => Some(App::Short { ell: Some(e), tpl, off: off + 3 }),
                App::NoHeader { off, .. } => Some(App::NoHeader { ell: Some(e), off: off + 3 }),
                _ => None,
            }
        }
        0x8D => {
            let b = p.get(1..9)?;
            Some(App::EllCrypt {
                ell: Ell { cc: b[0], acc: b[1], receiver: None, session: Some((b[2..6].try_into().unwrap(), u16::from_le_bytes([b[6], b[7]]))) },
                off: 9,
            })
        }
        0x8E => {
            let b = p.get(1..17)?;
            Some(App::EllCrypt {
                ell: Ell {
                    cc: b[0],
                    acc: b[1],
                    receiver: Some((u16::from_le_bytes([b[2], b[3]]), b[4..10].try_into().unwrap())),
                    session: Some((b[10..14].try_into().unwrap(), u16::from_le_bytes([b[14], b[15]]))),
                },
                off: 17,
            })
        }
        _ => None,
    }
}

// ------------------------------------------------------------------------------------ AES-128-CBC

pub mod aes {
    fn xt(b: u8) -> u8 {
        (b << 1) ^ (if b & 0x80 != 0 { 0x1b } else { 0 })
    }
    pub fn mul(mut a: u8, mut b: u8) -> u8 {
        let mut r = 0;
        while b != 0 {
            if b & 1 != 0 {
                r ^= a;
            }
            a = xt(a);
            b >>= 1;
        }
        r
    }
    pub struct Tables {
        s: [u8; 256],
        inv: [u8; 256],
    }
    pub fn tables() -> &'static Tables {
        static T: std::sync::OnceLock<Tables> = std::sync::OnceLock::new();
        T.get_or_init(|| {
            let mut t = Tables { s: [0; 256], inv: [0; 256] };
            for x in 0..=255u8 {
                let mut i = 0;
                if x != 0 {
                    for y in 1..=255u8 {
                        if mul(x, y) == 1 {
                            i = y;
                        }
                    }
                }
                let v = i ^ i.rotate_left(1) ^ i.rotate_left(2) ^ i.rotate_left(3) ^ i.rotate_left(4) ^ 0x63;
                t.s[usize::from(x)] = v;
                t.inv[usize::from(v)] = x;
            }
            t
        })
    }
    fn schedule(key: &[u8; 16]) -> [[u8; 16]; 11] {
        let s = &tables().s;
        let mut w = [[0u8; 16]; 11];
        w[0] = *key;
        let mut rc = 1u8;
        for r in 1..11 {
            let p = w[r - 1];
            let t = [s[usize::from(p[13])] ^ rc, s[usize::from(p[14])], s[usize::from(p[15])], s[usize::from(p[12])]];
            for i in 0..4 {
                w[r][i] = p[i] ^ t[i];
            }
            for i in 4..16 {
                w[r][i] = p[i] ^ w[r][i - 4];
            }
            rc = xt(rc);
        }
        w
    }
    pub fn encrypt_block(key: &[u8; 16], b: &mut [u8; 16]) {
        let (s, w) = (&tables().s, schedule(key));
        let ark = |b: &mut [u8; 16], k: &[u8; 16]| (0..16).for_each(|i| b[i] ^= k[i]);
        ark(b, &w[0]);
        for r in 1..11 {
            let mut n = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    n[c * 4 + row] = s[usize::from(b[((c + row) % 4) * 4 + row])];
                }
            }
            if r != 10 {
                for c in 0..4 {
                    let a: [u8; 4] = n[c * 4..c * 4 + 4].try_into().unwrap();
                    for i in 0..4 {
                        n[c * 4 + i] = mul(a[i], 2) ^ mul(a[(i + 1) % 4], 3) ^ a[(i + 2) % 4] ^ a[(i + 3) % 4];
                    }
                }
            }
            ark(&mut n, &w[r]);
            *b = n;
        }
    }
    pub fn decrypt_block(key: &[u8; 16], b: &mut [u8; 16]) {
        let (inv, w) = (&tables().inv, schedule(key));
        for r in (1..11).rev() {
            for i in 0..16 {
                b[i] ^= w[r][i];
            }
            if r != 10 {
                for c in 0..4 {
                    let a: [u8; 4] = b[c * 4..c * 4 + 4].try_into().unwrap();
                    for i in 0..4 {
                        b[c * 4 + i] = mul(a[i], 14) ^ mul(a[(i + 1) % 4], 11) ^ mul(a[(i + 2) % 4], 13) ^ mul(a[(i + 3) % 4], 9);
                    }
                }
            }
            let mut n = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    n[((c + row) % 4) * 4 + row] = inv[usize::from(b[c * 4 + row])];
                }
            }
            *b = n;
        }
        for i in 0..16 {
            b[i] ^= w[0][i];
        }
    }
    /// Whole blocks are encrypted, an incomplete last block is sent as it is.
    pub fn cbc_encrypt(key: &[u8; 16], iv: &[u8; 16], d: &[u8]) -> Vec<u8> {
        let mut prev = *iv;
        let mut out = Vec::new();
        for c in d.chunks(16) {
            if c.len() < 16 {
                out.extend(c);
                continue;
            }
            let mut b: [u8; 16] = c.try_into().unwrap();
            (0..16).for_each(|i| b[i] ^= prev[i]);
            encrypt_block(key, &mut b);
            out.extend(b);
            prev = b;
        }
        out
    }
    pub fn cbc_decrypt(key: &[u8; 16], iv: &[u8; 16], d: &[u8]) -> Vec<u8> {
        let mut prev = *iv;
        let mut out = Vec::new();
        for c in d.chunks(16) {
            if c.len() < 16 {
                out.extend(c);
                continue;
            }
            let orig: [u8; 16] = c.try_into().unwrap();
            let mut b = orig;
            decrypt_block(key, &mut b);
            (0..16).for_each(|i| b[i] ^= prev[i]);
            out.extend(b);
            prev = orig;
        }
        out
    }
}

pub fn id_bytes(mut id: u32) -> [u8; 4] {
    let mut o = [0u8; 4];
    for b in &mut o {
        *b = (id % 10) as u8 | ((id / 10 % 10) as u8) << 4;
        id /= 100;
    }
    o
}

/// Initialisation vector of security mode 5.
pub fn iv5(mfr: u16, id: u32, version: u8, device: u8, acc: u8) -> [u8; 16] {
    let mut iv = [acc; 16];
    iv[..2].copy_from_slice(&mfr.to_le_bytes());
    iv[2..6].copy_from_slice(&id_bytes(id));
    iv[6] = version;
    iv[7] = device;
    iv
}

// ------------------------------------------------------------------------------------ whole decode

/// What the model says about one telegram.
#[derive(Clone, Debug)]
pub struct MOut {
    pub json: Value,
    pub recs: MRecs,
    /// plaintext or cleartext record bytes
    pub record_data: Option<Vec<u8>>,
    pub app: Option<App>,
    pub protocol: &'static str,
    pub payload: Option<Vec<u8>>,
    pub normalized: Vec<u8>,
    pub encrypted: bool,
    pub decrypted: Option<Vec<u8>>,
}

fn ell_json(e: &Ell) -> Value {
    let mut m = Map::new();
    m.insert("communication_control".into(), json!(format!("{:02X}", e.cc)));
    m.insert("access_number".into(), json!(e.acc));
    if let Some((mfr, addr)) = &e.receiver {
        m.insert("receiver_manufacturer".into(), json!(format!("{mfr:04X}")));
        m.insert("receiver_address".into(), json!(hex(addr)));
    }
    if let Some((sn, c)) = &e.session {
        m.insert("session_number".into(), json!(hex(sn)));
        m.insert("payload_crc".into(), json!(format!("{c:04X}")));
    }
    Value::Object(m)
}

/// The canonical output of the model without messages and enrichment; Err: the error code.
pub fn decode(d: &[u8], key: Option<&[u8; 16]>, o: Opt) -> Result<MOut, &'static str> {
    if d.is_empty() {
        return Err("input.empty");
    }
    let (protocol, frame, payload, link, normalized, stripped, has_app);
    match wired(d) {
        Some(w) => {
            protocol = "wired";
            normalized = d.to_vec();
            stripped = false;
            link = None;
            let f = |kind: &str, c: u8, a: u8| json!({"kind": kind, "function": function_name(c).unwrap(), "address": address_name(a)});
            (frame, payload, has_app) = match w {
                Wired::Ack => (json!({"kind": "single_character"}), None, false),
                Wired::Short { c, a } => (f("short", c, a), None, false),
                Wired::Control { c, a, payload } => (f("control", c, a), Some(payload), false),
                Wired::Long { c, a, payload } => (f("long", c, a), Some(payload), true),
            };
        }
        None => {
            protocol = "wireless";
            let s = strip_a(d);
            stripped = s.as_ref().is_some_and(|s| s.len() != d.len());
            normalized = s.unwrap_or_else(|| d.to_vec());
            let w = wireless(&normalized).ok_or("frame.invalid")?;
            let mut m = Map::new();
            m.insert("kind".into(), json!("wireless"));
            if let Some(f) = function_name(w.c) {
                m.insert("function".into(), json!(f));
            }
            m.insert("control_field".into(), json!(format!("{:02X}", w.c)));
            frame = Value::Object(m);
            payload = Some(w.payload.clone());
            link = Some(w);
            has_app = true;
        }
    }
    let app_ = if has_app { app(payload.as_deref().unwrap_or(&[])) } else { None };
    let app_error = has_app && app_.is_none();

    // security
    let (encrypted, mode): (bool, Option<u8>) = match &app_ {
        Some(App::Long { tpl, .. }) | Some(App::Short { tpl, .. }) => (tpl.mode() != 0, Some(tpl.mode())),
        Some(App::EllCrypt { .. }) => (true, None),
        _ => (false, None),
    };
    let cipher: Option<&[u8]> = match &app_ {
        Some(App::Long { off, .. } | App::Short { off, .. } | App::EllCrypt { off, .. } | App::NoHeader { off, .. }) => payload.as_deref().map(|p| &p[*off..]),
        _ => None,
    };
    let mut decrypted: Option<Vec<u8>> = None;
    if let (true, Some(key)) = (encrypted, key) {
        let Some(mode) = mode else {
            return Err("security.unsupported_mode");
        };
        let (mfr, id, version, device, acc) = match (&app_, &link) {
            (Some(App::Long { mfr, id, version, device, tpl, .. }), _) => (*mfr, *id, *version, *device, tpl.acc),
            (Some(App::Short { tpl, .. }), Some(w)) => (w.mfr, w.id, w.version, w.device, tpl.acc),
            _ => return Err("security.decryption_failed"),
        };
        if manufacturer(mfr).is_none() {
            return Err("security.decryption_failed");
        }
        let iv = match mode {
            5 => iv5(mfr, id, version, device, acc),
            7 => [0; 16],
            _ => return Err("security.unsupported_mode"),
        };
        let c = cipher.unwrap();
        if c.is_empty() {
            return Err("security.decryption_failed");
        }
        let blocks = match &app_ {
            Some(App::Long { tpl, .. } | App::Short { tpl, .. }) => tpl.blocks(),
            _ => 0,
        };
        let n = if blocks == 0 { c.len() } else { c.len().min(16 * blocks) };
        decrypted = Some([aes::cbc_decrypt(key, &iv, &c[..n]), c[n..].to_vec()].concat());
    }
    let record_data: Option<Vec<u8>> = if encrypted { decrypted.clone() } else { cipher.map(<[u8]>::to_vec) };
    let msb = matches!(&app_, Some(App::Long { msb: true, .. }));
    let recs = record_data.as_ref().map(|r| records(r, Opt { msb, ..o })).unwrap_or_default();

    // identity and transport
    let ident = |source: &str, id: u32, mfr: u16, version: u8, device: u8| {
        let mut m = Map::new();
        m.insert("source".into(), json!(source));
        m.insert("id".into(), json!(format!("{id:08}")));
        if let Some(c) = manufacturer(mfr) {
            m.insert("manufacturer_code".into(), json!(c));
        }
        m.insert("version".into(), json!(version));
        m.insert("device_type".into(), json!(device_name(device)));
        m.insert("device_type_code".into(), json!(device));
        Value::Object(m)
    };
    let link_ident = link.as_ref().map(|w| ident("link.wireless", w.id, w.mfr, w.version, w.device));
    let mut identity = link_ident.clone();
    let mut alternates = Vec::new();
    let mut t = Map::new();
    let (mut access, mut statuses) = (Vec::new(), Vec::new());
    let mut tpl_fields = |t: &mut Map<String, Value>, src: &str, tpl: &Tpl| {
        access.push(json!({"source": src, "value": tpl.acc}));
        statuses.push(json!({"source": src, "raw": format!("{:02X}", tpl.status), "display": status_name(tpl.status)}));
        t.insert("configuration".into(), json!({"source": src, "raw": format!("{:04X}", tpl.cfg)}));
    };
    match &app_ {
        Some(App::Long { ell, id, mfr, version, device, tpl, .. }) => {
            identity = Some(ident("tpl.long", *id, *mfr, *version, *device));
            alternates.extend(link_ident);
            t.insert("header_kind".into(), json!("long_tpl"));
            tpl_fields(&mut t, "tpl.long", tpl);
            if let Some(e) = ell {
                t.insert("ell".into(), ell_json(e));
            }
        }
        Some(App::Short { ell, tpl, .. }) => {
            t.insert("header_kind".into(), json!("short_tpl"));
            tpl_fields(&mut t, "tpl.short", tpl);
            if let Some(e) = ell {
                t.insert("ell".into(), ell_json(e));
            }
        }
        Some(App::EllCrypt { ell, .. }) => {
            t.insert("header_kind".into(), json!("ell"));
            access.push(json!({"source": "ell", "value": ell.acc}));
            t.insert("ell".into(), ell_json(ell));
        }
        Some(App::NoHeader { ell, .. }) => {
            t.insert("header_kind".into(), json!(if ell.is_some() { "ell" } else { "none" }));
            if let Some(e) = ell {
                access.push(json!({"source": "ell", "value": e.acc}));
                t.insert("ell".into(), ell_json(e));
            }
        }
        Some(App::Fixed { id, acc, status, unit }) => {
            identity = Some(json!({"source": "application.fixed", "id": format!("{id:08}"), "device_type": format!("fixed type/unit 0x{unit:04X}")}));
            t.insert("header_kind".into(), json!("fixed"));
            access.push(json!({"source": "application.fixed", "value": acc}));
            statuses.push(json!({"source": "application.fixed", "raw": format!("{status:02X}"), "display": status_name(*status)}));
        }
        Some(App::Reset) => {
            t.insert("header_kind".into(), json!("application_reset"));
        }
        None => {}
    }
    t.insert("access_numbers".into(), Value::Array(access));
    t.insert("statuses".into(), Value::Array(statuses));

    let mut s = Map::new();
    s.insert("payload_protection".into(), json!(if encrypted { "encrypted" } else { "cleartext" }));
    if let Some(m) = mode {
        s.insert("mode".into(), json!(mode_name(m)));
        s.insert("mode_code".into(), json!(m));
    }
    s.insert(
        "decryption_state".into(),
        json!(if !encrypted {
            "not_applicable"
        } else if decrypted.is_some() {
            "decrypted_unverified"
        } else {
            "key_missing"
        }),
    );
    s.insert("key_supplied".into(), json!(key.is_some()));
    if encrypted {
        s.insert("encrypted_payload_hex".into(), json!(hex(payload.as_deref().unwrap())));
    }
    if let Some(p) = &decrypted {
        s.insert("decrypted_payload_hex".into(), json!(hex(p)));
    }

    let mut diags = Vec::new();
    let mut diag = |sev: &str, code: &str, layer: &str, off: Option<usize>| {
        let mut m = Map::new();
        m.insert("severity".into(), json!(sev));
        m.insert("code".into(), json!(code));
        m.insert("layer".into(), json!(layer));
        if let Some(o) = off {
            m.insert("offset_start".into(), json!(o));
        }
        diags.push(Value::Object(m));
    };
    if app_error {
        diag("warning", "application.partial", "application", None);
    }
    if encrypted && decrypted.is_none() {
        diag("warning", "security.key_missing", "security", None);
    } else if decrypted.is_some() {
        diag("info", "security.decrypted_unverified", "security", None);
    } else if key.is_some() {
        diag("info", "security.key_unused", "security", None);
    }
    if let Some(e) = recs.error {
        diag("warning", "application.record_partial", "application", Some(e));
    }
    let partial = app_error || recs.error.is_some() || (encrypted && decrypted.is_none());

    let rd = record_data.clone().unwrap_or_default();
    let mut meter = Map::new();
    if let Some(i) = identity {
        meter.insert("identity".into(), i);
    }
    meter.insert("alternate_identities".into(), Value::Array(alternates));
    let mut raw = Map::new();
    raw.insert("original_frame_hex".into(), json!(hex(d)));
    raw.insert("normalized_frame_hex".into(), json!(hex(&normalized)));
    raw.insert("byte_length".into(), json!(d.len()));
    raw.insert("format_a_crc_stripped".into(), json!(stripped));
    if let Some(p) = &payload {
        raw.insert("payload_hex".into(), json!(hex(p)));
    }
    let mut json = json!({
        "schema_version": 3,
        "decode_state": if partial { "partial" } else { "complete" },
        "protocol": protocol,
        "frame": frame,
        "meter": meter,
        "transport": t,
        "security": s,
        "records": recs.recs.iter().enumerate().map(|(i, r)| r.json(i, &rd)).collect::<Vec<_>>(),
        "raw": raw,
        "diagnostics": diags,
    });
    strip_messages(&mut json);
    Ok(MOut { json, recs, record_data, app: app_, protocol, payload, normalized, encrypted, decrypted })
}

/// Removes the parts of a canonical output the model does not predict: texts of messages and
/// registry details. Absent and empty or null members are treated alike.
pub fn strip_messages(v: &mut Value) {
    match v {
        Value::Object(m) => {
            m.remove("message");
            m.remove("enrichment");
            m.retain(|_, x| !x.is_null() && x.as_array().is_none_or(|a| !a.is_empty()));
            for x in m.values_mut() {
                strip_messages(x);
            }
        }
        Value::Array(a) => a.iter_mut().for_each(strip_messages),
        _ => {}
    }
}

/// Path of the first difference between two JSON values.
pub fn jdiff(path: &str, a: &Value, b: &Value) -> Option<String> {
    if jeq(a, b) {
        return None;
    }
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, p) in x {
                match y.get(k) {
                    None => return Some(format!("{path}.{k}: implementation {p}, model has none")),
                    Some(q) => {
                        if let Some(d) = jdiff(&format!("{path}.{k}"), p, q) {
                            return Some(d);
                        }
                    }
                }
            }
            let k = y.keys().find(|k| !x.contains_key(*k))?;
            Some(format!("{path}.{k}: implementation has none, model {}", y[k]))
        }
        (Value::Array(x), Value::Array(y)) => {
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                if let Some(d) = jdiff(&format!("{path}[{i}]"), p, q) {
                    return Some(d);
                }
            }
            Some(format!("{path}: implementation has {} entries, model {}", x.len(), y.len()))
        }
        _ => Some(format!("{path}: implementation {a}, model {b}")),
    }
}
