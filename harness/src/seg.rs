//! Reference model of the annotated view: which bytes of a telegram are which field.

use crate::model::{self, Comp, MVal, Opt};

#[derive(Clone, Debug)]
pub struct Seg {
    pub start: usize,
    pub end: usize,
    pub kind: &'static str,
    pub group: Option<usize>,
    pub layer: &'static str,
    /// all bytes of the field, also where checksums of the link layer split it
    pub whole: Vec<u8>,
    /// value of the record, on its data
    pub val: Option<MVal>,
}

impl Seg {
    /// Whether the numbers and texts quoted in a description are those of the field. Says nothing of its wording.
    pub fn quotes(&self, detail: &str) -> bool {
        let n = self.whole.len();
        let words = || detail.split(|c: char| !c.is_ascii_alphanumeric());
        let number = || words().find_map(|w| w.parse::<u64>().ok());
        let hex = || words().find_map(|w| w.strip_prefix("0x")).map(str::to_string);
        let fwd: String = self.whole.iter().map(|b| format!("{b:02X}")).collect();
        let back: String = self.whole.iter().rev().map(|b| format!("{b:02X}")).collect();
        let same = |t: Option<String>| t.is_none_or(|t| t.eq_ignore_ascii_case(&fwd) || t.eq_ignore_ascii_case(&back));
        match self.kind {
            "CField" => {
                let named = ["SND_", "REQ_", "RSP_"].iter().any(|n| detail.contains(n));
                same(hex()) && (!named || crate::model::function_name(self.whole[0]).is_some_and(|n| detail.contains(&n)))
            }
            "AField" => {
                let named = ["Primary", "Uninit", "Secondary", "Broadcast"].iter().any(|n| detail.contains(n));
                if named {
                    detail.contains(&crate::model::address_name(self.whole[0]))
                } else {
                    number().is_none_or(|x| x == u64::from(self.whole[0]))
                }
            }
            "Version" | "AccessNumber" | "LField" | "Length" => number().is_none_or(|x| x == u64::from(self.whole[0])),
            "IdentificationNumber" => same(words().find(|w| w.len() == 8).map(str::to_string)),
            "Dife" | "Vife" => number().is_none_or(|x| x == n as u64),
            "ManufacturerSpecific" => number().is_none_or(|x| x == n as u64) && hex().is_none_or(|h| h.eq_ignore_ascii_case(&fwd[..2])),
            "Unknown" => hex().is_none_or(|h| h.eq_ignore_ascii_case(&fwd[..2])),
            "PlaintextVif" => {
                let text: String = self.whole[1..].iter().map(|b| char::from(*b)).collect();
                let turned: String = text.chars().rev().collect();
                detail.contains(&text) || detail.contains(&turned)
            }
            "DataPayload" => self.val.as_ref().is_none_or(|v| quotes_value(v, detail)),
            _ => same(hex()),
        }
    }
}

const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];

pub fn quotes_value(v: &MVal, detail: &str) -> bool {
    let number = |want: f64| {
        let Some(x) = detail.split_whitespace().next().and_then(|w| w.parse::<f64>().ok()) else { return false };
        x == want || x.is_nan() && want.is_nan() || (x - want).abs() <= 1e-12 * want.abs()
    };
    match v {
        MVal::Num(d) => number(format!("{}{}", if d.neg { "-" } else { "" }, d.digits).parse().unwrap_or(f64::NAN)),
        MVal::Real(x) => number(f64::from(*x)),
        MVal::Text(t) => detail.contains(t.as_str()),
        MVal::Time(_, comps) => {
            let mut words = detail.split(|c: char| !c.is_ascii_alphanumeric());
            comps.iter().all(|(_, c)| {
                let want = match c {
                    Comp::Single(x) => x.to_string(),
                    Comp::Month(m) => MONTHS[usize::from(*m) - 1].to_string(),
                    Comp::Every => "Every".into(),
                    Comp::Invalid => "Invalid".into(),
                };
                words.next() == Some(want.as_str())
            })
        }
        MVal::None | MVal::Mfr => true,
    }
}

struct B<'a> {
    d: &'a [u8],
    v: Vec<Seg>,
    p: usize,
}

impl B<'_> {
    fn put(&mut self, n: usize, kind: &'static str, group: Option<usize>, layer: &'static str) {
        if n > 0 {
            let whole = self.d[self.p..self.p + n].to_vec();
            self.v.push(Seg { start: self.p, end: self.p + n, kind, group, layer, whole, val: None });
            self.p += n;
        }
    }
    fn frame(&mut self, n: usize, kind: &'static str) {
        self.put(n, kind, None, "Frame");
    }
    fn head(&mut self, n: usize, kind: &'static str) {
        self.put(n, kind, None, "AppHeader");
    }
}

fn records(b: &mut B, data: &[u8], o: Opt) {
    const L: &str = "RecordField";
    let m = model::records(data, o);
    let base = b.p;
    let mut skipped = m.skipped.iter().peekable();
    for (i, r) in m.recs.iter().enumerate() {
        while let Some((off, byte)) = skipped.peek() {
            if base + off != b.p {
                break;
            }
            b.put(1, if *byte == 0x2F { "IdleFiller" } else { "Unknown" }, None, L);
            skipped.next();
        }
        assert_eq!(b.p, base + r.start);
        let g = Some(i);
        match data[r.start] {
            0x0F | 0x1F => b.put(r.end - r.start, "ManufacturerSpecific", g, L),
            0x7F => b.put(1, "Dif", g, L),
            _ => {
                b.put(1, "Dif", g, L);
                b.put(r.dif_len - 1, "Dife", g, L);
                b.put(1, "Vif", g, L);
                let plain = r.plain.map_or(0, |p| p.1);
                if o.pbe {
                    b.put(plain, "PlaintextVif", g, L);
                }
                b.put(r.vifs.len() - 1, "Vife", g, L);
                if !o.pbe {
                    b.put(plain, "PlaintextVif", g, L);
                }
                assert_eq!(b.p, base + r.data_start);
                if r.end > r.data_start {
                    b.put(r.end - r.data_start, "DataPayload", g, L);
                    b.v.last_mut().unwrap().val = Some(r.val.clone());
                }
            }
        }
    }
    for (off, byte) in skipped {
        assert_eq!(b.p, base + off);
        b.put(1, if *byte == 0x2F { "IdleFiller" } else { "Unknown" }, None, L);
    }
    if let Some(e) = m.error {
        assert_eq!(b.p, base + e);
        b.put(data.len() - e, "Unknown", None, L);
    }
}

fn body(b: &mut B, data: &[u8], encrypted: bool, known: bool, show: bool, o: Opt) {
    if encrypted && !show {
        b.put(data.len(), "EncryptedPayload", None, "RecordField");
    } else if !known {
        b.put(data.len(), "Unknown", None, "RecordField");
    } else {
        records(b, data, o);
    }
}

/// `show`: the payload in place is already the plaintext
fn app(b: &mut B, p: &[u8], show: bool, o: Opt) {
    let Some(ci) = p.first() else { return };
    match ci {
        0x72 | 0x76 if p.len() >= 13 => {
            b.head(1, "CiField");
            b.head(4, "IdentificationNumber");
            b.head(2, "ManufacturerCode");
            b.head(1, "Version");
            b.head(1, "DeviceType");
            b.head(1, "AccessNumber");
            b.head(1, "Status");
            b.head(2, "ConfigurationField");
            body(b, &p[13..], p[12] & 0x1F != 0, model::app(p).is_some(), show, Opt { msb: *ci == 0x76, ..o });
        }
        0xA0 if p.len() >= 6 => {
            b.head(1, "CiField");
            b.head(1, "EncryptionConfigByte");
            b.head(1, "AccessNumber");
            b.head(1, "Status");
            b.head(2, "ConfigurationField");
            body(b, &p[6..], p[5] & 0x1F != 0, true, show, o);
        }
        0x7A | 0xA1..=0xAF if p.len() >= 5 => {
            b.head(1, "CiField");
            b.head(1, "AccessNumber");
            b.head(1, "Status");
            b.head(2, "ConfigurationField");
            body(b, &p[5..], p[4] & 0x1F != 0, true, show, o);
        }
        0x78 => {
            b.head(1, "CiField");
            records(b, &p[1..], o);
        }
        0x8C if p.len() >= 3 => {
            b.head(1, "CiField");
            b.head(2, "ExtendedLinkLayer");
            match p.get(3) {
                Some(0x72 | 0x76 | 0x78 | 0x7A | 0xA0..=0xAF) => app(b, &p[3..], show, o),
                _ => b.head(p.len() - 3, "Unknown"),
            }
        }
        0x8D | 0x8E if p.len() >= if *ci == 0x8D { 9 } else { 17 } => {
            b.head(1, "CiField");
            let n = if *ci == 0x8D { 8 } else { 16 };
            b.head(n, "ExtendedLinkLayer");
            body(b, &p[1 + n..], true, true, show, o);
        }
        _ => b.head(p.len(), "Unknown"),
    }
}

fn wireless(d: &[u8], show: bool, o: Opt) -> Option<Vec<Seg>> {
    let w = model::wireless(d)?;
    let mut b = B { d, v: vec![], p: 0 };
    b.frame(1, "LField");
    b.frame(1, "CField");
    b.frame(2, "ManufacturerCode");
    b.frame(4, "IdentificationNumber");
    b.frame(1, "Version");
    b.frame(1, "DeviceType");
    app(&mut b, &w.payload, show, o);
    if w.crc_start.is_some() {
        b.frame(2, "Crc");
    }
    Some(b.v)
}

/// The segments of a telegram. None: not a telegram.
pub fn segments(d: &[u8], show: bool, o: Opt) -> Option<Vec<Seg>> {
    use model::Wired as W;
    if let Some(w) = model::wired(d) {
        let mut b = B { d, v: vec![], p: 0 };
        b.frame(1, "StartByte");
        match w {
            W::Ack => {}
            W::Short { .. } => {
                b.frame(1, "CField");
                b.frame(1, "AField");
                b.frame(1, "Checksum");
                b.frame(1, "StopByte");
            }
            W::Long { ref payload, .. } | W::Control { ref payload, .. } => {
                b.frame(2, "Length");
                b.frame(1, "StartByte");
                b.frame(1, "CField");
                b.frame(1, "AField");
                if matches!(w, W::Long { .. }) {
                    app(&mut b, payload, show, o);
                } else {
                    b.head(payload.len(), "Unknown");
                }
                b.frame(1, "Checksum");
                b.frame(1, "StopByte");
            }
        }
        return Some(b.v);
    }
    let Some(stripped) = model::strip_a(d) else {
        return wireless(d, show, o);
    };
    let inner = wireless(&stripped, show, o)?;
    // byte by byte: owner of every byte of the original
    let mut owner: Vec<Option<usize>> = vec![None; d.len()];
    let by: Vec<usize> = inner.iter().enumerate().flat_map(|(i, s)| vec![i; s.end - s.start]).collect();
    let (mut src, mut p) = (0, 0);
    let mut first = true;
    while p < d.len() {
        let n =
            if first { Some(10) } else { (1..=16usize).rev().find(|n| p + n + 2 <= d.len() && model::crc(&d[p..p + n]).to_be_bytes() == d[p + n..p + n + 2]) };
        let (n, crc) = n.map_or((d.len() - p, 0), |n| (n, 2));
        for k in 0..n {
            owner[p + k] = Some(by[src]);
            src += 1;
        }
        p += n + crc;
        first = false;
    }
    let mut out: Vec<Seg> = Vec::new();
    let mut last: Option<Option<usize>> = None;
    for (i, w) in owner.iter().enumerate() {
        // two adjacent CRCs cannot occur: a block has at least one byte
        if last == Some(*w) {
            out.last_mut().unwrap().end = i + 1;
        } else {
            out.push(match w {
                Some(s) => Seg { start: i, end: i + 1, ..inner[*s].clone() },
                None => Seg { start: i, end: i + 1, kind: "Crc", group: None, layer: "Frame", whole: d[i..i + 2].to_vec(), val: None },
            });
        }
        last = Some(*w);
    }
    Some(out)
}
