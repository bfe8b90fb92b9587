//! C17: the libmbus-style XML view. The oracle is a small strict XML reader and a hand-written
//! model of libmbus's normalised output (units, quantities, value formats).

use super::sec::{self, KEY, METER};
use super::*;
use crate::gen::{self, LINK};
use crate::model::{App, MRec, Tpl};
use m_bus_parser::{render_bytes, OutputFormat, RenderOptions};

pub fn spaces() -> Vec<Space> {
    vec![
        both(space("C17", "c17-vif", "every VIF, every FD and FB extension and the first VIFE after every VIF x 9 data codings x 2 fills", c17_vif)),
        both(space("C17", "c17-correction", "every second-level VIFE on 8 VIFs x 3 codings", c17_correction)),
        space("C17", "c17-dif", "every DIF x 0..2 DIFEs out of 16 (thorough: all) x 3 VIFs", c17_dif),
        space("C17", "c17-number", "integer, BCD and real boundary values of every width x 40 VIFs", c17_number),
        space("C17", "c17-small", "every 8-bit and 16-bit integer and 2-digit BCD on 3 VIFs, both BCD byte orders", c17_small),
        space("C17", "c17-date", "types G (every value), F and I (boundary bytes)", c17_date),
        space("C17", "c17-text", "texts: every byte string of up to 2 bytes, every text of up to 4 out of 14 characters", c17_text),
        space("C17", "c17-unicode", "texts holding every Unicode scalar value in 2 contexts (quick: above 0xFFFF in 1)", c17_unicode),
        space("C17", "c17-readings", "numbers of every coding x 14 value information blocks, dates, times and variable-length numbers: one data byte over every (numbers: 12) values, 4 backgrounds", c17_readings),
        space("C17", "c17-long", "texts of every length 0..191 of 9 characters, with one of 8 special characters at 3 places or none", c17_long),
        space("C17", "c17-many", "each of 35 records repeated 0 times up to the longest telegram, wired and wireless", c17_many),
        space(
            "C17",
            "c17-tail",
            "manufacturer data and continuation marks of every length up to the longest telegram x 4 contents x 4 leads, wired and wireless",
            c17_tail,
        ),
        both(space("C17", "c17-plain", "plain-text units: every byte, every pair out of 40 bytes, with 3 VIFE chains", c17_plain)),
        space("C17", "c17-lvar", "every LVAR byte x fills, complete and truncated", c17_lvar),
        space("C17", "c17-pairs", "clear headers x pairs of 35 records with separators, wired and wireless", c17_pairs),
        space("C17", "c17-cut", "record pairs cut at every position", c17_cut),
        space("C17", "c17-opened", "encrypted telegrams of 13 header kinds, mode 5 and 7: every value of every identity, access number and status byte, and each of 35 records (thorough: pairs) with right, wrong or no key", c17_opened),
        space("C17", "c17-slave", "every value of every byte of 9 headers and of the link header", c17_slave),
        space("C17", "c17-product", "product names: 36 manufacturers x every version x media and number prefixes", c17_product),
        space("C17", "c17-fixed", "fixed data: every unit byte pair, every value of every other byte, wired and wireless", c17_fixed),
        space("C17", "c17-ci", "every CI x 20 payload lengths x 5 framings: supported or refused", c17_ci),
        space("C17", "c17-frames", "all byte strings of length 0..2, short and control frames, all telegram kinds truncated", c17_frames),
        space("C17", "c17-security", "every mode x 17 header kinds x ciphertext lengths x key, wrong key, no key", c17_security),
        space("C17", "c17-mutate", "15 header kinds with records: every byte replaced by every value", c17_mutate),
    ]
}

// --------------------------------------------------------------------------------- XML reader

#[derive(Debug, PartialEq, Clone)]
struct El {
    tag: String,
    attrs: Vec<(String, String)>,
    text: String,
    kids: Vec<El>,
}

struct Rd<'a> {
    s: &'a str,
}

fn legal(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}

impl Rd<'_> {
    fn ws(&mut self) {
        self.s = self.s.trim_start_matches([' ', '\t', '\n', '\r']);
    }
    fn lit(&mut self, t: &str) -> Result<(), String> {
        self.s = self.s.strip_prefix(t).ok_or_else(|| format!("expected {t:?} at {:?}", self.s.chars().take(20).collect::<String>()))?;
        Ok(())
    }
    fn name(&mut self) -> Result<String, String> {
        let n = self.s.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '-')).unwrap_or(self.s.len());
        if n == 0 || !self.s.starts_with(|c: char| c.is_ascii_alphabetic()) {
            return Err("name expected".into());
        }
        let r = self.s[..n].to_string();
        self.s = &self.s[n..];
        Ok(r)
    }
    fn text(&mut self, stop: char) -> Result<String, String> {
        let mut t = String::new();
        loop {
            let Some(c) = self.s.chars().next() else {
                return Err("text not ended".into());
            };
            if c == stop {
                return Ok(t);
            }
            if c == '<' {
                return Err("'<' in text".into());
            }
            if c == '&' {
                let end = self.s.find(';').ok_or("entity not ended")?;
                t.push(match &self.s[..=end] {
                    "&amp;" => '&',
                    "&lt;" => '<',
                    "&gt;" => '>',
                    "&quot;" => '"',
                    "&apos;" => '\'',
                    e => {
                        let n = e.strip_prefix("&#").and_then(|e| e.strip_suffix(';')).ok_or("unknown entity")?;
                        let n = match n.strip_prefix('x') {
                            Some(h) => u32::from_str_radix(h, 16),
                            None => n.parse(),
                        };
                        char::from_u32(n.map_err(|_| "bad character reference")?).filter(|c| legal(*c)).ok_or("bad character reference")?
                    }
                });
                self.s = &self.s[end + 1..];
                continue;
            }
            if !legal(c) {
                return Err(format!("character {c:?} is not allowed in XML"));
            }
            if self.s.starts_with("]]>") {
                return Err("']]>' in text".into());
            }
            t.push(c);
            self.s = &self.s[c.len_utf8()..];
        }
    }
    fn element(&mut self) -> Result<El, String> {
        self.lit("<")?;
        let tag = self.name()?;
        let mut attrs = Vec::new();
        loop {
            let before = self.s.len();
            self.ws();
            if self.s.starts_with("/>") {
                self.lit("/>")?;
                return Ok(El { tag, attrs, text: String::new(), kids: vec![] });
            }
            if self.s.starts_with('>') {
                self.lit(">")?;
                break;
            }
            if before == self.s.len() {
                return Err("blank expected in tag".into());
            }
            let n = self.name()?;
            self.lit("=\"")?;
            let v = self.text('"')?;
            self.lit("\"")?;
            if attrs.iter().any(|(a, _)| *a == n) {
                return Err("attribute given twice".into());
            }
            attrs.push((n, v));
        }
        let mut e = El { tag, attrs, text: String::new(), kids: vec![] };
        loop {
            e.text.push_str(&self.text('<')?);
            if self.s.starts_with("</") {
                self.lit("</")?;
                let n = self.name()?;
                if n != e.tag {
                    return Err(format!("</{n}> closes <{}>", e.tag));
                }
                self.ws();
                self.lit(">")?;
                return Ok(e);
            }
            e.kids.push(self.element()?);
        }
    }
}

fn read(s: &str) -> Result<El, String> {
    let mut r = Rd { s };
    r.lit("<?xml version=\"1.0\"")?;
    let end = r.s.find("?>").ok_or("prolog not ended")?;
    if r.s[..end].contains('<') {
        return Err("prolog".into());
    }
    r.s = &r.s[end + 2..];
    r.ws();
    let e = r.element()?;
    r.ws();
    if !r.s.is_empty() {
        return Err("text behind the document".into());
    }
    Ok(e)
}

// --------------------------------------------------------------------------------- the model

#[derive(Debug, Clone, PartialEq)]
enum V {
    Text(String),
    Num(f64),
}

type Fields = Vec<(&'static str, V)>;

#[derive(Debug, Clone, PartialEq)]
struct Doc {
    slave: Fields,
    recs: Vec<Fields>,
}

fn ten(e: i32) -> f64 {
    format!("1e{e}").parse().unwrap()
}
const TIME: [f64; 6] = [1.0, 60.0, 3600.0, 86400.0, 2629743.83, 31556926.0];

/// libmbus's normalisation: factor, unit, quantity of a VIF (0x000), FD (0x100) or FB (0x200) code.
fn normal(code: u16) -> Option<(f64, &'static str, &'static str)> {
    let n = |k: u16| i32::from(code & k);
    let reserved = Some((1.0, "Reserved", "Reserved"));
    let plain = |q: &'static str| Some((1.0, "", q));
    Some(match code {
        0x00..=0x07 => (ten(n(7) - 3), "Wh", "Energy"),
        0x08..=0x0F => (ten(n(7)), "J", "Energy"),
        0x10..=0x17 => (ten(n(7) - 6), "m^3", "Volume"),
        0x18..=0x1F => (ten(n(7) - 3), "kg", "Mass"),
        0x20..=0x23 => (TIME[n(3) as usize], "s", "On time"),
        0x24..=0x27 => (TIME[n(3) as usize], "s", "Operating time"),
        0x28..=0x2F => (ten(n(7) - 3), "W", "Power"),
        0x30..=0x37 => (ten(n(7)), "J/h", "Power"),
        0x38..=0x3F => (ten(n(7) - 6), "m^3/h", "Volume flow"),
        0x40..=0x47 => (ten(n(7) - 7), "m^3/min", "Volume flow"),
        0x48..=0x4F => (ten(n(7) - 9), "m^3/s", "Volume flow"),
        0x50..=0x57 => (ten(n(7) - 3), "kg/h", "Mass flow"),
        0x58..=0x5B => (ten(n(3) - 3), "°C", "Flow temperature"),
        0x5C..=0x5F => (ten(n(3) - 3), "°C", "Return temperature"),
        0x60..=0x63 => (ten(n(3) - 3), "K", "Temperature difference"),
        0x64..=0x67 => (ten(n(3) - 3), "°C", "External temperature"),
        0x68..=0x6B => (ten(n(3) - 3), "bar", "Pressure"),
        0x6C => (1.0, "-", "Time point (date)"),
        0x6D => (1.0, "-", "Time point (date & time)"),
        0x6E => (1.0, "Units for H.C.A.", "H.C.A."),
        0x6F => (0.0, "Reserved", "Reserved"),
        0x70..=0x73 => (TIME[n(3) as usize], "s", "Averaging Duration"),
        0x74..=0x77 => (TIME[n(3) as usize], "s", "Actuality Duration"),
        0x78 => return plain("Fabrication No"),
        0x79 => return plain("(Enhanced) Identification"),
        0x7A => return plain("Bus Address"),
        0x7E => return plain("Any VIF"),
        0x7F => return plain("Manufacturer specific"),
        0x100..=0x103 => (ten(n(3) - 3), "Currency units", "Credit"),
        0x104..=0x107 => (ten(n(3) - 3), "Currency units", "Debit"),
        0x108 => return plain("Access Number (transmission count)"),
        0x109 => return plain("Medium"),
        0x10A => return plain("Manufacturer"),
        0x10B => return plain("Parameter set identification"),
        0x10C => return plain("Model / Version"),
        0x10D => return plain("Hardware version"),
        0x10E => return plain("Firmware version"),
        0x10F => return plain("Software version"),
        0x110 => return plain("Customer location"),
        0x111 => return plain("Customer"),
        0x112 => return plain("Access Code User"),
        0x113 => return plain("Access Code Operator"),
        0x114 => return plain("Access Code System Operator"),
        0x115 => return plain("Access Code Developer"),
        0x116 => return plain("Password"),
        0x117 => return plain("Error flags"),
        0x118 => return plain("Error mask"),
        0x11A => return plain("Digital Output"),
        0x11B => return plain("Digital Input"),
        0x11C => (1.0, "Baud", "Baudrate"),
        0x11D => (1.0, "Bittimes", "Response delay time"),
        0x11E => return plain("Retry"),
        0x120 => return plain("First storage # for cyclic storage"),
        0x121 => return plain("Last storage # for cyclic storage"),
        0x122 => return plain("Size of storage block"),
        0x124..=0x129 => (TIME[usize::from(code - 0x124)], "s", "Storage interval"),
        0x12C..=0x12F => (TIME[n(3) as usize], "s", "Duration since last readout"),
        0x131..=0x133 => (TIME[n(3) as usize], "s", "Duration of tariff"),
        0x134..=0x139 => (TIME[usize::from(code - 0x134)], "s", "Period of tariff"),
        0x13A => return plain("Dimensionless"),
        0x140..=0x14F => (ten(n(15) - 9), "V", "Voltage"),
        0x150..=0x15F => (ten(n(15) - 12), "A", "Current"),
        0x160 => return plain("Reset counter"),
        0x161 => return plain("Cumulation counter"),
        0x162 => return plain("Control signal"),
        0x163 => return plain("Day of week"),
        0x164 => return plain("Week number"),
        0x165 => return plain("Time point of day change"),
        0x166 => return plain("State of parameter activation"),
        0x167 => return plain("Special supplier information"),
        0x168..=0x16B => (TIME[n(3) as usize + 2], "s", "Duration since last cumulation"),
        0x16C..=0x16F => (TIME[n(3) as usize + 2], "s", "Operating time battery"),
        0x170 => return plain("Date and time of battery change"),
        0x100..=0x17F => return reserved,
        0x200 | 0x201 => (ten(n(1) + 5), "Wh", "Energy"),
        // the unit is libmbus's
        0x208 | 0x209 => (ten(n(1) + 8), "Reserved", "Energy"),
        0x210 | 0x211 => (ten(n(1) + 2), "m^3", "Volume"),
        0x218 | 0x219 => (ten(n(1) + 5), "kg", "Mass"),
        0x221 => (0.1, "feet^3", "Volume"),
        0x222 => (0.1, "American gallon", "Volume"),
        0x223 => (1.0, "American gallon", "Volume"),
        0x224 => (0.001, "American gallon/min", "Volume flow"),
        0x225 => (1.0, "American gallon/min", "Volume flow"),
        0x226 => (1.0, "American gallon/h", "Volume flow"),
        0x228 | 0x229 => (ten(n(1) + 5), "W", "Power"),
        0x230 | 0x231 => (ten(n(1) + 8), "J", "Power"),
        0x258..=0x25B => (ten(n(3) - 3), "°F", "Flow temperature"),
        0x25C..=0x25F => (ten(n(3) - 3), "°F", "Return temperature"),
        0x260..=0x263 => (ten(n(3) - 3), "°F", "Temperature difference"),
        0x264..=0x267 => (ten(n(3) - 3), "°F", "External temperature"),
        0x270..=0x273 => (ten(n(3) - 3), "°F", "Cold / Warm Temperature Limit"),
        0x274..=0x277 => (ten(n(3) - 3), "°C", "Cold / Warm Temperature Limit"),
        // libmbus gives the first two codes the same factor
        0x278..=0x27F => (ten((n(7) - 3).max(-3) - i32::from(code == 0x279)), "W", "Cumul count max power"),
        0x200..=0x27F => return reserved,
        _ => return None,
    })
}

/// Text as XML can carry it.
fn shown(t: &str) -> String {
    t.chars().map(|c| if c.is_ascii_control() || c == '\u{FFFE}' || c == '\u{FFFF}' { ' ' } else { c }).collect()
}

fn dump(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02X}")).collect::<Vec<_>>().join(" ")
}

fn date(lo: u8, hi: u8) -> String {
    format!("{:04}-{:02}-{:02}", 2000 + u32::from(lo >> 5) + 8 * u32::from(hi >> 4), hi & 0x0F, lo & 0x1F)
}

const NEVER: &str = "1900-01-00T00:00:00Z";

fn integer(b: &[u8]) -> f64 {
    let neg = b.last().is_some_and(|x| x & 0x80 != 0);
    let mut v: i128 = 0;
    for (i, x) in b.iter().enumerate() {
        v += i128::from(*x) << (8 * i);
    }
    if neg {
        v -= 1i128 << (8 * b.len());
    }
    v as f64
}

fn bcd(b: &[u8], msb: bool) -> f64 {
    let mut b = b.to_vec();
    if !msb {
        b.reverse();
    }
    b.iter().fold(0f64, |a, x| a * 100.0 + f64::from(x >> 4) * 10.0 + f64::from(x & 15))
}

fn record(r: &MRec, data: &[u8], msb: bool) -> Fields {
    let body = &data[r.data_start..r.end];
    let t = |s: &str| V::Text(shown(s));
    let dif = data[r.start];
    if matches!(dif, 0x0F | 0x1F) {
        return vec![
            ("Function", t(if dif == 0x1F { "More records follow" } else { "Manufacturer specific" })),
            ("StorageNumber", t("0")),
            ("Unit", t("")),
            ("Quantity", t("")),
            ("Value", t(&dump(body))),
        ];
    }
    if r.vi.is_none() {
        return vec![];
    }
    let vif = r.vifs[0];
    let vife = r.vifs.get(1).map(|v| v & 0x7F);
    let norm: Option<(f64, String, String)> = match (vif, vife) {
        (0xFD, Some(v)) => normal(0x100 | u16::from(v)).map(|(f, u, q)| (f, u.to_string(), q.to_string())),
        (0xFB, Some(v)) => normal(0x200 | u16::from(v)).map(|(f, u, q)| (f, u.to_string(), q.to_string())),
        (0x7C | 0xFC, _) => {
            let q = r.plain.map(|(at, len)| data[at + 1..at + len].iter().rev().map(|b| char::from(*b)).collect::<String>()).unwrap_or_default();
            Some((1.0, "-".into(), q))
        }
        _ => normal(u16::from(vif & 0x7F)).map(|(f, u, q)| (f, u.to_string(), q.to_string())),
    };
    let moment = vif & 0x7F == 0x6D || (vif == 0xFD && matches!(vife, Some(0x30 | 0x70)));
    let value = match dif & 0x0F {
        0 => V::Text(String::new()),
        2 if vif & 0x7F == 0x6C => t(&date(body[0], body[1])),
        4 if moment => {
            t(&if body[0] & 0x80 != 0 { NEVER.into() } else { format!("{}T{:02}:{:02}:00Z", date(body[2], body[3]), body[1] & 0x1F, body[0] & 0x3F) })
        }
        6 if moment => t(&if body[1] & 0x80 != 0 {
            NEVER.into()
        } else {
            format!("{}T{:02}:{:02}:{:02}Z", date(body[3], body[4]), body[2] & 0x1F, body[1] & 0x3F, body[0] & 0x3F)
        }),
        1 | 2 | 3 | 4 | 6 | 7 => V::Num(integer(body)),
        5 => V::Num(f64::from(f32::from_le_bytes(body.try_into().unwrap()))),
        9..=0xC | 0xE => V::Num(bcd(body, msb)),
        0xD if body[0] <= 0xBF => t(&model::text(&body[1..])),
        0xD => t(&dump(&body[1..])),
        _ => return vec![],
    };
    let Some((factor, unit, quantity)) = norm else {
        return vec![];
    };
    let value = match value {
        V::Num(mut v) => {
            v *= factor;
            if vif & 0x80 != 0 && vif != 0xFD && vif != 0xFB {
                match vife {
                    Some(c @ 0x70..=0x77) => v *= ten(i32::from(c & 7) - 6),
                    Some(c @ 0x78..=0x7B) => v += ten(i32::from(c & 3) - 3),
                    Some(0x7D) => v *= 1000.0,
                    _ => {}
                }
            }
            V::Num(v)
        }
        v => v,
    };
    let mut f = vec![("Function", t(&r.function)), ("StorageNumber", t(&r.storage.to_string()))];
    if r.dif_len > 1 {
        f.push(("Tariff", t(&r.tariff.to_string())));
        f.push(("Device", t(&r.subunit.to_string())));
    }
    f.push(("Unit", t(&unit)));
    f.push(("Quantity", t(&quantity)));
    f.push(("Value", value));
    f
}

fn medium(m: u8) -> String {
    match m {
        0x00 => "Other",
        0x01 => "Oil",
        0x02 => "Electricity",
        0x03 => "Gas",
        0x04 => "Heat: Outlet",
        0x05 => "Steam",
        0x06 => "Warm water (30-90°C)",
        0x07 => "Water",
        0x08 => "Heat Cost Allocator",
        0x09 => "Compressed Air",
        0x0A => "Cooling load meter: Outlet",
        0x0B => "Cooling load meter: Inlet",
        0x0C => "Heat: Inlet",
        0x0D => "Heat / Cooling load meter",
        0x0E => "Bus/System",
        0x0F => "Unknown Medium",
        0x10 => "Irrigation Water",
        0x11 => "Water Logger",
        0x12 => "Gas Logger",
        0x13 => "Gas Converter",
        0x14 => "Calorific value",
        0x15 => "Hot water (>90°C)",
        0x16 => "Cold water",
        0x17 => "Dual water",
        0x18 => "Pressure",
        0x19 => "A/D Converter",
        0x1A => "Smoke Detector",
        0x1B => "Ambient Sensor",
        0x1C => "Gas Detector",
        0x20 => "Breaker: Electricity",
        0x21 => "Valve: Gas or Water",
        0x25 => "Customer Unit: Display Device",
        0x28 => "Waste Water",
        0x29 => "Garbage",
        0x30 => "Service Unit",
        0x36 => "Radio Converter: System",
        0x37 => "Radio Converter: Meter",
        0x22..=0x3F if m != 0x35 => "Reserved",
        _ => return format!("Unknown medium (0x{m:02x})"),
    }
    .into()
}

/// libmbus's product names: manufacturer, medium or any, version or identification prefix, name.
enum By {
    Version(u8),
    Versions(u8, u8),
    Medium(u8, u8),
    Prefix(u8),
}
use By::*;
const PRODUCTS: &[(&str, By, &str)] = &[
    ("ABB", Version(0x02), "ABB Delta-Meter"),
    ("ABB", Version(0x20), "ABB B21 113-100"),
    ("ACW", Version(0x09), "Itron CF Echo 2"),
    ("ACW", Version(0x0A), "Itron CF 51"),
    ("ACW", Version(0x0B), "Itron CF 55"),
    ("ACW", Version(0x0E), "Itron BM +m"),
    ("ACW", Version(0x0F), "Itron CF 800"),
    ("ACW", Version(0x14), "Itron CYBLE M-Bus 1.4"),
    ("AMT", Versions(0x00, 0x3F), "Aquametro AMTRON"),
    ("AMT", Versions(0x40, 0x7F), "Aquametro SAPHIR"),
    ("AMT", Versions(0x80, 0xBF), "Aquametro CALEC MB"),
    ("AMT", Versions(0xC0, 0xFF), "Aquametro CALEC ST"),
    ("BEC", Medium(0x02, 0x00), "Berg DCMi"),
    ("BEC", Medium(0x02, 0x07), "Berg BLMi"),
    ("BEC", Medium(0x0F, 0x71), "Berg BMB-10S0"),
    ("EFE", Medium(0x06, 0x00), "Engelmann WaterStar"),
    ("EFE", Version(0x00), "Engelmann / Elster SensoStar 2"),
    ("EFE", Version(0x01), "Engelmann SensoStar 2C"),
    ("ELS", Version(0x02), "Elster TMP-A"),
    ("ELS", Version(0x0A), "Elster Falcon"),
    ("ELS", Version(0x2F), "Elster F96 Plus"),
    ("ELV", Versions(0x14, 0x1D), "Elvaco CMa10"),
    ("ELV", Versions(0x32, 0x3B), "Elvaco CMa11"),
    ("EMH", Version(0x00), "EMH DIZ"),
    ("EMU", Medium(0x02, 0x10), "EMU Professional 3/75 M-Bus"),
    ("GAV", Medium(0x02, 0x2D), "Carlo Gavazzi EM24"),
    ("GAV", Medium(0x02, 0x2E), "Carlo Gavazzi EM24"),
    ("GAV", Medium(0x02, 0x2F), "Carlo Gavazzi EM24"),
    ("GAV", Medium(0x02, 0x30), "Carlo Gavazzi EM24"),
    ("GAV", Medium(0x02, 0x39), "Carlo Gavazzi EM21"),
    ("GAV", Medium(0x02, 0x3A), "Carlo Gavazzi EM21"),
    ("GAV", Medium(0x02, 0x40), "Carlo Gavazzi EM33"),
    ("GMC", Version(0xE6), "GMC-I A230 EMMOD 206"),
    ("KAM", Version(0x01), "Kamstrup 382 (6850-005)"),
    ("KAM", Version(0x08), "Kamstrup Multical 601"),
    ("SLB", Version(0x02), "Allmess Megacontrol CF-50"),
    ("SLB", Version(0x06), "CF Compact / Integral MK MaXX"),
    ("HYD", Version(0x28), "ABB F95 Typ US770"),
    ("HYD", Version(0x2F), "Hydrometer Sharky 775"),
    ("JAN", Medium(0x02, 0x09), "Janitza UMG 96S"),
    ("LUG", Version(0x02), "Landis & Gyr Ultraheat 2WR5"),
    ("LUG", Version(0x03), "Landis & Gyr Ultraheat 2WR6"),
    ("LUG", Version(0x04), "Landis & Gyr Ultraheat UH50"),
    ("LUG", Version(0x07), "Landis & Gyr Ultraheat T230"),
    ("LSE", Version(0x99), "Siemens WFH21"),
    ("NZR", Version(0x01), "NZR DHZ 5/63"),
    ("NZR", Version(0x50), "NZR IC-M2"),
    ("RAM", Version(0x03), "Rossweiner ETK/ETW Modularis"),
    ("REL", Version(0x08), "Relay PadPuls M1"),
    ("REL", Version(0x12), "Relay PadPuls M4"),
    ("REL", Version(0x20), "Relay Padin 4"),
    ("REL", Version(0x30), "Relay AnDi 4"),
    ("REL", Version(0x40), "Relay PadPuls M2"),
    ("RKE", Version(0x69), "Ista sensonic II mbus"),
    ("SBC", Prefix(0x10), "Saia-Burgess ALE3"),
    ("SBC", Prefix(0x19), "Saia-Burgess ALE3"),
    ("SBC", Prefix(0x11), "Saia-Burgess AWD3"),
    ("SEO", Prefix(0x30), "Sensoco PT100"),
    ("SEO", Prefix(0x41), "Sensoco 2-NTC"),
    ("SEO", Prefix(0x45), "Sensoco Laser Light"),
    ("SEO", Prefix(0x48), "Sensoco ADIO"),
    ("SEO", Prefix(0x51), "Sensoco THU"),
    ("SEO", Prefix(0x61), "Sensoco THU"),
    ("SEO", Prefix(0x80), "Sensoco PulseCounter for E-Meter"),
    ("GTE", Prefix(0x30), "Sensoco PT100"),
    ("GTE", Prefix(0x41), "Sensoco 2-NTC"),
    ("GTE", Prefix(0x45), "Sensoco Laser Light"),
    ("GTE", Prefix(0x48), "Sensoco ADIO"),
    ("GTE", Prefix(0x51), "Sensoco THU"),
    ("GTE", Prefix(0x61), "Sensoco THU"),
    ("GTE", Prefix(0x80), "Sensoco PulseCounter for E-Meter"),
    ("SEN", Version(0x08), "Sensus PolluCom E"),
    ("SEN", Version(0x19), "Sensus PolluCom E"),
    ("SEN", Version(0x0B), "Sensus PolluTherm"),
    ("SEN", Version(0x0E), "Sensus PolluStat E"),
    ("SON", Version(0x0D), "Sontex Supercal 531"),
    ("SPX", Version(0x31), "Sensus PolluTherm"),
    ("SPX", Version(0x34), "Sensus PolluTherm"),
    ("SVM", Version(0x08), "Elster F2 / Deltamess F2"),
    ("SVM", Version(0x09), "Elster F4 / Kamstrup SVM F22"),
    ("TCH", Version(0x26), "Techem m-bus S"),
    ("TCH", Version(0x40), "Techem ultra S3"),
    ("WZG", Version(0x03), "Modularis ETW-EAX"),
    ("ZRM", Version(0x81), "Minol Minocal C2"),
    ("ZRM", Version(0x82), "Minol Minocal WR3"),
];

fn product(mfr: &str, version: u8, medium: u8, id: u32) -> &'static str {
    let prefix = ((id / 10_000_000) << 4 | (id / 1_000_000) % 10) as u8;
    PRODUCTS
        .iter()
        .find(|(m, by, _)| {
            *m == mfr
                && match by {
                    Version(v) => version == *v,
                    Versions(a, b) => (*a..=*b).contains(&version),
                    Medium(d, v) => medium == *d && version == *v,
                    Prefix(p) => prefix == *p,
                }
        })
        .map_or("", |(_, _, name)| name)
}

fn meter(id: u32, mfr: u16, version: u8, device: u8) -> Fields {
    let t = |s: &str| V::Text(shown(s));
    let code = model::manufacturer(mfr).unwrap_or_default();
    vec![
        ("Id", t(&id.to_string())),
        ("Manufacturer", t(&code)),
        ("Version", t(&version.to_string())),
        ("ProductName", t(product(&code, version, device, id))),
        ("Medium", t(&medium(device))),
    ]
}

fn transport(f: &mut Fields, tpl: &Tpl) {
    let t = |s: &str| V::Text(s.into());
    f.push(("AccessNumber", t(&tpl.acc.to_string())));
    f.push(("Status", t(&format!("{:02X}", tpl.status))));
    f.push(("Signature", t(&format!("{:04X}", tpl.cfg))));
}

fn fixed(p: &[u8]) -> Doc {
    const UNITS: [&str; 15] =
        ["Wh", "10 Wh", "100 Wh", "kWh", "10 kWh", "100 kWh", "MWh", "10 MWh", "100 MWh", "kJ", "10 kJ", "MJ", "100 kJ", "10 MJ", "100 MJ"];
    let unit = |u: u8| -> String {
        let u = u & 0x3F;
        let step = |base: u8, names: [&str; 3]| {
            let k = u - base;
            format!("{}{}", ["", "10 ", "100 "][usize::from(k % 3)], names[usize::from(k / 3)])
        };
        match u {
            0x00 => "h,m,s".into(),
            0x01 => "D,M,Y".into(),
            0x02..=0x10 => UNITS[usize::from(u) - 2].into(),
            0x11..=0x13 => step(0x11, ["GJ", "", ""]),
            0x14..=0x1C => step(0x14, ["W", "kW", "MW"]),
            0x1D..=0x25 => step(0x1D, ["kJ/h", "MJ/h", "GJ/h"]),
            0x26..=0x2E => step(0x26, ["ml", "l", "m^3"]),
            0x2F..=0x37 => step(0x2F, ["ml/h", "l/h", "m^3/h"]),
            0x38 => "1e-3 °C".into(),
            0x39 => "units for HCA".into(),
            0x3A..=0x3D => "reserved".into(),
            0x3E => "reserved but historic".into(),
            _ => "without units".into(),
        }
    };
    const MEDIA: [&str; 16] = [
        "Other",
        "Oil",
        "Electricity",
        "Gas",
        "Heat",
        "Steam",
        "Hot Water",
        "Water",
        "H.C.A.",
        "Reserved",
        "Gas Mode 2",
        "Heat Mode 2",
        "Hot Water Mode 2",
        "Water Mode 2",
        "H.C.A. Mode 2",
        "Reserved",
    ];
    let t = |s: &str| V::Text(s.into());
    let (status, u1, u2) = (p[6], p[7], p[8]);
    let f = if status & 0x40 != 0 { "Stored value" } else { "Actual value" };
    let rec = |u: u8, b: &[u8]| vec![("Function", t(f)), ("Unit", t(&unit(u))), ("Value", t(&model::bcd_id(b).unwrap().to_string()))];
    Doc {
        slave: vec![
            ("Id", t(&model::bcd_id(&p[1..5]).unwrap().to_string())),
            ("Medium", t(MEDIA[usize::from(u1 >> 6 | u2 >> 6 << 2)])),
            ("AccessNumber", t(&p[5].to_string())),
            ("Status", t(&format!("{status:02X}"))),
        ],
        recs: vec![rec(u1, &p[9..13]), rec(u2, &p[13..17])],
    }
}

enum Want {
    Doc(Doc),
    Refused,
    /// more value information than the decoder documents to hold
    Capacity,
}

fn expected(d: &[u8], key: Option<[u8; 16]>) -> Want {
    let o = Opt { skip_7c: true, ..model::opt() };
    let Ok(m) = model::decode(d, None, o) else {
        return Want::Refused;
    };
    let wired = m.protocol == "wired";
    let payload = m.payload.clone().unwrap_or_default();
    // the records to show: None if they stay closed
    let open: Result<Option<Vec<u8>>, ()> = if !m.encrypted {
        Ok(m.record_data.clone())
    } else if let Some(key) = key {
        model::decode(d, Some(&key), o).map(|m| m.decrypted).map_err(|_| ())
    } else if let (true, Some(App::Long { off, .. })) = (wired, &m.app) {
        // wired meters that claim encryption are shown as libmbus shows them
        Ok(Some(payload[*off..].to_vec()))
    } else {
        Ok(None)
    };
    let Ok(open) = open else { return Want::Refused };
    let msb = matches!(m.app, Some(App::Long { msb: true, .. }));
    let records = open.as_ref().map(|r| model::records(r, Opt { msb, ..o })).unwrap_or_default();
    if records.overflow {
        return Want::Capacity;
    }
    let bytes = open.unwrap_or_default();
    let recs: Vec<Fields> = records.recs.iter().map(|r| record(r, &bytes, msb)).collect();
    let radio = model::wireless(&m.normalized);
    let link = radio.filter(|_| !wired).map(|w| meter(w.id, w.mfr, w.version, w.device));
    let slave = match (&m.app, link) {
        (Some(App::Fixed { .. }), _) => return Want::Doc(fixed(&payload)),
        (Some(App::Long { id, mfr, version, device, tpl, .. }), _) => {
            let mut f = meter(*id, *mfr, *version, *device);
            transport(&mut f, tpl);
            f
        }
        (_, None) => return Want::Refused,
        (Some(App::Short { tpl, .. }), Some(mut f)) => {
            transport(&mut f, tpl);
            f
        }
        (Some(App::EllCrypt { ell, .. } | App::NoHeader { ell: Some(ell), .. }), Some(mut f)) => {
            f.push(("AccessNumber", V::Text(ell.acc.to_string())));
            f
        }
        (_, Some(f)) => f,
    };
    Want::Doc(Doc { slave, recs })
}

fn same_text(e: &El) -> bool {
    e.text.trim_matches([' ', '\n', '\t', '\r']).is_empty()
}

fn fields(e: &El, want: &Fields) -> Result<(), String> {
    let tags: Vec<&str> = e.kids.iter().map(|k| k.tag.as_str()).collect();
    let expected: Vec<&str> = want.iter().map(|(t, _)| *t).collect();
    if tags != expected || !same_text(e) {
        return Err(format!("<{}> has {tags:?}, expected {expected:?}", e.tag));
    }
    for (k, (tag, v)) in e.kids.iter().zip(want) {
        if !k.kids.is_empty() || !k.attrs.is_empty() {
            return Err(format!("<{tag}> is not plain"));
        }
        let ok = match v {
            V::Text(t) => *t == k.text,
            V::Num(n) if n.is_finite() => {
                let form = k.text.split_once('.').is_some_and(|(a, b)| {
                    b.len() == 6 && b.bytes().all(|c| c.is_ascii_digit()) && a.strip_prefix('-').unwrap_or(a).bytes().all(|c| c.is_ascii_digit())
                });
                form && k.text.parse::<f64>().is_ok_and(|x| (x - n).abs() <= 1.1e-6 + n.abs() * 1e-12)
            }
            V::Num(n) => k.text.to_lowercase().trim_start_matches('-') == if n.is_nan() { "nan" } else { "inf" },
        };
        if !ok {
            return Err(format!("<{tag}> is {:?}, expected {v:?}", k.text));
        }
    }
    Ok(())
}

fn check(ch: &mut Ch, d: &[u8], key: Option<[u8; 16]>) -> Res {
    ch.note(|| format!("bytes={} key={:?}", hex(d), key.map(|k| hex(&k))));
    let got = render_bytes(d, OutputFormat::Xml, &RenderOptions { decode: options(key), table_width: None });
    ch.ok();
    let want = expected(d, key);
    match (got, want) {
        (Err(e), Want::Refused) => refused(&e.code()),
        (Err(e), _) => fail("refused", format!("refused with {}: {e}", e.code())),
        (Ok(t), Want::Refused) => fail("accepted", format!("expected an error, got {t:?}")),
        (Ok(t), w) => {
            let e = match read(&t) {
                Ok(e) => e,
                Err(e) => return fail("markup", format!("{e} in {t:?}")),
            };
            let Want::Doc(w) = w else {
                return refused(&"capacity");
            };
            if e.tag != "MBusData" || !same_text(&e) || e.kids.first().map(|k| k.tag.as_str()) != Some("SlaveInformation") {
                return fail("document", format!("unexpected structure {t:?}"));
            }
            if let Err(x) = fields(&e.kids[0], &w.slave) {
                return fail("slave", x);
            }
            if e.kids.len() != w.recs.len() + 1 {
                return fail("records", format!("{} records, expected {}: {t:?}", e.kids.len() - 1, w.recs.len()));
            }
            for (i, (k, r)) in e.kids[1..].iter().zip(&w.recs).enumerate() {
                if k.tag != "DataRecord" || k.attrs != [("id".to_string(), i.to_string())] {
                    return fail("records", format!("record {i} is <{} {:?}>", k.tag, k.attrs));
                }
                if let Err(x) = fields(k, r) {
                    return fail("record", format!("record {i}: {x}"));
                }
            }
            out(&t)
        }
    }
}

fn recs(ch: &mut Ch, data: &[u8]) -> Res {
    let p = [&gen::long_tpl(0x72, 0)[..], data].concat();
    check(ch, &gen::long(0x08, 1, &p), None)
}

// --------------------------------------------------------------------------------- spaces

const CODES: [(u8, usize); 14] =
    [(0x04, 4), (0x02, 2), (0x0C, 4), (0x05, 4), (0x06, 6), (0x0D, 0), (0x00, 0), (0x08, 0), (0x03, 3), (0x01, 1), (0x07, 8), (0x09, 1), (0x0A, 2), (0x0E, 6)];

fn body(ch: &mut Ch, (code, n): (u8, usize)) -> Vec<u8> {
    let k = ch.n(2);
    match code {
        0x0D => {
            if k == 0 {
                vec![0x03, b'c', b'b', b'a']
            } else {
                vec![0xE2, 0x34, 0x12]
            }
        }
        0x09..=0x0C | 0x0E => (0..n).map(|i| if k == 0 { 0x12 + i as u8 } else { 0x98 }).collect(),
        0x05 => if k == 0 { [0x00, 0x00, 0x48, 0x41] } else { [0x79, 0xE9, 0xF6, 0xC2] }.to_vec(),
        _ => (0..n).map(|i| if k == 0 { 0x21 + 0x11 * i as u8 } else { 0xFE - i as u8 }).collect(),
    }
}

fn c17_vif(ch: &mut Ch) -> Res {
    let c = CODES[ch.n(ch.tier(9, 14))];
    let mut d = vec![c.0];
    let vif = ch.byte();
    d.push(vif);
    let text = |d: &mut Vec<u8>| d.extend([0x02, b'%', b'Z']);
    if vif & 0x7F == 0x7C && crate::pbe() {
        text(&mut d);
    }
    if vif & 0x80 != 0 {
        d.push(ch.n(128) as u8);
        if vif == 0xFC && !crate::pbe() {
            text(&mut d);
        }
    }
    d.extend(body(ch, c));
    recs(ch, &d)
}

fn c17_correction(ch: &mut Ch) -> Res {
    let c = ch.of(&[(0x04u8, 4usize), (0x0C, 4), (0x05, 4)]);
    let vif = ch.of(&[0x83u8, 0x93, 0xFD, 0xFB, 0xEC, 0xED, 0xFF, 0xA0]);
    let a = 0x80 | ch.n(128) as u8;
    let b = ch.n(128) as u8;
    let mut d = vec![c.0, vif, a, b];
    d.extend(body(ch, c));
    recs(ch, &d)
}

fn c17_dif(ch: &mut Ch) -> Res {
    const E: [u8; 16] = [0x00, 0x01, 0x02, 0x08, 0x0F, 0x10, 0x20, 0x30, 0x40, 0x55, 0x2A, 0x3F, 0x7F, 0x70, 0x41, 0x1E];
    let dif = ch.byte();
    let mut d = vec![dif];
    if dif & 0x80 != 0 {
        let n = 1 + ch.n(2);
        for i in 0..n {
            let e = if ch.thorough { ch.n(128) as u8 } else { ch.of(&E) };
            d.push(if i + 1 < n { e | 0x80 } else { e });
        }
    }
    let vif = ch.of(&[0x13u8, 0x6D, 0x7F]);
    d.push(vif);
    d.extend([0x02, 0x21, 0x43, 0x15, 0x07, 0x11, 0x12, 0x13]);
    recs(ch, &d)
}

fn c17_number(ch: &mut Ch) -> Res {
    let (dif, n) =
        ch.of(&[(0x01u8, 1usize), (0x02, 2), (0x03, 3), (0x04, 4), (0x05, 4), (0x06, 6), (0x07, 8), (0x09, 1), (0x0A, 2), (0x0B, 3), (0x0C, 4), (0x0E, 6)]);
    let vif: &[u8] = ch.of(&[
        &[0x00][..],
        &[0x03],
        &[0x07],
        &[0x0F],
        &[0x10],
        &[0x17],
        &[0x23],
        &[0x28],
        &[0x37],
        &[0x48],
        &[0x4F],
        &[0x5B],
        &[0x60],
        &[0x6C],
        &[0x6E],
        &[0x6F],
        &[0x73],
        &[0x78],
        &[0x7A],
        &[0x7E],
        &[0x7F],
        &[0xFD, 0x03],
        &[0xFD, 0x28],
        &[0xFD, 0x29],
        &[0xFD, 0x40],
        &[0xFD, 0x4F],
        &[0xFD, 0x50],
        &[0xFD, 0x5F],
        &[0xFB, 0x01],
        &[0xFB, 0x09],
        &[0xFB, 0x79],
        &[0xFB, 0x7F],
        &[0x93, 0x70],
        &[0x93, 0x77],
        &[0x93, 0x78],
        &[0x93, 0x7B],
        &[0x93, 0x7D],
        &[0x93, 0x3B],
        &[0xFF, 0x7D],
        &[0x93, 0xFD, 0x70],
    ]);
    let k = ch.n(14);
    let real: [[u8; 4]; 14] = [
        [0, 0, 0, 0],
        [0, 0, 0, 0x80],
        [0, 0, 0x80, 0x3F],
        [0, 0, 0x80, 0xBF],
        [0, 0, 0xC0, 0x7F],
        [0, 0, 0x80, 0x7F],
        [0, 0, 0x80, 0xFF],
        [1, 0, 0, 0],
        [0xFF, 0xFF, 0x7F, 0x7F],
        [0xFF, 0xFF, 0x7F, 0xFF],
        [0xCD, 0xCC, 0xCC, 0x3D],
        [0xBD, 0x37, 0x86, 0x35],
        [0x00, 0x24, 0x74, 0x49],
        [0x66, 0x66, 0x86, 0xC0],
    ];
    let b: Vec<u8> = if dif == 5 {
        real[k].to_vec()
    } else {
        (0..n)
            .map(|i| {
                let last = i + 1 == n;
                match k {
                    0 => 0,
                    1 => 0xFF,
                    2 => u8::from(i == 0),
                    3 => {
                        if last {
                            0x80
                        } else {
                            0
                        }
                    }
                    4 => {
                        if last {
                            0x7F
                        } else {
                            0xFF
                        }
                    }
                    5 => 0x99,
                    6 => 0x10 + i as u8,
                    7 => 0x90 - i as u8,
                    8 => {
                        if last {
                            0x50
                        } else {
                            0
                        }
                    }
                    9 => 0x05,
                    10 => {
                        if i == 0 {
                            0x80
                        } else {
                            0
                        }
                    }
                    11 => {
                        if last {
                            1
                        } else {
                            0
                        }
                    }
                    12 => 0x55,
                    _ => {
                        if i == 0 {
                            0x99
                        } else {
                            0
                        }
                    }
                }
            })
            .collect()
    };
    let d = [&[dif][..], vif, &b].concat();
    if ch.flag() {
        let p = [&gen::long_tpl(0x76, 0)[..], &d].concat();
        return check(ch, &gen::long(0x08, 1, &p), None);
    }
    recs(ch, &d)
}

fn c17_small(ch: &mut Ch) -> Res {
    let vif = ch.of(&[0x13u8, 0x5A, 0x78]);
    let d = match ch.n(3) {
        0 => vec![0x01, vif, ch.byte()],
        1 => vec![0x02, vif, ch.byte(), ch.byte()],
        _ => vec![0x0A, vif, ch.byte(), ch.byte()],
    };
    recs(ch, &d)
}

fn c17_date(ch: &mut Ch) -> Res {
    let k = ch.n(4);
    let d = match k {
        0 => vec![0x02, ch.of(&[0x6Cu8, 0xEC]), ch.byte(), ch.byte()],
        1 => {
            const B: [u8; 14] = [0x00, 0x01, 0x0C, 0x0D, 0x1F, 0x20, 0x3B, 0x3C, 0x3F, 0x5F, 0x7F, 0x80, 0xA5, 0xFF];
            let mut d = vec![0x04];
            d.extend(ch.of(&[&[0x6Du8][..], &[0xFD, 0x30], &[0xFD, 0x70]]));
            for _ in 0..4 {
                d.push(ch.of(&B));
            }
            return recs(ch, &d);
        }
        2 => {
            let mut d = vec![0x06];
            d.extend(ch.of(&[&[0x6Du8][..], &[0xFD, 0x30], &[0xFD, 0x70]]));
            d.extend([0x1E, 0x2D, 0x10, 0x35, 0x1A, 0x00]);
            let n = d.len();
            let a = ch.n(6);
            let b = ch.n(6);
            d[n - 6 + a] = ch.byte();
            d[n - 6 + b] = ch.of(&[0x00u8, 0x1F, 0x3F, 0x7F, 0x80, 0xFF]);
            return recs(ch, &d);
        }
        _ => vec![0x03, 0x6D, ch.byte(), ch.of(&[0x00u8, 0x3B, 0xFF]), ch.byte()],
    };
    let mut d = d;
    if d[1] & 0x80 != 0 {
        d.insert(2, 0x3B);
    }
    recs(ch, &d)
}

fn text_record(t: &[u8]) -> Vec<u8> {
    let mut d = vec![0x0D, 0x78, t.len() as u8];
    d.extend(t.iter().rev());
    d
}

fn c17_text(ch: &mut Ch) -> Res {
    const A: [&str; 14] = ["<", ">", "&", "\"", "'", "]", "a", "é", "\u{FFFE}", "\u{FFFF}", "\n", "\u{0}", "\u{85}", "👍"];
    let t: Vec<u8> = match ch.n(4) {
        0 => (0..ch.n(3)).map(|_| ch.byte()).collect(),
        1 => {
            let mut t = String::new();
            for _ in 0..ch.n(5) {
                t.push_str(ch.of(&A));
            }
            t.into_bytes()
        }
        2 => "a<b>&\"c\" ]]> é\u{7F}".repeat(ch.n(9)).into_bytes(),
        _ => {
            let n = ch.n(0xC0);
            (0..n).map(|i| 0x20 + (i % 0xDF) as u8).collect()
        }
    };
    if t.len() > 0xBF {
        return refused(&t.len());
    }
    recs(ch, &text_record(&t))
}

fn c17_unicode(ch: &mut Ch) -> Res {
    let c = ch.n(0x110000);
    let Some(c) = char::from_u32(c as u32) else {
        return refused(&c);
    };
    let t = if (ch.thorough || c < '\u{10000}') && ch.flag() { format!("{c}") } else { format!("a{c}<") };
    recs(ch, &text_record(t.as_bytes()))
}

fn c17_long(ch: &mut Ch) -> Res {
    let t = gen::long_text(ch);
    recs(ch, &text_record(&t))
}

fn c17_many(ch: &mut Ch) -> Res {
    let mut p = gen::long_tpl(0x72, 0);
    p.extend(gen::many(ch, 225));
    let d = framed(ch, &p);
    check(ch, &d, None)
}

fn c17_plain(ch: &mut Ch) -> Res {
    let n = ch.n(4);
    let list: Vec<u8> = (0..40).map(|i| [0x00, 0x09, 0x22, 0x26, 0x27, 0x3C, 0x3E, 0x5D, 0x7F, 0x80][i % 10].max((i as u8) * 6)).collect();
    let t: Vec<u8> = match n {
        0 => vec![],
        1 => vec![ch.byte()],
        2 => vec![ch.of(&list), ch.of(&list)],
        _ => vec![b'a' + ch.n(3) as u8; 9],
    };
    let len = ch.n(12);
    let t = if n == 3 { t[..len.min(9)].to_vec() } else { t };
    let vifs: &[u8] = ch.of(&[&[0xFCu8, 0x74][..], &[0xFC, 0x3B], &[0xFC, 0xF4, 0x70], &[0x7C], &[0xFC, 0x7D]]);
    let mut d = vec![0x02];
    d.push(vifs[0]);
    if crate::pbe() {
        d.push(t.len() as u8);
        d.extend(&t);
        d.extend(&vifs[1..]);
    } else {
        d.extend(&vifs[1..]);
        d.push(t.len() as u8);
        d.extend(&t);
    }
    d.extend([0x39, 0x30, 0x01, 0x13, 0x05]);
    recs(ch, &d)
}

fn c17_lvar(ch: &mut Ch) -> Res {
    let l = ch.byte();
    let vif = ch.of(&[0x13u8, 0x79, 0x7F]);
    let k = ch.n(3);
    let n = if ch.flag() { 200 } else { ch.n(20) };
    let mut d = vec![0x0D, vif, l];
    d.extend(match k {
        0 => (0..n).map(|i| 0x30 + (i % 64) as u8).collect(),
        1 => vec![0x21; n],
        _ => gen::pattern(n, 1),
    });
    recs(ch, &d)
}

fn framed(ch: &mut Ch, p: &[u8]) -> Vec<u8> {
    if ch.flag() {
        gen::long(0x08, 1, p)
    } else {
        gen::wireless(&LINK, p)
    }
}

fn c17_pairs(ch: &mut Ch) -> Res {
    let h = ch.of(&super::ann::clear_headers());
    let mut p = h;
    p.extend(gen::any_record(ch));
    p.extend(gen::between(ch));
    p.extend(gen::any_record(ch));
    let d = framed(ch, &p);
    if sec::crc_by_chance(&d) {
        return refused(&"crc");
    }
    check(ch, &d, None)
}

fn c17_cut(ch: &mut Ch) -> Res {
    let mut r = gen::any_record(ch);
    r.extend(gen::any_record(ch));
    let cut = ch.n(r.len() + 1);
    recs(ch, &r[..cut])
}

fn c17_slave(ch: &mut Ch) -> Res {
    let i = ch.n(10);
    let mut p = super::link::headers()[i % 9 + if i >= 8 { 2 } else { 0 }].clone();
    p.extend([0x01, 0x13, 0x05]);
    let mut l = LINK.clone();
    let at = ch.n(p.len() + 9);
    let v = ch.byte();
    if at < p.len() {
        p[at] = v;
    } else {
        match at - p.len() {
            0 => l.c = v,
            1 => l.mfr[0] = v,
            2 => l.mfr[1] = v,
            3..=6 => l.id[at - p.len() - 3] = v,
            7 => l.version = v,
            _ => l.device = v,
        }
    }
    let d = if ch.flag() { gen::long(0x08, 1, &p) } else { gen::wireless(&l, &p) };
    if sec::crc_by_chance(&d) {
        return refused(&"crc");
    }
    check(ch, &d, None)
}

fn c17_product(ch: &mut Ch) -> Res {
    let mut names: Vec<&str> = PRODUCTS.iter().map(|p| p.0).collect();
    names.dedup();
    names.extend(["ABC", "ZZZ", "HYE", "SEP"]);
    let m = ch.of(&names);
    let id = m.bytes().fold(0u16, |a, c| a << 5 | u16::from(c - 64));
    let version = ch.byte();
    let device = ch.of(&[0x02u8, 0x06, 0x0F, 0x07]);
    let top = ch.of(&[0x12u8, 0x10, 0x19, 0x11, 0x30, 0x41, 0x45, 0x48, 0x51, 0x61, 0x80, 0x00, 0x99]);
    if ch.flag() {
        let l = gen::Link { mfr: id.to_le_bytes(), version, device, id: [0x78, 0x56, 0x34, top], ..LINK.clone() };
        return check(ch, &gen::wireless(&l, &[0x78]), None);
    }
    let mut p = gen::long_tpl(0x72, 0);
    p[4] = top;
    p[5..7].copy_from_slice(&id.to_le_bytes());
    p[7] = version;
    p[8] = device;
    check(ch, &gen::long(0x08, 1, &p), None)
}

fn c17_fixed(ch: &mut Ch) -> Res {
    let ci = ch.of(&[0x73u8, 0x77]);
    let mut p = vec![ci, 0x78, 0x56, 0x34, 0x02, 0x0A, 0x00, 0xE9, 0x7E, 0x01, 0x23, 0x00, 0x00, 0x35, 0x01, 0x90, 0x00];
    if ch.flag() {
        p[7] = ch.byte();
        p[8] = ch.byte();
        p[6] = ch.of(&[0x00u8, 0x40]);
    } else {
        let at = 1 + ch.n(16);
        p[at] = ch.byte();
    }
    let d = framed(ch, &p);
    if sec::crc_by_chance(&d) {
        return refused(&"crc");
    }
    check(ch, &d, None)
}

fn c17_ci(ch: &mut Ch) -> Res {
    let ci = ch.byte();
    let n = ch.n(20);
    let mut p = vec![ci];
    p.extend(match ch.n(3) {
        0 => vec![0; n],
        1 => gen::pattern(n, 7),
        _ => vec![0x22; n],
    });
    let k = ch.n(5);
    let d = if k == 4 { gen::long(0x08, 1, &p) } else { super::link::framing(k, &gen::wireless(&LINK, &p)) };
    if sec::crc_by_chance(&d) && k != 2 {
        return refused(&"crc");
    }
    let key = ch.flag().then_some(KEY);
    check(ch, &d, key)
}

fn c17_frames(ch: &mut Ch) -> Res {
    let d: Vec<u8> = match ch.n(3) {
        0 => (0..ch.n(3)).map(|_| ch.byte()).collect(),
        1 => {
            let mut d = ch.of(&super::table::telegrams());
            let n = ch.n(d.len().min(200) + 1);
            d.truncate(n);
            d
        }
        _ => match ch.n(3) {
            0 => gen::short(ch.byte(), ch.of(&[0u8, 1, 0xFE])),
            1 => gen::long(ch.byte(), 1, &[]),
            _ => gen::long(ch.byte(), 1, &[0x72]),
        },
    };
    if sec::crc_by_chance(&d) {
        return refused(&"crc");
    }
    check(ch, &d, None)
}

fn c17_security(ch: &mut Ch) -> Res {
    let k = ch.of(&sec::ALL);
    let mode = ch.n(32) as u16;
    let blocks = ch.of(&[0u16, 1, 2, 15]);
    let n = 16 * ch.n(4);
    let cfg = mode << 8 | blocks << 4;
    let d = sec::sealed(k, &METER, cfg, &sec::plaintext(n), ch.n(3));
    if sec::crc_by_chance(&d) {
        return refused(&"crc");
    }
    let key = ch.of(&[None, Some(KEY), Some([0x11; 16])]);
    check(ch, &d, key)
}

fn c17_mutate(ch: &mut Ch) -> Res {
    let h = ch.of(&super::link::headers());
    let mut p = h;
    p.extend([0x42, 0x6C, 0xBF, 0x1C, 0x8C, 0x10, 0x78, 0x78, 0x56, 0x34, 0x12, 0x0D, 0xFD, 0x11, 0x02, b'<', b'&', 0x0F, 0x01]);
    let at = ch.n(p.len());
    p[at] = ch.byte();
    let d = framed(ch, &p);
    if sec::crc_by_chance(&d) {
        return refused(&"crc");
    }
    let key = ch.flag().then_some(KEY);
    check(ch, &d, key)
}

fn c17_tail(ch: &mut Ch) -> Res {
    let mut p = gen::long_tpl(0x72, 0);
    p.extend(gen::tail(ch, 225));
    let d = framed(ch, &p);
    if sec::crc_by_chance(&d) {
        return refused(&"crc");
    }
    check(ch, &d, None)
}

fn c17_readings(ch: &mut Ch) -> Res {
    let p = gen::reading(ch);
    recs(ch, &p)
}

fn c17_opened(ch: &mut Ch) -> Res {
    let (d, key) = sec::any_sealed(ch, true);
    if sec::crc_by_chance(&d) {
        return refused(&"crc");
    }
    check(ch, &d, key)
}
