//! Value information tables (EN 13757-3), written out by hand. Each entry gives the quantity
//! names, the unit factors and the power of ten of one code.

/// (symbol, exponent)
pub type U = (&'static str, i8);

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Vi {
    pub labels: Vec<&'static str>,
    pub units: Vec<U>,
    pub scale: i32,
    pub offsets: Vec<i32>,
    /// more labels or units than the decoder is documented to hold
    pub overflow: bool,
}

fn e(labels: &[&'static str], units: &[U], scale: i32) -> Vi {
    Vi { labels: labels.to_vec(), units: units.to_vec(), scale, offsets: vec![], overflow: false }
}

const TIME4: [U; 4] = [("s", 1), ("min", 1), ("h", 1), ("d", 1)];
const LONG4: [U; 4] = [("h", 1), ("d", 1), ("mo", 1), ("a", 1)];

/// Primary VIF, 7 bits. None: not supported, reported as an error.
pub fn primary(code: u8) -> Option<Vi> {
    let n3 = i32::from(code & 7);
    let n2 = i32::from(code & 3);
    let t = TIME4[usize::from(code & 3)];
    Some(match code {
        0x00..=0x07 => e(&["Energy"], &[("W", 1), ("h", 1)], n3 - 3),
        0x08..=0x0F => e(&["Energy"], &[("J", 1)], n3),
        0x10..=0x17 => e(&["Volume"], &[("m", 3)], n3 - 6),
        0x18..=0x1F => e(&["Mass"], &[("kg", 1)], n3 - 3),
        0x20..=0x23 => e(&["On time"], &[t], 0),
        0x24..=0x27 => e(&["Operating time"], &[t], 0),
        0x28..=0x2F => e(&["Power"], &[("W", 1)], n3 - 3),
        0x30..=0x37 => e(&["Power"], &[("J", 1), ("h", -1)], n3),
        0x38..=0x3F => e(&["Volume flow"], &[("m", 3), ("h", -1)], n3 - 6),
        0x40..=0x47 => e(&["Volume flow"], &[("m", 3), ("min", -1)], n3 - 7),
        0x48..=0x4F => e(&["Volume flow"], &[("m", 3), ("s", -1)], n3 - 9),
        0x50..=0x57 => e(&["Mass flow"], &[("kg", 1), ("h", -1)], n3 - 3),
        0x58..=0x5B => e(&["Flow temperature"], &[("C", 1)], n2 - 3),
        0x5C..=0x5F => e(&["Return temperature"], &[("C", 1)], n2 - 3),
        0x60..=0x63 => e(&["Temperature difference"], &[("K", 1)], n2 - 3),
        0x64..=0x67 => e(&["External temperature"], &[("C", 1)], n2 - 3),
        0x68..=0x6B => e(&["Pressure"], &[("bar", 1)], n2 - 3),
        0x6C => e(&["Time point (date)"], &[], 0),
        0x6D => e(&["Time point (date and time)"], &[], 0),
        0x6E => e(&["Dimensionless HCA"], &[], 0),
        0x70..=0x73 => e(&["Averaging duration"], &[t], 0),
        0x74..=0x77 => e(&["Actuality duration"], &[t], 0),
        0x78 => e(&["Fabrication number"], &[], 0),
        0x79 => e(&["Enhanced identification"], &[], 0),
        0x7A => e(&["Address"], &[], 0),
        0x7B => e(&[], &[], 0),
        _ => return None,
    })
}

/// First extension of VIF FD.
pub fn fd(code: u8) -> Vi {
    let n4 = i32::from(code & 15);
    let n2 = i32::from(code & 3);
    let l = |s: &'static str| e(&[s], &[], 0);
    match code {
        0x00..=0x03 => e(&["Credit"], &[("$", 1)], n2 - 3),
        0x04..=0x07 => e(&["Debit"], &[("$", 1)], n2 - 3),
        0x08 => l("Unique message identification or access number"),
        0x09 => l("Device type"),
        0x0A => l("Manufacturer"),
        0x0B => l("Parameter set identification"),
        0x0C => l("Model or version"),
        0x0D => l("Hardware version"),
        0x0E => l("Metrology firmware version"),
        0x0F => l("Other software version"),
        0x10 => l("Customer location"),
        0x11 => l("Customer"),
        0x12 => l("Access code user"),
        0x13 => l("Access code operator"),
        0x14 => l("Access code system operator"),
        0x15 => l("Access code developer"),
        0x16 => l("Password"),
        0x17 => l("Error flags"),
        0x18 => l("Error mask"),
        0x19 => l("Security key"),
        0x1A => e(&["Digital output", "Binary"], &[], 0),
        0x1B => e(&["Digital input", "Binary"], &[], 0),
        0x1C => e(&["Baud rate"], &[("symbol", 1), ("s", -1)], 0),
        0x1D => e(&["Response delay time"], &[("bittime", 1)], 0),
        0x1E => l("Retry"),
        0x1F => l("Remote control"),
        0x20 => l("First storage for cycle storage"),
        0x21 => l("Last storage for cycle storage"),
        0x22 => l("Size of storage block"),
        0x23 => l("Description of tariff and subunit"),
        0x24..=0x27 => e(&["Storage interval"], &[TIME4[usize::from(code & 3)]], 0),
        0x28 => e(&["Storage interval"], &[("mo", 1)], 0),
        0x29 => e(&["Storage interval"], &[("a", 1)], 0),
        0x30 => l("Dimensionless HCA"),
        0x31 => l("Data container for wireless M-Bus protocol"),
        0x32..=0x35 => e(&["Period of normal data transmission"], &[TIME4[usize::from(code - 0x32)]], 0),
        0x3A => l("Dimensionless"),
        0x40..=0x4F => e(&["Voltage"], &[("V", 1)], n4 - 9),
        0x50..=0x5F => e(&["Current"], &[("A", 1)], n4 - 12),
        0x60 => l("Reset counter"),
        0x61 => l("Cumulation counter"),
        0x62 => l("Control signal"),
        0x63 => l("Day of week"),
        0x64 => l("Week number"),
        0x65 => l("Time point of change of tariff"),
        0x66 => l("State of parameter activation"),
        0x67 => l("Special supplier information"),
        0x68..=0x6B => e(&["Duration since last cumulation"], &[LONG4[usize::from(code & 3)]], 0),
        0x6C..=0x6F => e(&["Operating time battery"], &[LONG4[usize::from(code & 3)]], 0),
        0x70 => l("Date and time of battery change"),
        0x71 => e(&["RF power level"], &[("dBmW", 1)], 0),
        0x72 => l("Daylight saving beginning ending deviation"),
        0x73 => l("Listening window management data"),
        0x74 => e(&["Remaining battery life time"], &[("d", 1)], 0),
        0x75 => l("Number of times the meter was stopped"),
        0x76 => l("Data container for manufacturer specific protocol"),
        _ => l("Reserved"),
    }
}

/// Second-level extension FD FD.
pub fn fdfd(code: u8) -> Vi {
    match code {
        0x00 => e(&["Currently selected application"], &[], 0),
        0x02 => e(&["Remaining battery life time"], &[("mo", 1)], 0),
        0x03 => e(&["Remaining battery life time"], &[("a", 1)], 0),
        0x3E => e(&["Moisture level"], &[("%", 1)], 0),
        _ => e(&["Reserved"], &[], 0),
    }
}

/// First extension of VIF FB.
pub fn fb(code: u8) -> Vi {
    let n1 = i32::from(code & 1);
    let n2 = i32::from(code & 3);
    let n3 = i32::from(code & 7);
    match code {
        0x00 | 0x01 => e(&["Energy"], &[("W", 1), ("h", 1)], 5 + n1),
        0x02 | 0x03 => e(&["Reactive energy"], &[("var", 1), ("h", 1)], 3 + n1),
        0x04 | 0x05 => e(&["Apparent energy"], &[("VA", 1), ("h", 1)], 3 + n1),
        0x06 => e(&["Coefficient of performance"], &[], -1),
        0x08 | 0x09 => e(&["Energy"], &[("J", 1)], 8 + n1),
        0x0C..=0x0F => e(&["Energy"], &[("cal", 1)], 5 + n2),
        0x10 | 0x11 => e(&["Volume"], &[("m", 3)], 2 + n1),
        0x14..=0x17 => e(&["Reactive power"], &[("var", 1)], n2),
        0x18 | 0x19 => e(&["Mass"], &[("t", 1)], 2 + n1),
        0x1A | 0x1B => e(&["Relative humidity"], &[("%", 1)], n1 - 1),
        0x20 => e(&["Volume"], &[("ft", 3)], 0),
        0x21 => e(&["Volume"], &[("ft", 3)], -1),
        0x23 => e(&["Phase I-to-U"], &[("deg", 1)], -1),
        0x28 | 0x29 => e(&["Power"], &[("W", 1)], 5 + n1),
        0x2A => e(&["Phase U-to-U"], &[("deg", 1)], -1),
        0x2B => e(&["Phase U-to-I"], &[("deg", 1)], -1),
        0x2C..=0x2F => e(&["Frequency"], &[("Hz", 1)], n2 - 3),
        0x30 | 0x31 => e(&["Power"], &[("J", 1), ("h", -1)], 8 + n1),
        0x34..=0x37 => e(&["Apparent power"], &[("VA", 1)], n2),
        0x58..=0x5B => e(&["Flow temperature"], &[("F", 1)], n2 - 3),
        0x5C..=0x5F => e(&["Return temperature"], &[("F", 1)], n2 - 3),
        0x60..=0x63 => e(&["Temperature difference"], &[("F", 1)], n2 - 3),
        0x64..=0x67 => e(&["External temperature"], &[("F", 1)], n2 - 3),
        0x68 => e(&["Resulting rating factor"], &[("hca", 1)], 0),
        0x69 => e(&["Thermal output rating factor"], &[("hca", 1)], 0),
        0x6A => e(&["Thermal coupling rating factor overall"], &[("hca", 1)], 0),
        0x6B => e(&["Thermal coupling rating room side"], &[("hca", 1)], 0),
        0x6C => e(&["Thermal coupling rating factor heating side"], &[("hca", 1)], 0),
        0x6D => e(&["Low temperature rating factor"], &[("hca", 1)], 0),
        0x6E => e(&["Display output scaling factor"], &[("hca", 1)], 0),
        0x70..=0x73 => e(&["Cold warm temperature limit"], &[("F", 1)], n2 - 3),
        0x74..=0x77 => e(&["Cold warm temperature limit"], &[("C", 1)], n2 - 3),
        0x78..=0x7F => e(&["Cumulative maximum of active power"], &[("W", 1)], n3 - 3),
        _ => e(&["Reserved"], &[], 0),
    }
}

/// Combinable (orthogonal) VIFE, 7 bits. The additive corrections are in `offsets`.
pub fn orthogonal(code: u8) -> Vi {
    let l = |s: &'static str| e(&[s], &[], 0);
    let u = |units: &[U]| e(&[], units, 0);
    let t = TIME4[usize::from(code & 3)];
    match code {
        0x00..=0x0F => l("Reserved for object actions"),
        0x12 => l("Averaged"),
        0x13 => l("Inverse compact profile"),
        0x14 => l("Relative deviation"),
        0x15..=0x1C => l("Record error codes"),
        0x1D => l("Standard conform data content"),
        0x1E => l("Compact profile with register numbers"),
        0x1F => l("Compact profile"),
        0x20 => u(&[("s", -1)]),
        0x21 => u(&[("min", -1)]),
        0x22 => u(&[("h", -1)]),
        0x23 => u(&[("d", -1)]),
        0x24 => u(&[("wk", -1)]),
        0x25 => u(&[("mo", -1)]),
        0x26 => u(&[("a", -1)]),
        0x27 => u(&[("rev", -1)]),
        0x28 => u(&[("inc", 1), ("ip0", -1)]),
        0x29 => u(&[("inc", 1), ("ip1", -1)]),
        0x2A => u(&[("inc", 1), ("op0", -1)]),
        0x2B => u(&[("inc", 1), ("op1", -1)]),
        0x2C => u(&[("l", -1)]),
        0x2D => u(&[("m", -3)]),
        0x2E => u(&[("kg", -1)]),
        0x2F => u(&[("K", -1)]),
        0x30 => e(&[], &[("W", -1), ("h", -1)], -3),
        0x31 => e(&[], &[("J", -1)], -9),
        0x32 => e(&[], &[("W", -1)], -3),
        0x33 => u(&[("K", -1), ("l", -1)]),
        0x34 => u(&[("V", -1)]),
        0x35 => u(&[("A", -1)]),
        0x36 => u(&[("s", 1)]),
        0x37 => u(&[("s", 1), ("V", -1)]),
        0x38 => u(&[("s", 1), ("A", -1)]),
        0x39 => l("Start date of"),
        0x3A => l("VIF contains uncorrected unit or value"),
        0x3B => l("Accumulation only if value is positive"),
        0x3C => l("Accumulation only if value is negative"),
        0x3D => l("Non metric units"),
        0x3E => l("Value at base conditions"),
        0x3F => l("OBIS declaration"),
        0x40 => l("Lower limit value"),
        0x41 => l("Number of exceeds of lower limit value"),
        0x42 => l("Date of begin first lower limit exceed"),
        0x43 => l("Date of end first lower limit exceed"),
        0x46 => l("Date of begin last lower limit exceed"),
        0x47 => l("Date of end last lower limit exceed"),
        0x48 => l("Upper limit value"),
        0x49 => l("Number of exceeds of upper limit value"),
        0x4A => l("Date of begin first upper limit exceed"),
        0x4B => l("Date of end first upper limit exceed"),
        0x4E => l("Date of begin last upper limit exceed"),
        0x4F => l("Date of end last upper limit exceed"),
        0x50..=0x53 => e(&["Duration of first lower limit exceed"], &[t], 0),
        0x54..=0x57 => e(&["Duration of last lower limit exceed"], &[t], 0),
        0x58..=0x5B => e(&["Duration of first upper limit exceed"], &[t], 0),
        0x5C..=0x5F => e(&["Duration of last upper limit exceed"], &[t], 0),
        0x60..=0x63 => e(&["Duration of first"], &[t], 0),
        0x64..=0x67 => e(&["Duration of last"], &[t], 0),
        0x68 => l("Value during lower value exceed"),
        0x69 => l("Leakage values"),
        0x6A => l("Date of begin first"),
        0x6B => l("Date of end first"),
        0x6C => l("Value during upper value exceed"),
        0x6D => l("Overflow values"),
        0x6E => l("Date of begin last"),
        0x6F => l("Date of end last"),
        0x70..=0x77 => e(&[], &[], i32::from(code & 7) - 6),
        0x78..=0x7B => Vi { offsets: vec![i32::from(code & 3) - 3], ..Vi::default() },
        0x7D => e(&[], &[], 3),
        0x7E => l("Future value"),
        0x7F => l("Next VIFE and data of this block are manufacturer specific"),
        _ => l("Reserved"),
    }
}

/// VIFE following VIFE FC.
pub fn fc(code: u8) -> Vi {
    let l = |s: &'static str| e(&[s], &[], 0);
    match code {
        0x01 => l("At phase L1"),
        0x02 => l("At phase L2"),
        0x03 => l("At phase L3"),
        0x04 => l("At neutral"),
        0x05 => l("Between phases L1 L2"),
        0x06 => l("Between phases L2 L3"),
        0x07 => l("Between phases L3 L1"),
        0x08 => l("At quadrant1"),
        0x09 => l("At quadrant2"),
        0x0A => l("At quadrant3"),
        0x0B => l("At quadrant4"),
        0x0C => l("Delta between import and export"),
        0x0D => l("Alternative non metric units"),
        0x0E => l("Secondary sensor measurement"),
        0x0F => l("Higher resolution register"),
        0x10 => l("Accumulation of absolute value both positive and negative contribution"),
        0x11 => l("Data presented with type C"),
        0x12 => l("Data presented with type D"),
        0x13 => l("End date"),
        0x14 => l("Direction from communication partner to meter"),
        0x15 => l("Direction from meter to communication partner"),
        _ => l("Reserved"),
    }
}

/// Meaning of a complete VIF + VIFE chain. None: the code is reported as unsupported.
pub fn chain(vif: u8, vifes: &[u8]) -> Option<Vi> {
    let (mut v, rest) = match vif {
        0x7C | 0xFC => (e(&["Plain text"], &[], 0), vifes),
        0x7E | 0x7F | 0xFE | 0xFF => return Some(e(&["Manufacturer specific"], &[], 0)),
        0x7D => return None,
        0xFD => match (vifes.first()? & 0x7F, vifes.get(1)) {
            (0x7D, Some(second)) => (fdfd(second & 0x7F), &vifes[2..]),
            (code, _) => (fd(code), &vifes[1..]),
        },
        0xFB => (fb(vifes.first()? & 0x7F), &vifes[1..]),
        _ => (primary(vif & 0x7F)?, vifes),
    };
    let mut extension = false;
    for b in rest {
        if v.labels.len() >= 10 || v.units.len() > 8 {
            v.overflow = true;
        }
        if extension {
            extension = false;
            add(&mut v, fc(b & 0x7F));
        } else if *b == 0xFC {
            extension = true;
        } else {
            add(&mut v, orthogonal(b & 0x7F));
            if b & 0x7F == 0x7F {
                break; // the rest is manufacturer specific
            }
        }
    }
    Some(v)
}

fn add(v: &mut Vi, m: Vi) {
    v.labels.extend(m.labels);
    v.units.extend(m.units);
    v.scale += m.scale;
    v.offsets.extend(m.offsets);
}

fn ucum(s: &str) -> Option<&'static str> {
    Some(match s {
        "W" => "W",
        "J" => "J",
        "kg" => "kg",
        "t" => "t",
        "m" => "m",
        "ft" => "[ft_i]",
        "C" => "Cel",
        "K" => "K",
        "bar" => "bar",
        "s" => "s",
        "min" => "min",
        "h" => "h",
        "d" => "d",
        "wk" => "wk",
        "mo" => "mo",
        "a" => "a",
        "l" => "L",
        "V" => "V",
        "A" => "A",
        "%" => "%",
        "Hz" => "Hz",
        "F" => "[degF]",
        "cal" => "cal",
        _ => return None,
    })
}

pub fn display(s: &str) -> &'static str {
    match s {
        "W" => "W",
        "var" => "W (reactive)",
        "VA" => "W (apparent)",
        "J" => "J",
        "kg" => "Kg",
        "t" => "t",
        "m" => "m",
        "ft" => "ft",
        "C" => "°C",
        "K" => "°K",
        "bar" => "Bar",
        "s" => "s",
        "min" => "min",
        "h" => "h",
        "d" => "day",
        "wk" => "week",
        "mo" => "month",
        "a" => "year",
        "rev" => "revolution",
        "inc" => "increment",
        "ip0" => "InputPulseOnChannel0",
        "op0" => "OutputPulseOnChannel0",
        "ip1" => "InputPulseOnChannel1",
        "op1" => "OutputPulseOnChannel1",
        "l" => "l",
        "V" => "V",
        "A" => "A",
        "$" => "$ (local)",
        "symbol" => "Symbol",
        "bittime" => "BitTime",
        "dBmW" => "dBmW",
        "%" => "%",
        "deg" => "°",
        "Hz" => "Hz",
        "hca" => "HCAUnit",
        "F" => "°F",
        "cal" => "cal",
        other => panic!("unit {other}"),
    }
}

/// Unit text of the canonical output: UCUM when every factor has a UCUM symbol.
pub fn unit_text(units: &[U]) -> Option<String> {
    if units.is_empty() {
        return None;
    }
    let all: Option<Vec<String>> = units.iter().map(|(s, x)| ucum(s).map(|u| if *x == 1 { u.to_string() } else { format!("{u}{x}") })).collect();
    Some(match all {
        Some(v) => v.join("."),
        None => unit_print(units),
    })
}

/// Units as the legacy formats print them.
pub fn unit_print(units: &[U]) -> String {
    let sup = ['⁰', '¹', '²', '³', '⁴', '⁵', '⁶', '⁷', '⁸', '⁹'];
    let mut o = String::new();
    for (s, x) in units {
        o.push_str(display(s));
        if *x < 0 {
            o.push('⁻');
        }
        if *x != 1 {
            o.push(sup[usize::from(x.unsigned_abs())]);
        }
    }
    o
}
