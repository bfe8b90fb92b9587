//! What the interfaces that need no feature make of some bytes, as text. This file is compiled into
//! the checker and into the libraries built with other features (see harness-bare, harness-plain).

use m_bus_parser::mbus_data::MbusData;
use m_bus_parser::user_data::data_information::{DataInformation, DataInformationBlock};
use m_bus_parser::user_data::data_record::{DataRecord, DataRecordHeader, RawDataRecordHeader};
use m_bus_parser::user_data::extended_link_layer::{EllFormat, ExtendedLinkLayer};
use m_bus_parser::user_data::value_information::{ValueInformation, ValueInformationBlock};
use m_bus_parser::user_data::{self, DataRecords, UserDataBlock};
use m_bus_parser::{WiredFrame, WirelessFrame};
use std::fmt::{Debug, Write};

fn list<T: Debug, E: Debug>(s: &mut String, it: impl Iterator<Item = Result<T, E>>) {
    for r in it.take(4096) {
        let _ = writeln!(s, "  {r:?}");
    }
}

/// Bytes of a telegram through the link layers and everything above them.
fn telegram(s: &mut String, d: &[u8]) {
    let _ = writeln!(s, "wired {:?}", WiredFrame::try_from(d));
    match MbusData::<WiredFrame>::try_from(d) {
        Ok(m) => {
            let _ = writeln!(s, "data {:?} {:?} {:?}", m.frame, m.user_data, m.application_error);
            if let Some(r) = m.data_records {
                list(s, r);
            }
        }
        Err(e) => drop(writeln!(s, "data {e:?}")),
    }
    let mut b = vec![0u8; d.len()];
    let plain = wireless_mbus_link_layer::strip_format_a_crcs(d, &mut b);
    let _ = writeln!(s, "stripped {plain:?} {:?}", wireless_mbus_link_layer::trailing_frame_crc_start(d));
    let plain = plain.unwrap_or(d);
    let _ = writeln!(s, "wireless {:?}", WirelessFrame::try_from(plain));
    match MbusData::<WirelessFrame>::try_from(plain) {
        Ok(m) => {
            let _ = writeln!(s, "data {:?} {:?} {:?}", m.frame, m.user_data, m.application_error);
            if let Some(r) = m.data_records {
                list(s, r);
            }
        }
        Err(e) => drop(writeln!(s, "data {e:?}")),
    }
}

/// Application data through the layers below the telegram.
fn application(s: &mut String, d: &[u8]) {
    match UserDataBlock::try_from(d) {
        Ok(b) => {
            let _ = writeln!(s, "block {b:?} {} {:?}", b.variable_data_len(), b.is_encrypted());
            if let Some(r) = b.data_records() {
                list(s, r);
            }
        }
        Err(e) => drop(writeln!(s, "block {e:?}")),
    }
    let _ = writeln!(s, "records");
    list(s, DataRecords::from(d));
    let _ = writeln!(s, "parsed");
    list(s, user_data::parse_data_records(d));
    let _ = writeln!(s, "one {:?}", DataRecord::try_from(d));
    let _ = writeln!(s, "header {:?} {:?}", DataRecordHeader::try_from(d), RawDataRecordHeader::try_from(d));
    match DataInformationBlock::try_from(d) {
        Ok(b) => drop(writeln!(s, "dib {b:?} {} {:?}", b.get_size(), DataInformation::try_from(&b))),
        Err(e) => drop(writeln!(s, "dib {e:?}")),
    }
    match ValueInformationBlock::try_from(d) {
        Ok(b) => drop(writeln!(s, "vib {b:?} {} {:?}", b.get_size(), ValueInformation::try_from(&b))),
        Err(e) => drop(writeln!(s, "vib {e:?}")),
    }
    for f in [EllFormat::FormatI, EllFormat::FormatII, EllFormat::FormatIII] {
        let _ = writeln!(s, "ell {:?}", ExtendedLinkLayer::parse(d, f));
    }
}

pub fn ask(what: u8, d: &[u8]) -> String {
    let mut s = String::new();
    match what {
        0 => telegram(&mut s, d),
        _ => application(&mut s, d),
    }
    s
}
