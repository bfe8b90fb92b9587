//! What the output interfaces make of some bytes, as text; compiled into the checker and into a
//! library without decryption.

use m_bus_parser::{decode_bytes, decode_data_records, render_bytes, serialize_mbus_data, DecodeOptions, OutputFormat, RenderOptions};
use std::fmt::Write;

pub const FORMATS: [OutputFormat; 8] = [
    OutputFormat::Table,
    OutputFormat::Json,
    OutputFormat::Yaml,
    OutputFormat::Csv,
    OutputFormat::Mermaid,
    OutputFormat::Xml,
    OutputFormat::Annotated,
    OutputFormat::AnnotatedText,
];
pub const LEGACY: [&str; 5] = ["json-legacy", "yaml-legacy", "csv-wide", "annotated-legacy", "hexview-legacy"];
/// number of questions `ask` answers
pub const WHAT: u8 = 15;

/// Output number `what` of the bytes; errors begin with '!' and their code.
pub fn ask(what: u8, d: &[u8], key: Option<[u8; 16]>) -> String {
    let decode = DecodeOptions { key, include_enrichment: false };
    let what = what as usize;
    if let Some(f) = FORMATS.get(what) {
        return match render_bytes(d, *f, &RenderOptions { decode, table_width: None }) {
            Ok(t) => t,
            Err(e) => format!("!{} {}", e.code(), e.layer()),
        };
    }
    if let Some(f) = LEGACY.get(what - FORMATS.len()) {
        let hex: String = d.iter().fold(String::new(), |mut s, b| {
            let _ = write!(s, "{b:02X}");
            s
        });
        return serialize_mbus_data(&hex, f, key.as_ref());
    }
    match what - FORMATS.len() - LEGACY.len() {
        0 => match decode_bytes(d, &decode) {
            Ok(o) => format!("{o:?}"),
            Err(e) => format!("!{} {}", e.code(), e.layer()),
        },
        _ => match decode_data_records(d) {
            Ok(r) => format!("{r:?}"),
            Err(e) => format!("!{} {}", e.code(), e.layer()),
        },
    }
}
