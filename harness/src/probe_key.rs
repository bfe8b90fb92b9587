//! What the decryption interfaces make of application data, as text; compiled into the checker and
//! into a library without the standard library's interfaces.

use m_bus_core::decryption::StaticKeyProvider;
use m_bus_core::{DeviceType, ManufacturerCode};
use m_bus_parser::user_data::{DataRecords, UserDataBlock};
use std::fmt::Write;

pub fn open(d: &[u8], mfr: u16, id: u32, version: u8, device: u8, key: [u8; 16], size: usize) -> String {
    let mut s = String::new();
    let mut store = StaticKeyProvider::<2>::new();
    let _ = writeln!(s, "added {:?}", store.add_key(mfr, id, key));
    let block = match UserDataBlock::try_from(d) {
        Ok(b) => b,
        Err(e) => return format!("{s}{e:?}"),
    };
    let Ok(man) = ManufacturerCode::from_id(mfr) else {
        return s;
    };
    for context in [false, true] {
        let mut buf = vec![0u8; size];
        let r = if context {
            block.decrypt_variable_data_with_context(&store, man, id, version, DeviceType::from(device), &mut buf)
        } else {
            block.decrypt_variable_data(&store, &mut buf)
        };
        let _ = writeln!(s, "{r:?} {buf:?}");
        if let Ok(data) = r.map(|n| &buf[..n.min(size)]) {
            for r in DataRecords::from(data) {
                let _ = writeln!(s, "  {r:?}");
            }
        }
    }
    s
}
