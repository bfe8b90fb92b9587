From 32ebc4dbe65677ec712eccd4beba4c7531a22b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:12 +0000
Subject: [PATCH 01/63] fix: report truncated wired frames instead of
 underflowing in the checksum

---
 crates/wired-mbus-link-layer/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wired-mbus-link-layer/src/lib.rs b/crates/wired-mbus-link-layer/src/lib.rs
index 8b6743a..674593a 100644
--- a/crates/wired-mbus-link-layer/src/lib.rs
+++ b/crates/wired-mbus-link-layer/src/lib.rs
@@ -127,7 +127,7 @@ impl<'a> TryFrom<&'a [u8]> for WiredFrame<'a> {
 
 fn validate_checksum(data: &[u8]) -> Result<(), FrameError> {
     // Assuming the checksum is the second to last byte in the data array.
-    let checksum_byte_index = data.len() - 2;
+    let checksum_byte_index = data.len().checked_sub(2).ok_or(FrameError::LengthShort)?;
     let checksum_byte = *data
         .get(checksum_byte_index)
         .ok_or(FrameError::LengthShort)?;
-- 
2.43.0


From a0e8be3b69779913fa0a10e566c481e29649e0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:46 +0000
Subject: [PATCH 02/63] fix: reject long frames whose second start byte is not
 0x68

---
 crates/wired-mbus-link-layer/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/wired-mbus-link-layer/src/lib.rs b/crates/wired-mbus-link-layer/src/lib.rs
index 674593a..7a7f436 100644
--- a/crates/wired-mbus-link-layer/src/lib.rs
+++ b/crates/wired-mbus-link-layer/src/lib.rs
@@ -83,6 +83,9 @@ impl<'a> TryFrom<&'a [u8]> for WiredFrame<'a> {
 
         match first_byte {
             0x68 => {
+                if *data.get(3).ok_or(FrameError::LengthShort)? != 0x68 {
+                    return Err(FrameError::InvalidStartByte);
+                }
                 validate_checksum(data.get(4..).ok_or(FrameError::LengthShort)?)?;
 
                 let length = *data.get(1).ok_or(FrameError::LengthShort)? as usize;
-- 
2.43.0


From fbb5064429f639ef58ba712a1dab9cdb000e9ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:46 +0000
Subject: [PATCH 03/63] fix: treat 0xE5 as an acknowledgement only when it is
 the whole frame

A wireless telegram whose L-field is 0xE5 was reported as a wired
single-character frame and its content was dropped.
---
 crates/wired-mbus-link-layer/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wired-mbus-link-layer/src/lib.rs b/crates/wired-mbus-link-layer/src/lib.rs
index 7a7f436..ebc65b0 100644
--- a/crates/wired-mbus-link-layer/src/lib.rs
+++ b/crates/wired-mbus-link-layer/src/lib.rs
@@ -74,7 +74,7 @@ impl<'a> TryFrom<&'a [u8]> for WiredFrame<'a> {
     fn try_from(data: &'a [u8]) -> Result<Self, FrameError> {
         let first_byte = *data.first().ok_or(FrameError::EmptyData)?;
 
-        if first_byte == 0xE5 {
+        if first_byte == 0xE5 && data.len() == 1 {
             return Ok(WiredFrame::SingleCharacter { character: 0xE5 });
         }
 
-- 
2.43.0


From b727f5cae52be541b21d681c67b3dc1893392c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:20 +0000
Subject: [PATCH 04/63] fix: reject Format A telegrams with a corrupted data
 block

A block whose CRC did not verify was copied together with its CRC and the
L-field was overwritten to match, so damaged telegrams were decoded.
---
 crates/wireless-mbus-link-layer/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/wireless-mbus-link-layer/src/lib.rs b/crates/wireless-mbus-link-layer/src/lib.rs
index c3b5652..f4767c9 100644
--- a/crates/wireless-mbus-link-layer/src/lib.rs
+++ b/crates/wireless-mbus-link-layer/src/lib.rs
@@ -52,9 +52,11 @@ pub fn strip_format_a_crcs<'a>(data: &[u8], output: &'a mut [u8]) -> Option<&'a
     output[..10].copy_from_slice(&data[..10]);
 
     let mut pos = 12;
+    let mut all_blocks_checked = true;
     while pos < data.len() {
         let remaining = data.len() - pos;
         if remaining < 3 {
+            all_blocks_checked = false;
             output[out_pos..out_pos + remaining].copy_from_slice(&data[pos..pos + remaining]);
             out_pos += remaining;
             break;
@@ -80,6 +82,7 @@ pub fn strip_format_a_crcs<'a>(data: &[u8], output: &'a mut [u8]) -> Option<&'a
         }
 
         if !found {
+            all_blocks_checked = false;
             let remaining = data.len() - pos;
             output[out_pos..out_pos + remaining].copy_from_slice(&data[pos..]);
             out_pos += remaining;
@@ -87,6 +90,13 @@ pub fn strip_format_a_crcs<'a>(data: &[u8], output: &'a mut [u8]) -> Option<&'a
         }
     }
 
+    // A block that does not verify is only tolerated when the L-field confirms
+    // that the bytes copied unchecked carry no CRC of their own.
+    let length = data[0] as usize;
+    if length != out_pos - 1 && !(all_blocks_checked && length == data.len() - 1) {
+        return None;
+    }
+
     output[0] = (out_pos - 1) as u8;
     Some(&output[..out_pos])
 }
-- 
2.43.0


From ef731b02e1dfea8d00416dc1a88832cef38ed470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:48 +0000
Subject: [PATCH 05/63] fix: report VIF 0x7D as an error instead of panicking

0x7D announces that the VIF follows in the first VIFE but has no
extension bit, so there is nothing to decode.
---
 crates/m-bus-application-layer/src/value_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 1675d9d..e749800 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -157,7 +157,7 @@ impl From<&ValueInformationField> for ValueInformationCoding {
         match value_information.data {
             0x00..=0x7B | 0x80..=0xFA => Self::Primary,
             0x7C | 0xFC => Self::PlainText,
-            0xFD => Self::MainVIFExtension,
+            0x7D | 0xFD => Self::MainVIFExtension,
             0xFB => Self::AlternateVIFExtension,
             0x7E => Self::ManufacturerSpecific,
             0xFE => Self::ManufacturerSpecific,
-- 
2.43.0


From 54b4d2220d74732250c13986b2bf5959759f90ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:01 +0000
Subject: [PATCH 06/63] fix: report overlong and truncated VIFE chains

An eleventh VIFE overflowed the buffer and panicked. A chain cut off by the
end of the data was accepted as if it were complete.
---
 crates/m-bus-application-layer/src/value_information.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index e749800..b88ebfd 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -55,7 +55,7 @@ impl TryFrom<&[u8]> for ValueInformationBlock {
                 Some(chars) if !standard_plaintex_vib => 1 + 1 + chars.len(),
                 _ => 1,
             };
-            while offset < data.len() {
+            loop {
                 let vife_data = *data.get(offset).ok_or(DataInformationError::DataTooShort)?;
                 let current_vife = ValueInformationFieldExtension { data: vife_data };
                 let has_extension = current_vife.has_extension();
@@ -64,7 +64,7 @@ impl TryFrom<&[u8]> for ValueInformationBlock {
                 if !has_extension {
                     break;
                 }
-                if vife.len() > MAX_VIFE_RECORDS {
+                if vife.is_full() {
                     return Err(DataInformationError::InvalidValueInformation);
                 }
             }
-- 
2.43.0


From 2f2c5f6c840f83d5bc703d099f5d8ac71ae410f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:35 +0000
Subject: [PATCH 07/63] fix: report plain-text units longer than nine
 characters instead of panicking

---
 crates/m-bus-application-layer/src/value_information.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index b88ebfd..ed5646a 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -91,7 +91,9 @@ fn extract_plaintext_vife(data: &[u8]) -> Result<ArrayVec<char, 9>, DataInformat
         .get(1..=ascii_length)
         .ok_or(DataInformationError::DataTooShort)?
     {
-        ascii.push(*item as char);
+        ascii
+            .try_push(*item as char)
+            .map_err(|_| DataInformationError::InvalidValueInformation)?;
     }
     Ok(ascii)
 }
-- 
2.43.0


From fe6b6d8662da4fc29e0d195c4399bc8a18c6b0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:50 +0000
Subject: [PATCH 08/63] fix: report VIFE chains with too many labels or units
 instead of panicking

---
 .../src/value_information.rs                      | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index ed5646a..5529c0d 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -363,7 +363,7 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     &mut units,
                     &mut decimal_scale_exponent,
                     &mut decimal_offset_exponent,
-                );
+                )?;
             }
             ValueInformationCoding::MainVIFExtension => {
                 let first_vife_data = vife_slice
@@ -554,7 +554,7 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     &mut units,
                     &mut decimal_scale_exponent,
                     &mut decimal_offset_exponent,
-                );
+                )?;
             }
             ValueInformationCoding::AlternateVIFExtension => {
                 use UnitName::*;
@@ -686,7 +686,7 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     &mut units,
                     &mut decimal_scale_exponent,
                     &mut decimal_offset_exponent,
-                );
+                )?;
             }
             // we need to check if the next byte is equivalent to the length of the rest of the
             // the data. In this case it is very likely that, this is how the payload is built up.
@@ -698,7 +698,7 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     &mut units,
                     &mut decimal_scale_exponent,
                     &mut decimal_offset_exponent,
-                );
+                )?;
             }
             ValueInformationCoding::ManufacturerSpecific => {
                 labels.push(ValueLabel::ManufacturerSpecific)
@@ -720,9 +720,13 @@ fn consume_orthhogonal_vife(
     units: &mut ArrayVec<Unit, 10>,
     decimal_scale_exponent: &mut isize,
     decimal_offset_exponent: &mut isize,
-) {
+) -> Result<(), DataInformationError> {
     let mut is_extension_of_combinable_orthogonal_vife = false;
     for v in vife {
+        // One VIFE contributes at most one label and two units.
+        if labels.remaining_capacity() < 1 || units.remaining_capacity() < 2 {
+            return Err(DataInformationError::InvalidValueInformation);
+        }
         if v.data == 0xFC {
             is_extension_of_combinable_orthogonal_vife = true;
             continue;
@@ -968,6 +972,7 @@ fn consume_orthhogonal_vife(
             };
         }
     }
+    Ok(())
 }
 
 #[derive(Debug, Clone, Copy, PartialEq)]
-- 
2.43.0


From 63d1eda6514ea3febca264d363a66ac2e290657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:00 +0000
Subject: [PATCH 09/63] fix: VIFE 0x2C means per litre, not litre

---
 crates/m-bus-application-layer/src/value_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 5529c0d..b933765 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -795,7 +795,7 @@ fn consume_orthhogonal_vife(
                     units.push(unit!(Increment));
                     units.push(unit!(OutputPulseOnChannel1 ^ -1));
                 }
-                0x2C => units.push(unit!(Liter)),
+                0x2C => units.push(unit!(Liter ^ -1)),
                 0x2D => units.push(unit!(Meter ^ -3)),
                 0x2E => units.push(unit!(Kilogram ^ -1)),
                 0x2F => units.push(unit!(Kelvin ^ -1)),
-- 
2.43.0


From 251118f1a7e97a9d95bd4f637e1b611410d76c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:16 +0000
Subject: [PATCH 10/63] fix: correct first/last and begin/end for VIFEs 0x6B,
 0x6E and 0x6F

The code is E110 1f1b with f selecting first or last and b begin or end.
---
 crates/m-bus-application-layer/src/value_information.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index b933765..07eab2f 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -954,9 +954,9 @@ fn consume_orthhogonal_vife(
                 0x69 => labels.push(ValueLabel::LeakageValues),
                 0x6D => labels.push(ValueLabel::OverflowValues),
                 0x6A => labels.push(ValueLabel::DateOfBeginFirst),
-                0x6B => labels.push(ValueLabel::DateOfBeginLast),
-                0x6E => labels.push(ValueLabel::DateOfEndLast),
-                0x6F => labels.push(ValueLabel::DateOfEndFirst),
+                0x6B => labels.push(ValueLabel::DateOfEndFirst),
+                0x6E => labels.push(ValueLabel::DateOfBeginLast),
+                0x6F => labels.push(ValueLabel::DateOfEndLast),
                 0x70..=0x77 => {
                     *decimal_scale_exponent += (v.data & 0b111) as isize - 6;
                 }
-- 
2.43.0


From 79f5cc9a71d1e09d669a855ea7abfde6fbe50ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:32 +0000
Subject: [PATCH 11/63] fix: VIF FD 33 counts minutes, not metres

---
 crates/m-bus-application-layer/src/value_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 07eab2f..0383b30 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -454,7 +454,7 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                         labels.push(ValueLabel::PeriodOfNormalDataTransmission);
                     }
                     0x33 => {
-                        units.push(unit!(Meter));
+                        units.push(unit!(Minute));
                         labels.push(ValueLabel::PeriodOfNormalDataTransmission);
                     }
                     0x34 => {
-- 
2.43.0


From 7e133e80daede6aac3e5d213bca985a6493eb464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:46 +0000
Subject: [PATCH 12/63] fix: VIF FD 6F counts years of battery operation, not
 hours

---
 crates/m-bus-application-layer/src/value_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 0383b30..3a4f6ca 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -513,7 +513,7 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                         labels.push(ValueLabel::OperatingTimeBattery);
                     }
                     0x6F => {
-                        units.push(unit!(Hour));
+                        units.push(unit!(Year));
                         labels.push(ValueLabel::OperatingTimeBattery);
                     }
                     0x70 => {
-- 
2.43.0


From 0cfd578daf785a3b72ef2e6d02499af9e334dc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:59 +0000
Subject: [PATCH 13/63] fix: VIF FB 00 and FB 01 are watt hours

The unit was given as cubic watts per hour.
---
 crates/m-bus-application-layer/src/value_information.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 3a4f6ca..440b08b 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -592,8 +592,8 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     .ok_or(DataInformationError::DataTooShort)?
                     .data;
                 match first_vife_data & 0x7F {
-                    0b0 => populate!(Watt / h, 3, dec: 5, Energy),
-                    0b000_0001 => populate!(Watt / h, 3, dec: 6, Energy),
+                    0b0 => populate!(Watt * h, 1, dec: 5, Energy),
+                    0b000_0001 => populate!(Watt * h, 1, dec: 6, Energy),
                     0b000_0010 => populate!(ReactiveWatt * h, 1, dec: 3, ReactiveEnergy),
                     0b000_0011 => populate!(ReactiveWatt * h, 1, dec: 4, ReactiveEnergy),
                     0b000_0100 => populate!(ApparentWatt * h, 1, dec: 3, ApparentEnergy),
-- 
2.43.0


From ebd83e79f7f274a3e49a7b0db4c3e89be6f170dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:14 +0000
Subject: [PATCH 14/63] fix: do not apply the second-level VIF of FD FD again
 as a modifier

---
 crates/m-bus-application-layer/src/value_information.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 440b08b..5d3d1a4 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -548,8 +548,10 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     _ => labels.push(ValueLabel::Reserved),
                 }
                 // Skip vife_slice[0] — it's the true VIF (already consumed above)
+                // or both leading VIFEs when 0x7D extends the table once more
+                let vif_length = if first_vife_data & 0x7F == 0x7D { 2 } else { 1 };
                 consume_orthhogonal_vife(
-                    vife_slice.get(1..).unwrap_or(&[]),
+                    vife_slice.get(vif_length..).unwrap_or(&[]),
                     &mut labels,
                     &mut units,
                     &mut decimal_scale_exponent,
-- 
2.43.0


From 938a67fcddabf75291b7ddaf8ba8b01f8f31795e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:31 +0000
Subject: [PATCH 15/63] fix: the battery change date of VIF FD 70 has no unit

---
 crates/m-bus-application-layer/src/value_information.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 5d3d1a4..94f805b 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -516,10 +516,7 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                         units.push(unit!(Year));
                         labels.push(ValueLabel::OperatingTimeBattery);
                     }
-                    0x70 => {
-                        units.push(unit!(Second));
-                        labels.push(ValueLabel::DateAndTimeOfBatteryChange);
-                    }
+                    0x70 => labels.push(ValueLabel::DateAndTimeOfBatteryChange),
                     0x71 => {
                         units.push(unit!(DecibelMilliWatt));
                         labels.push(ValueLabel::RFPowerLevel);
-- 
2.43.0


From e54bf9d3cea43215d33e1463063cd5cbc4d5a945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:47 +0000
Subject: [PATCH 16/63] fix: report the time unit of averaging and actuality
 durations

VIFs 0x70 to 0x77 select seconds, minutes, hours or days.
---
 .../src/value_information.rs                      | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 94f805b..592ffa7 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -344,8 +344,19 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     0x6C => labels.push(ValueLabel::Date),
                     0x6D => labels.push(ValueLabel::DateTime),
                     0x6E => labels.push(ValueLabel::DimensionlessHCA),
-                    0x70..=0x73 => labels.push(ValueLabel::AveragingDuration),
-                    0x74..=0x77 => labels.push(ValueLabel::ActualityDuration),
+                    duration @ 0x70..=0x77 => {
+                        labels.push(if duration < 0x74 {
+                            ValueLabel::AveragingDuration
+                        } else {
+                            ValueLabel::ActualityDuration
+                        });
+                        units.push(match duration & 0x03 {
+                            0x00 => unit!(Second),
+                            0x01 => unit!(Minute),
+                            0x02 => unit!(Hour),
+                            _ => unit!(Day),
+                        });
+                    }
                     0x78 => labels.push(ValueLabel::FabricationNumber),
                     0x79 => labels.push(ValueLabel::EnhancedIdentification),
                     0x7A => labels.push(ValueLabel::Address),
-- 
2.43.0


From 9c7b2eb4be2e4f49be97c9fe98d45477898b578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:25 +0000
Subject: [PATCH 17/63] fix: place the storage bits of the first DIFE directly
 after the DIF bit

The first DIFE contributes bits 1 to 4 of the storage number. It was shifted
by four bits too many, so storage number 2 was reported as 32.
---
 crates/m-bus-application-layer/src/data_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 683e306..fe8dc7b 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -217,7 +217,7 @@ impl TryFrom<&DataInformationBlock<'_>> for DataInformation {
                     return Err(DataInformationError::DataTooLong);
                 }
                 let dife = dife.data;
-                storage_number += u64::from(dife & 0x0f) << ((extension_index * 4) + 1);
+                storage_number += u64::from(dife & 0x0f) << ((device_index * 4) + 1);
                 tariff |= u64::from((dife & 0x30) >> 4) << (tariff_index);
                 tariff_index += 2;
                 device |= u64::from((dife & 0x40) >> 6) << device_index;
-- 
2.43.0


From 27e5bd7a8800b14937f4283f01c27bee1ef0ffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:33 +0000
Subject: [PATCH 18/63] fix: decode a zero-length variable integer as zero
 instead of underflowing

---
 crates/m-bus-application-layer/src/data_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index fe8dc7b..bb4d663 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -563,7 +563,7 @@ fn integer_to_value_internal(data: &[u8], byte_size: usize) -> Data<'_> {
         shift += 8;
     }
 
-    let msb = (data_value >> (shift - 1)) & 1;
+    let msb = (data_value >> (shift.max(1) - 1)) & 1;
     let data_value = if byte_size < 8 && msb == 1 {
         -((data_value ^ (2i64.pow(shift) - 1)) + 1)
     } else {
-- 
2.43.0


From 9667650bc88d59a5c7ddbd2a5a96e3a23805e60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:50 +0000
Subject: [PATCH 19/63] fix: read the year of type F and I date-times from the
 day and month bytes

The year bits were taken from the first two bytes, which hold the time.
---
 .../m-bus-application-layer/src/data_information.rs  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index bb4d663..be898c3 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -499,9 +499,9 @@ macro_rules! parse_month {
 }
 
 macro_rules! parse_year {
-    ($input:expr, $mask_byte1:expr, $mask_byte2:expr, $all_value:expr) => {{
-        let byte1 = u16::from($input.get(1).copied().unwrap_or(0) & $mask_byte1);
-        let byte2 = u16::from($input.get(0).copied().unwrap_or(0) & $mask_byte2);
+    ($input:expr, $day_index:expr, $mask_byte1:expr, $mask_byte2:expr, $all_value:expr) => {{
+        let byte1 = u16::from($input.get($day_index + 1).copied().unwrap_or(0) & $mask_byte1);
+        let byte2 = u16::from($input.get($day_index).copied().unwrap_or(0) & $mask_byte2);
         let year = byte1.wrapping_shr(1) | byte2.wrapping_shr(5);
         if year == $all_value {
             SingleEveryOrInvalid::Every()
@@ -772,7 +772,7 @@ impl DataFieldCoding {
                     0
                 );
                 let month = parse_month!(input.get(1).ok_or(DataRecordError::InsufficientData)?);
-                let year = parse_year!(input, 0xF0, 0xE0, 0x7F);
+                let year = parse_year!(input, 0, 0xF0, 0xE0, 0x7F);
 
                 Ok(Data {
                     value: Some(DataType::Date(day, month, year)),
@@ -799,7 +799,7 @@ impl DataFieldCoding {
                     0
                 );
                 let month = parse_month!(input.get(3).ok_or(DataRecordError::InsufficientData)?);
-                let year = parse_year!(input, 0xF0, 0xE0, 0x7F);
+                let year = parse_year!(input, 2, 0xF0, 0xE0, 0x7F);
 
                 Ok(Data {
                     value: Some(DataType::DateTime(day, month, year, hour, minutes)),
@@ -863,7 +863,7 @@ impl DataFieldCoding {
                     0
                 );
                 let months = parse_month!(input.get(4).ok_or(DataRecordError::InsufficientData)?);
-                let year = parse_year!(input, 0xF0, 0xE0, 0x7F);
+                let year = parse_year!(input, 3, 0xF0, 0xE0, 0x7F);
 
                 Ok(Data {
                     value: Some(DataType::DateTimeWithSeconds(
-- 
2.43.0


From a79d81579004a6509e0ce44b1b3a99f6c028f106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:07 +0000
Subject: [PATCH 20/63] fix: day 0, not day 31, is the wildcard of type F and I
 date-times

---
 crates/m-bus-application-layer/src/data_information.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index be898c3..332cc7b 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -795,7 +795,7 @@ impl DataFieldCoding {
                 let day = parse_single_or_every!(
                     input.get(2).ok_or(DataRecordError::InsufficientData)?,
                     0x1F,
-                    0x1F,
+                    0,
                     0
                 );
                 let month = parse_month!(input.get(3).ok_or(DataRecordError::InsufficientData)?);
@@ -859,7 +859,7 @@ impl DataFieldCoding {
                 let days = parse_single_or_every!(
                     input.get(3).ok_or(DataRecordError::InsufficientData)?,
                     0x1F,
-                    0x1F,
+                    0,
                     0
                 );
                 let months = parse_month!(input.get(4).ok_or(DataRecordError::InsufficientData)?);
-- 
2.43.0


From ac0558fdbe6ee7e0616b172720fb3a703d64aeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:23 +0000
Subject: [PATCH 21/63] fix: report month 15 as every month

---
 crates/m-bus-application-layer/src/data_information.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 332cc7b..8265226 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -493,6 +493,7 @@ macro_rules! parse_month {
             0xA => SingleEveryOrInvalid::Single(Month::October),
             0xB => SingleEveryOrInvalid::Single(Month::November),
             0xC => SingleEveryOrInvalid::Single(Month::December),
+            0xF => SingleEveryOrInvalid::Every(),
             _ => SingleEveryOrInvalid::Invalid(),
         }
     };
-- 
2.43.0


From ec885c769662e7b38b15d3766582bb1192702b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:38 +0000
Subject: [PATCH 22/63] fix: report hours above 23 and minutes or seconds above
 59 as invalid

They were rendered into timestamps such as 2024-05-01T29:62:00.
---
 crates/m-bus-application-layer/src/data_information.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 8265226..25bc427 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -472,6 +472,11 @@ macro_rules! parse_single_or_every {
     ($input:expr, $mask:expr, $all_value:expr, $shift:expr) => {
         if $input & $mask == $all_value {
             SingleEveryOrInvalid::Every()
+        } else if ($all_value == 0x3F && $input & $mask > 59)
+            || ($all_value == 0x1F && $input & $mask > 23)
+        {
+            // 0x3F is the wildcard of minutes and seconds, 0x1F that of hours
+            SingleEveryOrInvalid::Invalid()
         } else {
             SingleEveryOrInvalid::Single(($input & $mask) >> $shift)
         }
-- 
2.43.0


From 824b711bfd7a9ff37f27764188ac1165f472d4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:53 +0000
Subject: [PATCH 23/63] fix: type J times take three bytes and type I
 date-times need all six

---
 crates/m-bus-application-layer/src/data_information.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 25bc427..e7b8d60 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -834,10 +834,13 @@ impl DataFieldCoding {
 
                 Ok(Data {
                     value: Some(DataType::Time(seconds, minutes, hours)),
-                    size: 4,
+                    size: 3,
                 })
             }
             Self::DateTimeTypeI => {
+                if input.len() < 6 {
+                    return Err(DataRecordError::InsufficientData);
+                }
                 // note: more information can be extracted from the data,
                 // however, because this data can be derived from the other data that is
                 // that is extracted, it is not necessary to extract it.
-- 
2.43.0


From 1a89df4f58c3851e4526228098e5833351a86fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:08 +0000
Subject: [PATCH 24/63] fix: keep the announced data length of date and
 date-time records

Records with VIF 0x6C or 0x6D were always read as 2 or 4 bytes, whatever
their DIF announced, which misaligned every following record.
---
 .../m-bus-application-layer/src/data_record.rs  | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_record.rs b/crates/m-bus-application-layer/src/data_record.rs
index a450d86..3f28773 100644
--- a/crates/m-bus-application-layer/src/data_record.rs
+++ b/crates/m-bus-application-layer/src/data_record.rs
@@ -203,14 +203,19 @@ impl TryFrom<&RawDataRecordHeader<'_>> for ProcessedDataRecordHeader {
             // so we must do some additional checks to determine the correct data field coding
 
             if v.labels.contains(&ValueLabel::Date) {
-                d.data_field_coding = DataFieldCoding::DateTypeG;
+                // Only a 2-byte data field holds a type G date.
+                if d.data_field_coding == DataFieldCoding::Integer16Bit {
+                    d.data_field_coding = DataFieldCoding::DateTypeG;
+                }
             } else if v.labels.contains(&ValueLabel::DateTime) {
                 // VIF 0x6D with a 6-byte data field is a type I date and time
-                // (EN 13757-3), only the 4-byte variant is type F.
-                d.data_field_coding = if d.data_field_coding == DataFieldCoding::Integer48Bit {
-                    DataFieldCoding::DateTimeTypeI
-                } else {
-                    DataFieldCoding::DateTimeTypeF
+                // (EN 13757-3), the 4-byte variant is type F and the 3-byte
+                // variant is a type J time.
+                d.data_field_coding = match d.data_field_coding {
+                    DataFieldCoding::Integer48Bit => DataFieldCoding::DateTimeTypeI,
+                    DataFieldCoding::Integer32Bit => DataFieldCoding::DateTimeTypeF,
+                    DataFieldCoding::Integer24Bit => DataFieldCoding::DateTimeTypeJ,
+                    coding => coding,
                 };
             } else if v.labels.contains(&ValueLabel::Time) {
                 d.data_field_coding = DataFieldCoding::DateTimeTypeJ;
-- 
2.43.0


From 0e6201d09c6cd5cdafd773201760c99813d42aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:42 +0000
Subject: [PATCH 25/63] fix: do not print a wildcard or invalid second as :00

---
 src/output.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/output.rs b/src/output.rs
index 9b0fdee..106efac 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1588,11 +1588,12 @@ fn temporal_iso(
     let year = single(year);
     let hour = hour.and_then(single);
     let minute = minute.and_then(single);
+    let has_second = second.is_some();
     let second = second.and_then(single);
     match kind {
         "date" => Some(format!("{:04}-{:02}-{:02}", year?, month?, day?)),
         "time" => Some(format!("{:02}:{:02}:{:02}", hour?, minute?, second?)),
-        _ if second.is_some() => Some(format!(
+        _ if has_second => Some(format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}",
             year?, month?, day?, hour?, minute?, second?
         )),
-- 
2.43.0


From fad245471c4e3bbaad890d60fb5b0b95eb0214ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:55 +0000
Subject: [PATCH 26/63] fix: strip leading zeros when an additive correction is
 applied to zero

---
 src/output.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/output.rs b/src/output.rs
index 106efac..deb7286 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1819,6 +1819,9 @@ fn add_abs(left: &str, right: &str) -> String {
         output.push(b'0' + sum % 10);
         carry = sum / 10;
     }
+    while output.len() > 1 && output.last() == Some(&b'0') {
+        output.pop();
+    }
     output.reverse();
     String::from_utf8(output).unwrap_or_else(|_| "0".to_string())
 }
-- 
2.43.0


From 85fa7705f734014fe150b374e676bad69a3a0a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:08 +0000
Subject: [PATCH 27/63] fix: apply additive corrections only for the VIFEs that
 mean one

FB 78 to FB 7B and codes following an 0xFC VIFE share their values with the
additive corrections, so such readings were changed by up to one unit.
---
 src/output.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index deb7286..79252a1 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1734,17 +1734,27 @@ fn record_offset_power10(record: &user_data::DataRecord<'_>) -> Option<isize> {
         .raw_data_record_header
         .value_information_block
         .as_ref()?;
-    block
-        .value_information_extension
-        .as_ref()?
+    let extensions = block.value_information_extension.as_ref()?;
+    // Leading extensions that hold the VIF itself are not corrections.
+    let vif_length = match block.value_information.data {
+        0xFB => 1,
+        0xFD if extensions.first()?.data & 0x7F == 0x7D => 2,
+        0xFD => 1,
+        0x7E | 0x7F | 0xFE | 0xFF => return None,
+        _ => 0,
+    };
+    let mut follows_extension_table = false;
+    extensions
         .iter()
+        .skip(vif_length)
         .filter_map(|extension| {
             let code = extension.data & 0x7F;
-            (0x78..=0x7B)
-                .contains(&code)
+            let combinable = !follows_extension_table;
+            follows_extension_table = combinable && extension.data == 0xFC;
+            (combinable && (0x78..=0x7B).contains(&code))
                 .then(|| isize::from(extension.data & 0b11) - 3)
         })
-        .next_back()
+        .last()
 }
 
 fn scaled_decimal(significand: &str, scale: isize, offset: Option<isize>) -> String {
-- 
2.43.0


From 94a3b13ec76dd6c651420f0253f4e712cc9e1d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:22 +0000
Subject: [PATCH 28/63] fix: keep all digits of long variable-length BCD
 numbers

Numbers above 2^53 were rounded through a floating-point value.
---
 src/output.rs | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/output.rs b/src/output.rs
index 79252a1..f8e168a 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1666,7 +1666,10 @@ fn exact_significand(record: &user_data::DataRecord<'_>, parsed: f64) -> Option<
 fn exact_variable_significand(data: &[u8], parsed: f64) -> Option<String> {
     let marker = *data.first()?;
     match marker {
-        0xC0..=0xC9 | 0xD0..=0xD9 => Some(format!("{parsed:.0}")),
+        0xC0..=0xC9 | 0xD0..=0xD9 => {
+            let length = usize::from(marker & 0x0F);
+            Some(exact_bcd_significand(data.get(1..=length)?, parsed))
+        }
         0xE0..=0xEF => {
             let length = usize::from(marker - 0xE0);
             signed_le_decimal(data.get(1..=length)?)
@@ -1681,6 +1684,38 @@ fn exact_variable_significand(data: &[u8], parsed: f64) -> Option<String> {
     }
 }
 
+/// Digits of a BCD number that may exceed the precision of its parsed value.
+fn exact_bcd_significand(bytes: &[u8], parsed: f64) -> String {
+    let digits_of = |bytes: &mut dyn Iterator<Item = &u8>| {
+        bytes
+            .flat_map(|byte| [byte & 0x0F, byte >> 4])
+            .collect::<Vec<_>>()
+    };
+    let value_of = |digits: &[u8]| {
+        digits
+            .iter()
+            .fold((0.0, 1.0), |(value, weight), digit| {
+                (value + f64::from(*digit) * weight, weight * 10.0)
+            })
+            .0
+    };
+    let mut digits = digits_of(&mut bytes.iter());
+    if value_of(&digits) != parsed.abs() {
+        // transmitted most significant byte first
+        digits = digits_of(&mut bytes.iter().rev());
+    }
+    while digits.len() > 1 && digits.last() == Some(&0) {
+        digits.pop();
+    }
+    let sign = if parsed < 0.0 { "-" } else { "" };
+    let digits: String = digits
+        .iter()
+        .rev()
+        .map(|digit| char::from(b'0' + *digit))
+        .collect();
+    format!("{sign}{digits}")
+}
+
 fn signed_le_decimal(bytes: &[u8]) -> Option<String> {
     if bytes.is_empty() {
         return None;
-- 
2.43.0


From 9c9de365eaeb477186881caf5e9bfe3f0e7f2dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:49 +0000
Subject: [PATCH 29/63] fix: apply the decimal scale of the unit to
 floating-point readings

A 32-bit real with VIF 0x13 was reported in cubic metres although the
number counts litres.
---
 src/output.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/output.rs b/src/output.rs
index f8e168a..2080113 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1461,7 +1461,8 @@ fn value_output(record: &user_data::DataRecord<'_>) -> ValueOutput {
             if information
                 .is_some_and(|value| value.data_field_coding == DataFieldCoding::Real32Bit)
             {
-                let (number_value, special) = finite_number(*number);
+                let (number_value, special) =
+                    finite_number(scaled_float(*number, scale.unwrap_or(0), offset));
                 return ValueOutput {
                     kind: "float".to_string(),
                     value: number_value
@@ -1810,6 +1811,16 @@ fn scaled_decimal(significand: &str, scale: isize, offset: Option<isize>) -> Str
     apply_power10(&integer, minimum_exponent)
 }
 
+fn scaled_float(value: f64, scale: isize, offset: Option<isize>) -> f64 {
+    let power10 = |exponent: usize| 10f64.powi(i32::try_from(exponent).unwrap_or(i32::MAX));
+    // Dividing keeps negative powers exact up to a single rounding.
+    let apply = |value: f64, exponent: isize| match usize::try_from(exponent) {
+        Ok(exponent) => value * power10(exponent),
+        Err(_) => value / power10(exponent.unsigned_abs()),
+    };
+    apply(value, scale) + offset.map_or(0.0, |exponent| apply(1.0, exponent))
+}
+
 fn split_sign(value: &str) -> (bool, &str) {
     value
         .strip_prefix('-')
-- 
2.43.0


From 6cbf563d3b06df03917efa9a957880b0139a5e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:28 +0000
Subject: [PATCH 30/63] fix: count filler bytes in the offset of an undecodable
 record

---
 crates/m-bus-application-layer/src/lib.rs | 20 ++++++++++++++++++++
 src/output.rs                             | 17 +++++++----------
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index 492f789..6ca41b8 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -159,6 +159,26 @@ impl<'a> DataRecords<'a> {
             long_tpl_header,
         }
     }
+
+    /// Offset of the next record that [`Iterator::next`] will attempt to parse.
+    #[must_use]
+    pub fn next_offset(&self) -> usize {
+        let skipped = self
+            .data
+            .iter()
+            .skip(self.offset)
+            .take_while(|byte| {
+                let dif = data_information::DataInformationField::from(**byte);
+                dif.is_special_function()
+                    && matches!(
+                        dif.special_function(),
+                        data_information::SpecialFunctions::IdleFiller
+                            | data_information::SpecialFunctions::Reserved
+                    )
+            })
+            .count();
+        self.offset + skipped
+    }
 }
 
 bitflags::bitflags! {
diff --git a/src/output.rs b/src/output.rs
index 2080113..0462c1c 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1256,18 +1256,15 @@ fn collect_records(
         return (Vec::new(), None);
     };
     let mut output = Vec::new();
-    let mut offset = 0usize;
-    for item in records.clone() {
-        match item {
-            Ok(record) => {
-                let size = record.raw_bytes().len();
-                output.push(record_output(output.len(), &record));
-                offset += size;
-            }
-            Err(error) => return (output, Some((offset, error.to_string()))),
+    let mut records = records.clone();
+    loop {
+        let offset = records.next_offset();
+        match records.next() {
+            Some(Ok(record)) => output.push(record_output(output.len(), &record)),
+            Some(Err(error)) => return (output, Some((offset, error.to_string()))),
+            None => return (output, None),
         }
     }
-    (output, None)
 }
 
 fn record_output(index: usize, record: &user_data::DataRecord<'_>) -> RecordOutput {
-- 
2.43.0


From 8d8537a5add4ebf99ce321f88d94a14aa6a7f62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:19 +0000
Subject: [PATCH 31/63] fix: reject an extended link layer nested in another
 one

A long chain of 0x8C headers overflowed the stack. An encrypted extended link
layer behind 0x8C lost its encryption flag, so its ciphertext was decoded into
data records.
---
 crates/m-bus-application-layer/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index 6ca41b8..d78c0de 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -1152,7 +1152,14 @@ impl<'a> TryFrom<&'a [u8]> for UserDataBlock<'a> {
                     receiver_address: None,
                     encryption: None,
                 });
-                match UserDataBlock::try_from(iter.as_slice()) {
+                let inner = iter.as_slice();
+                if matches!(inner.first(), Some(0x8C..=0x8E)) {
+                    // a telegram carries a single extended link layer
+                    return Err(ApplicationLayerError::InvalidControlInformation {
+                        byte: inner.first().copied().unwrap_or_default(),
+                    });
+                }
+                match UserDataBlock::try_from(inner) {
                     Ok(UserDataBlock::VariableDataStructureWithShortTplHeader {
                         short_tpl_header,
                         variable_data_block,
-- 
2.43.0


From b282c52aed248bb14102ad446f7c153f08756f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:34 +0000
Subject: [PATCH 32/63] fix: decode a long transport header behind an extended
 link layer

The telegram was reported as lacking control information although the
annotated view already decoded it.
---
 crates/m-bus-application-layer/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index d78c0de..0f4c2d6 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -1160,6 +1160,15 @@ impl<'a> TryFrom<&'a [u8]> for UserDataBlock<'a> {
                     });
                 }
                 match UserDataBlock::try_from(inner) {
+                    Ok(UserDataBlock::VariableDataStructureWithLongTplHeader {
+                        long_tpl_header,
+                        variable_data_block,
+                        ..
+                    }) => Ok(UserDataBlock::VariableDataStructureWithLongTplHeader {
+                        extended_link_layer,
+                        long_tpl_header,
+                        variable_data_block,
+                    }),
                     Ok(UserDataBlock::VariableDataStructureWithShortTplHeader {
                         short_tpl_header,
                         variable_data_block,
-- 
2.43.0


From e880e9261420d289143c0bf501d10477676d7685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:08 +0000
Subject: [PATCH 33/63] fix: do not expose records of an ELL-encrypted payload

---
 crates/m-bus-application-layer/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index 0f4c2d6..3b7c204 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -601,10 +601,16 @@ impl<'a> UserDataBlock<'a> {
                 long_tpl_header,
             )),
             Self::VariableDataStructureWithShortTplHeader {
+                extended_link_layer,
                 short_tpl_header,
                 variable_data_block,
-                ..
-            } if !short_tpl_header.is_encrypted() => Some(parse_data_records(variable_data_block)),
+            } if !short_tpl_header.is_encrypted()
+                && !extended_link_layer
+                    .as_ref()
+                    .is_some_and(|ell| ell.encryption.is_some()) =>
+            {
+                Some(parse_data_records(variable_data_block))
+            }
             Self::VariableDataStructureWithoutTplHeader {
                 variable_data_block,
                 ..
-- 
2.43.0


From a300655ef795a512e2e1a87e1f805e7c7b9a9347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:21 +0000
Subject: [PATCH 34/63] fix: annotate ELL-encrypted payloads as encrypted, not
 as records

---
 src/annotate.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index 5407076..930531d 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -620,7 +620,14 @@ fn annotate_application_layer(
             let remaining = &app_data[total_header..];
             let remaining_base = base + total_header;
             if !remaining.is_empty() {
-                annotate_data_records(segments, remaining_base, remaining);
+                segments.push(ByteSegment {
+                    start: remaining_base,
+                    end: remaining_base + remaining.len(),
+                    kind: SegmentKind::EncryptedPayload,
+                    detail: Cow::Borrowed("Encrypted variable data"),
+                    group: None,
+                    layer: Layer::RecordField,
+                });
             }
         }
 
@@ -661,7 +668,14 @@ fn annotate_application_layer(
             let remaining = &app_data[total_header..];
             let remaining_base = base + total_header;
             if !remaining.is_empty() {
-                annotate_data_records(segments, remaining_base, remaining);
+                segments.push(ByteSegment {
+                    start: remaining_base,
+                    end: remaining_base + remaining.len(),
+                    kind: SegmentKind::EncryptedPayload,
+                    detail: Cow::Borrowed("Encrypted variable data"),
+                    group: None,
+                    layer: Layer::RecordField,
+                });
             }
         }
 
-- 
2.43.0


From a29837a4a0cdbcaf24a83d89b3336735b0303d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:00 +0000
Subject: [PATCH 35/63] fix: do not annotate nested extended link layers
 recursively

---
 src/annotate.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index 930531d..2e6ded7 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -577,8 +577,20 @@ fn annotate_application_layer(
             // The rest is nested application data parsed by the application layer
             let inner_data = &app_data[total_header..];
             let inner_base = base + total_header;
-            if !inner_data.is_empty() {
-                annotate_application_layer(segments, frame_data, inner_base, inner_data);
+            match inner_data.first() {
+                // Same inner headers as accepted by the application layer parser
+                Some(0x72 | 0x76 | 0x78 | 0x7A | 0xA0..=0xAF) => {
+                    annotate_application_layer(segments, frame_data, inner_base, inner_data);
+                }
+                Some(inner_ci) => segments.push(ByteSegment {
+                    start: inner_base,
+                    end: inner_base + inner_data.len(),
+                    kind: SegmentKind::Unknown,
+                    detail: Cow::Owned(format!("Unknown CI: 0x{:02X}", inner_ci)),
+                    group: None,
+                    layer: Layer::AppHeader,
+                }),
+                None => {}
             }
         }
 
-- 
2.43.0


From 2b9302f6b89386bb3dd664642e5e4459fc9fa180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:14 +0000
Subject: [PATCH 36/63] fix: do not annotate records behind an invalid long
 transport header

---
 src/annotate.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/annotate.rs b/src/annotate.rs
index 2e6ded7..9463ada 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -6,6 +6,7 @@
 //! related fields (e.g., all bytes of a data record).
 
 use crate::user_data::data_record::DataRecord;
+use crate::user_data::UserDataBlock;
 use crate::MbusError;
 use std::borrow::Cow;
 use std::fmt;
@@ -408,6 +409,18 @@ fn annotate_application_layer(
                         layer: Layer::RecordField,
                     });
                 }
+            } else if UserDataBlock::try_from(app_data).is_err() {
+                // The decoder rejects this header, so it reports no records
+                if !records_data.is_empty() {
+                    segments.push(ByteSegment {
+                        start: records_start,
+                        end: records_start + records_data.len(),
+                        kind: SegmentKind::Unknown,
+                        detail: Cow::Borrowed("Data after an invalid long TPL header"),
+                        group: None,
+                        layer: Layer::RecordField,
+                    });
+                }
             } else {
                 annotate_data_records(segments, records_start, records_data);
             }
-- 
2.43.0


From e7858ab0e5fed8c27db67faf2849b2367d7e7fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:28 +0000
Subject: [PATCH 37/63] fix: annotate a global readout request as a record of
 its own

---
 src/annotate.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index 9463ada..ff0b36b 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -875,8 +875,22 @@ pub(crate) fn annotate_data_records(segments: &mut Vec<ByteSegment>, base: usize
                     });
                     return;
                 }
+                0x7F => {
+                    // Global readout request - a record of its own
+                    segments.push(ByteSegment {
+                        start: base + offset,
+                        end: base + offset + 1,
+                        kind: SegmentKind::Dif,
+                        detail: Cow::Borrowed("Global Readout Request: 0x7F"),
+                        group: Some(record_index),
+                        layer: Layer::RecordField,
+                    });
+                    offset += 1;
+                    record_index += 1;
+                    continue;
+                }
                 _ => {
-                    // Other special functions (0x7F etc.)
+                    // Reserved special functions
                     segments.push(ByteSegment {
                         start: base + offset,
                         end: base + offset + 1,
-- 
2.43.0


From 42ec4c0fa725a697632f270703d520107eab9ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:00 +0000
Subject: [PATCH 38/63] fix: annotate a plain-text unit before its VIFEs when
 configured so

---
 src/annotate.rs | 48 ++++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index ff0b36b..c916098 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -971,33 +971,41 @@ pub(crate) fn annotate_data_records(segments: &mut Vec<ByteSegment>, base: usize
                     } else {
                         0
                     };
-                    if vife_count > 0 {
-                        segments.push(ByteSegment {
-                            start: base + offset,
-                            end: base + offset + vife_count,
-                            kind: SegmentKind::Vife,
-                            detail: Cow::Owned(format!("VIFE: {} byte(s)", vife_count)),
-                            group: Some(record_index),
-                            layer: Layer::RecordField,
-                        });
-                        offset += vife_count;
-                    }
+                    let vife = (vife_count > 0).then(|| {
+                        (
+                            vife_count,
+                            SegmentKind::Vife,
+                            format!("VIFE: {} byte(s)", vife_count),
+                        )
+                    });
 
                     // Plaintext VIF
-                    if let Some(plaintext) = &vib.plaintext_vife {
-                        let pt_size = plaintext.len() + 1; // 1 for length byte
-                        segments.push(ByteSegment {
-                            start: base + offset,
-                            end: base + offset + pt_size,
-                            kind: SegmentKind::PlaintextVif,
-                            detail: Cow::Owned(format!(
+                    let plaintext = vib.plaintext_vife.as_ref().map(|plaintext| {
+                        (
+                            plaintext.len() + 1, // 1 for length byte
+                            SegmentKind::PlaintextVif,
+                            format!(
                                 "Plaintext VIF: \"{}\"",
                                 plaintext.iter().collect::<String>()
-                            )),
+                            ),
+                        )
+                    });
+
+                    let ordered = if cfg!(feature = "plaintext-before-extension") {
+                        [plaintext, vife]
+                    } else {
+                        [vife, plaintext]
+                    };
+                    for (size, kind, detail) in ordered.into_iter().flatten() {
+                        segments.push(ByteSegment {
+                            start: base + offset,
+                            end: base + offset + size,
+                            kind,
+                            detail: Cow::Owned(detail),
                             group: Some(record_index),
                             layer: Layer::RecordField,
                         });
-                        offset += pt_size;
+                        offset += size;
                     }
                 }
 
-- 
2.43.0


From 43e5aff5561ea67817a756bf8aa97f1be346e947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:33 +0000
Subject: [PATCH 39/63] fix: place decrypted bytes correctly in the hex view of
 frames with a trailing CRC

---
 src/mbus_data.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index 4a22f16..44bf9b0 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -1363,12 +1363,13 @@ fn decrypted_wireless_hexview_data(data: &[u8], key: &[u8; 16]) -> Option<Vec<u8
         &mut decrypted_buffer,
     )?;
 
-    let app_data_len = parsed_data.frame.data.len();
-    let app_start = wireless_data.len().checked_sub(app_data_len)?;
-    let payload_start = app_start + app_data_len.checked_sub(variable_data_len)?;
-    let payload_end = payload_start + variable_data_len;
+    // A trailing frame CRC covers the ciphertext; leave it out of the view.
+    let app_end = wireless_mbus_link_layer::trailing_frame_crc_start(wireless_data)
+        .unwrap_or(wireless_data.len());
+    let payload_start = app_end.checked_sub(variable_data_len)?;
+    let payload_end = app_end;
 
-    let mut display_data = wireless_data.to_vec();
+    let mut display_data = wireless_data.get(..app_end)?.to_vec();
     let decrypted_data = decrypted_buffer.get(..decrypted_len)?;
     display_data.splice(payload_start..payload_end, decrypted_data.iter().copied());
     if let Some(length) = display_data.len().checked_sub(1) {
-- 
2.43.0


From a2b7dacdf95de111d85deff7a1924c0c7a62b012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:31 +0000
Subject: [PATCH 40/63] fix: VIF FD 74 counts the remaining battery life in
 days

---
 crates/m-bus-application-layer/src/value_information.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 592ffa7..211627f 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -534,7 +534,10 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     }
                     0x72 => labels.push(ValueLabel::DaylightSavingBeginningEndingDeviation),
                     0x73 => labels.push(ValueLabel::ListeningWindowManagementData),
-                    0x74 => labels.push(ValueLabel::RemainingBatteryLifeTime),
+                    0x74 => {
+                        units.push(unit!(Day));
+                        labels.push(ValueLabel::RemainingBatteryLifeTime);
+                    }
                     0x75 => labels.push(ValueLabel::NumberOfTimesTheMeterWasStopped),
                     0x76 => labels.push(ValueLabel::DataContainerForManufacturerSpecificProtocol),
                     0x7D => match second_vife_data.map(|s| s & 0x7F) {
-- 
2.43.0


From 6a09a189c69bca69cf2d590950156c4f41cc6505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:13 +0000
Subject: [PATCH 41/63] fix: do not give manufacturer-specific VIFEs a standard
 meaning

---
 .../src/value_information.rs                  |  6 +++-
 src/output.rs                                 | 28 +++++++++++--------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 211627f..9271a9e 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -980,7 +980,11 @@ fn consume_orthhogonal_vife(
                     *decimal_scale_exponent += 3;
                 }
                 0x7E => labels.push(ValueLabel::FutureValue),
-                0x7F => labels.push(ValueLabel::NextVIFEAndDataOfThisBlockAreManufacturerSpecific),
+                0x7F => {
+                    labels.push(ValueLabel::NextVIFEAndDataOfThisBlockAreManufacturerSpecific);
+                    // The VIFEs that follow have no standard meaning.
+                    break;
+                }
                 _ => labels.push(ValueLabel::Reserved),
             };
         }
diff --git a/src/output.rs b/src/output.rs
index 0462c1c..8c4c11d 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1776,18 +1776,24 @@ fn record_offset_power10(record: &user_data::DataRecord<'_>) -> Option<isize> {
         0x7E | 0x7F | 0xFE | 0xFF => return None,
         _ => 0,
     };
+    let mut offset = None;
     let mut follows_extension_table = false;
-    extensions
-        .iter()
-        .skip(vif_length)
-        .filter_map(|extension| {
-            let code = extension.data & 0x7F;
-            let combinable = !follows_extension_table;
-            follows_extension_table = combinable && extension.data == 0xFC;
-            (combinable && (0x78..=0x7B).contains(&code))
-                .then(|| isize::from(extension.data & 0b11) - 3)
-        })
-        .last()
+    for extension in extensions.iter().skip(vif_length) {
+        if follows_extension_table {
+            follows_extension_table = false;
+            continue;
+        }
+        match extension.data {
+            0xFC => follows_extension_table = true,
+            // Everything after 0xFF is manufacturer specific.
+            0xFF => break,
+            data if (0x78..=0x7B).contains(&(data & 0x7F)) => {
+                offset = Some(isize::from(data & 0b11) - 3);
+            }
+            _ => {}
+        }
+    }
+    offset
 }
 
 fn scaled_decimal(significand: &str, scale: isize, offset: Option<isize>) -> String {
-- 
2.43.0


From d22cb3de1e4ff5c4aa1ea1faee1f8b9a780ea9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:28 +0000
Subject: [PATCH 42/63] fix: the VIFE after 0xFC always belongs to the
 extension table

---
 crates/m-bus-application-layer/src/value_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 9271a9e..5d9f92f 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -740,7 +740,7 @@ fn consume_orthhogonal_vife(
         if labels.remaining_capacity() < 1 || units.remaining_capacity() < 2 {
             return Err(DataInformationError::InvalidValueInformation);
         }
-        if v.data == 0xFC {
+        if v.data == 0xFC && !is_extension_of_combinable_orthogonal_vife {
             is_extension_of_combinable_orthogonal_vife = true;
             continue;
         }
-- 
2.43.0


From 4725e823d7c751b2474bf357f133a86fade50839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:43 +0000
Subject: [PATCH 43/63] fix: apply every additive correction of a record

---
 src/output.rs | 71 +++++++++++++++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 30 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index 8c4c11d..23bb8ec 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1451,7 +1451,7 @@ fn value_output(record: &user_data::DataRecord<'_>) -> ValueOutput {
     let information = record.data_information();
     let value_information = record.value_information();
     let scale = value_information.map(|value| value.decimal_scale_exponent);
-    let offset = record_offset_power10(record);
+    let offsets = record_offset_powers10(record);
 
     match record.value() {
         Some(DataType::Number(number)) | Some(DataType::LossyNumber(number)) => {
@@ -1459,7 +1459,7 @@ fn value_output(record: &user_data::DataRecord<'_>) -> ValueOutput {
                 .is_some_and(|value| value.data_field_coding == DataFieldCoding::Real32Bit)
             {
                 let (number_value, special) =
-                    finite_number(scaled_float(*number, scale.unwrap_or(0), offset));
+                    finite_number(scaled_float(*number, scale.unwrap_or(0), &offsets));
                 return ValueOutput {
                     kind: "float".to_string(),
                     value: number_value
@@ -1472,7 +1472,7 @@ fn value_output(record: &user_data::DataRecord<'_>) -> ValueOutput {
             let significand =
                 exact_significand(record, *number).unwrap_or_else(|| format!("{number:.0}"));
             let scale_value = scale.unwrap_or(0);
-            let decimal = scaled_decimal(&significand, scale_value, offset);
+            let decimal = scaled_decimal(&significand, scale_value, offsets);
             ValueOutput {
                 kind: "decimal".to_string(),
                 value: Some(serde_json::Value::String(decimal)),
@@ -1761,22 +1761,32 @@ fn signed_le_decimal(bytes: &[u8]) -> Option<String> {
     Some(value)
 }
 
-fn record_offset_power10(record: &user_data::DataRecord<'_>) -> Option<isize> {
-    let block = record
+/// Exponents of the additive corrections of a record, in order.
+fn record_offset_powers10(record: &user_data::DataRecord<'_>) -> Vec<isize> {
+    let mut offsets = Vec::new();
+    let Some(block) = &record
         .data_record_header
         .raw_data_record_header
         .value_information_block
-        .as_ref()?;
-    let extensions = block.value_information_extension.as_ref()?;
+    else {
+        return offsets;
+    };
+    let Some(extensions) = &block.value_information_extension else {
+        return offsets;
+    };
     // Leading extensions that hold the VIF itself are not corrections.
     let vif_length = match block.value_information.data {
         0xFB => 1,
-        0xFD if extensions.first()?.data & 0x7F == 0x7D => 2,
+        0xFD if extensions
+            .first()
+            .is_some_and(|first| first.data & 0x7F == 0x7D) =>
+        {
+            2
+        }
         0xFD => 1,
-        0x7E | 0x7F | 0xFE | 0xFF => return None,
+        0x7E | 0x7F | 0xFE | 0xFF => return offsets,
         _ => 0,
     };
-    let mut offset = None;
     let mut follows_extension_table = false;
     for extension in extensions.iter().skip(vif_length) {
         if follows_extension_table {
@@ -1788,40 +1798,41 @@ fn record_offset_power10(record: &user_data::DataRecord<'_>) -> Option<isize> {
             // Everything after 0xFF is manufacturer specific.
             0xFF => break,
             data if (0x78..=0x7B).contains(&(data & 0x7F)) => {
-                offset = Some(isize::from(data & 0b11) - 3);
+                offsets.push(isize::from(data & 0b11) - 3);
             }
             _ => {}
         }
     }
-    offset
+    offsets
 }
 
-fn scaled_decimal(significand: &str, scale: isize, offset: Option<isize>) -> String {
-    let (negative, digits) = split_sign(significand);
-    let minimum_exponent = offset.map_or(scale, |value| value.min(scale));
-    let mut left = digits.to_string();
-    left.push_str(&"0".repeat(usize::try_from(scale - minimum_exponent).unwrap_or(0)));
-    let signed_left = if negative { format!("-{left}") } else { left };
-    let integer = if let Some(offset_exponent) = offset {
-        let mut right = "1".to_string();
-        right.push_str(
-            &"0".repeat(usize::try_from(offset_exponent - minimum_exponent).unwrap_or(0)),
-        );
-        add_signed_decimal_integers(&signed_left, &right)
-    } else {
-        signed_left
-    };
-    apply_power10(&integer, minimum_exponent)
+fn scaled_decimal(
+    significand: &str,
+    scale: isize,
+    offsets: impl IntoIterator<Item = isize>,
+) -> String {
+    let (mut integer, mut exponent) = (significand.to_string(), scale);
+    for offset in offsets {
+        let minimum_exponent = exponent.min(offset);
+        let zeros = |value| "0".repeat(usize::try_from(value - minimum_exponent).unwrap_or(0));
+        let left = format!("{integer}{}", zeros(exponent));
+        let right = format!("1{}", zeros(offset));
+        integer = add_signed_decimal_integers(&left, &right);
+        exponent = minimum_exponent;
+    }
+    apply_power10(&integer, exponent)
 }
 
-fn scaled_float(value: f64, scale: isize, offset: Option<isize>) -> f64 {
+fn scaled_float(value: f64, scale: isize, offsets: &[isize]) -> f64 {
     let power10 = |exponent: usize| 10f64.powi(i32::try_from(exponent).unwrap_or(i32::MAX));
     // Dividing keeps negative powers exact up to a single rounding.
     let apply = |value: f64, exponent: isize| match usize::try_from(exponent) {
         Ok(exponent) => value * power10(exponent),
         Err(_) => value / power10(exponent.unsigned_abs()),
     };
-    apply(value, scale) + offset.map_or(0.0, |exponent| apply(1.0, exponent))
+    offsets
+        .iter()
+        .fold(apply(value, scale), |sum, offset| sum + apply(1.0, *offset))
 }
 
 fn split_sign(value: &str) -> (bool, &str) {
-- 
2.43.0


From 4c3e41a98d40c0263ab70d06e67c7df808872adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:30 +0000
Subject: [PATCH 44/63] fix: reject data information blocks with more than ten
 extension bytes

---
 crates/m-bus-application-layer/src/data_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index e7b8d60..972ef7c 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -94,7 +94,7 @@ impl<'a> TryFrom<&'a [u8]> for DataInformationBlock<'a> {
         let length = data.iter().take_while(|&&u8| u8 & 0x80 != 0).count();
         let offset = length + 1;
         match () {
-            () if dif.has_extension() && offset > MAXIMUM_DATA_INFORMATION_SIZE => {
+            () if dif.has_extension() && offset >= MAXIMUM_DATA_INFORMATION_SIZE => {
                 Err(DataInformationError::DataTooLong)
             }
             () if dif.has_extension() && offset > data.len() => {
-- 
2.43.0


From f895e5498492a43c91edbe765edb0737b1f8869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:50 +0000
Subject: [PATCH 45/63] fix: report positions of invalid hex relative to the
 given text

---
 src/output.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index 23bb8ec..9791c0f 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -552,6 +552,8 @@ pub fn decode_hex_bytes(input: &str) -> Result<Vec<u8>, OutputError> {
     if trimmed.is_empty() {
         return Err(OutputError::EmptyInput);
     }
+    // Reported positions refer to the caller's text, including leading whitespace.
+    let leading = input.len() - input.trim_start().len();
 
     if trimmed
         .chars()
@@ -559,7 +561,7 @@ pub fn decode_hex_bytes(input: &str) -> Result<Vec<u8>, OutputError> {
     {
         if !trimmed.len().is_multiple_of(2) {
             return Err(OutputError::InvalidHex {
-                index: trimmed.len() - 1,
+                index: leading + trimmed.len() - 1,
                 message: "compact hexadecimal input must contain an even number of digits"
                     .to_string(),
             });
@@ -569,7 +571,7 @@ pub fn decode_hex_bytes(input: &str) -> Result<Vec<u8>, OutputError> {
             .map(|index| {
                 u8::from_str_radix(&trimmed[index..index + 2], 16).map_err(|error| {
                     OutputError::InvalidHex {
-                        index,
+                        index: leading + index,
                         message: error.to_string(),
                     }
                 })
@@ -591,7 +593,7 @@ pub fn decode_hex_bytes(input: &str) -> Result<Vec<u8>, OutputError> {
             continue;
         }
         if saw_separator {
-            token_start = index;
+            token_start = leading + index;
             saw_separator = false;
         }
         token.push(character);
-- 
2.43.0


From bbec51f226cf3c22421f23da3a98d67e84a438a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:17 +0000
Subject: [PATCH 46/63] fix: keep table rows within the width for control and
 composed characters

---
 src/output.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index 9791c0f..b84e3f5 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -9,7 +9,7 @@ use std::fmt;
 
 use m_bus_core::SecurityMode;
 use serde::Serialize;
-use unicode_width::{UnicodeWidthChar, UnicodeWidthStr};
+use unicode_width::UnicodeWidthStr;
 use wired_mbus_link_layer as wired;
 use wireless_mbus_link_layer as wireless;
 
@@ -2447,16 +2447,21 @@ fn wrap_display(value: &str, width: usize) -> Vec<String> {
             continue;
         }
         let mut line = String::new();
-        let mut line_width = 0usize;
         for character in source_line.chars() {
-            let character_width = UnicodeWidthChar::width(character).unwrap_or(0);
-            if line_width != 0 && line_width + character_width > width {
+            // Terminals would act on control characters instead of showing them.
+            let character = if character.is_control() {
+                char::REPLACEMENT_CHARACTER
+            } else {
+                character
+            };
+            let line_end = line.len();
+            line.push(character);
+            // The width of a character can depend on its neighbours, so measure the whole line.
+            if line_end != 0 && UnicodeWidthStr::width(line.as_str()) > width {
+                line.truncate(line_end);
                 lines.push(line);
-                line = String::new();
-                line_width = 0;
+                line = String::from(character);
             }
-            line.push(character);
-            line_width += character_width;
         }
         lines.push(line);
     }
-- 
2.43.0


From b7b58b635a10a6d9ca7b451a56e3dc0e5f2d6efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:09:20 +0000
Subject: [PATCH 47/63] fix: decrypt only the blocks announced in the
 configuration field

Bits 7-4 of the configuration field give the number of encrypted 16-byte
blocks. Data after them is cleartext and was decrypted as well, which
turned its records into garbage.
---
 crates/m-bus-application-layer/src/lib.rs | 50 ++++++++++++++++++++---
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index 3b7c204..770b216 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -655,7 +655,7 @@ impl<'a> UserDataBlock<'a> {
         provider: &K,
         output: &mut [u8],
     ) -> Result<usize, crate::decryption::DecryptionError> {
-        use crate::decryption::{DecryptionError, EncryptedPayload, KeyContext};
+        use crate::decryption::{DecryptionError, KeyContext};
 
         match self {
             Self::VariableDataStructureWithLongTplHeader {
@@ -685,8 +685,13 @@ impl<'a> UserDataBlock<'a> {
                     access_number: long_tpl_header.short_tpl_header.access_number,
                 };
 
-                let payload = EncryptedPayload::new(variable_data_block, context);
-                payload.decrypt_into(provider, output)
+                decrypt_announced_blocks(
+                    &long_tpl_header.short_tpl_header.configuration_field,
+                    variable_data_block,
+                    context,
+                    provider,
+                    output,
+                )
             }
             Self::VariableDataStructureWithShortTplHeader {
                 short_tpl_header, ..
@@ -715,7 +720,7 @@ impl<'a> UserDataBlock<'a> {
         device_type: DeviceType,
         output: &mut [u8],
     ) -> Result<usize, crate::decryption::DecryptionError> {
-        use crate::decryption::{DecryptionError, EncryptedPayload, KeyContext};
+        use crate::decryption::{DecryptionError, KeyContext};
 
         match self {
             Self::VariableDataStructureWithShortTplHeader {
@@ -738,8 +743,13 @@ impl<'a> UserDataBlock<'a> {
                     access_number: short_tpl_header.access_number,
                 };
 
-                let payload = EncryptedPayload::new(variable_data_block, context);
-                payload.decrypt_into(provider, output)
+                decrypt_announced_blocks(
+                    &short_tpl_header.configuration_field,
+                    variable_data_block,
+                    context,
+                    provider,
+                    output,
+                )
             }
             Self::VariableDataStructureWithLongTplHeader { .. } => {
                 // Long TPL header has its own manufacturer info, use decrypt_variable_data() instead
@@ -750,6 +760,34 @@ impl<'a> UserDataBlock<'a> {
     }
 }
 
+/// Decrypts the 16-byte blocks announced in bits 7-4 of the configuration field
+/// and copies the cleartext that follows them. Without a block count all of
+/// `data` is taken as encrypted.
+#[cfg(feature = "decryption")]
+fn decrypt_announced_blocks<K: crate::decryption::KeyProvider>(
+    configuration: &ConfigurationField,
+    data: &[u8],
+    context: crate::decryption::KeyContext,
+    provider: &K,
+    output: &mut [u8],
+) -> Result<usize, crate::decryption::DecryptionError> {
+    use crate::decryption::{DecryptionError, EncryptedPayload};
+
+    let blocks = usize::from(configuration.mode_specific_lower() >> 4);
+    let encrypted_len = if blocks == 0 {
+        data.len()
+    } else {
+        data.len().min(blocks * 16)
+    };
+    let (encrypted, cleartext) = data.split_at(encrypted_len);
+    let output = output
+        .get_mut(..data.len())
+        .ok_or(DecryptionError::InvalidDataLength)?;
+    let len = EncryptedPayload::new(encrypted, context).decrypt_into(provider, output)?;
+    output[len..].copy_from_slice(cleartext);
+    Ok(data.len())
+}
+
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 #[derive(Debug, PartialEq)]
 #[cfg_attr(feature = "defmt", derive(defmt::Format))]
-- 
2.43.0


From 5f71e50bb59a9613cd804b7b785979b7fe44741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:24 +0000
Subject: [PATCH 48/63] fix: honour the byte order of CI 0x76 headers in the
 combined parser

The record iterator reads BCD values in the order announced by the long
transport header, but the combined parser dropped the header, so the same
telegram gave different values through MbusData and decode_bytes than
through UserDataBlock, the XML view or a decrypted payload.
---
 .../src/data_information.rs                   |  2 +-
 .../src/data_record.rs                        |  6 +++---
 crates/m-bus-application-layer/src/lib.rs     | 21 +++++++++++--------
 .../src/variable_user_data.rs                 |  4 ++--
 src/mbus_data.rs                              | 14 +++++++++++--
 5 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 972ef7c..59d0937 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -591,7 +591,7 @@ impl DataFieldCoding {
     pub fn parse<'a>(
         &self,
         input: &'a [u8],
-        fixed_data_header: Option<&'a LongTplHeader>,
+        fixed_data_header: Option<&LongTplHeader>,
     ) -> Result<Data<'a>, DataRecordError> {
         let lsb_order = fixed_data_header.map(|x| x.lsb_order).unwrap_or(false);
 
diff --git a/crates/m-bus-application-layer/src/data_record.rs b/crates/m-bus-application-layer/src/data_record.rs
index 3f28773..4d2a399 100644
--- a/crates/m-bus-application-layer/src/data_record.rs
+++ b/crates/m-bus-application-layer/src/data_record.rs
@@ -100,7 +100,7 @@ impl DataRecord<'_> {
 impl<'a> DataRecord<'a> {
     fn parse(
         data: &'a [u8],
-        fixed_data_header: Option<&'a LongTplHeader>,
+        fixed_data_header: Option<&LongTplHeader>,
     ) -> Result<Self, DataRecordError> {
         let data_record_header = DataRecordHeader::try_from(data)?;
         let header_size = data_record_header.get_size();
@@ -255,10 +255,10 @@ impl<'a> TryFrom<&'a [u8]> for DataRecordHeader<'a> {
     }
 }
 
-impl<'a> TryFrom<(&'a [u8], &'a LongTplHeader)> for DataRecord<'a> {
+impl<'a> TryFrom<(&'a [u8], &LongTplHeader)> for DataRecord<'a> {
     type Error = DataRecordError;
     fn try_from(
-        (data, fixed_data_header): (&'a [u8], &'a LongTplHeader),
+        (data, fixed_data_header): (&'a [u8], &LongTplHeader),
     ) -> Result<Self, Self::Error> {
         Self::parse(data, Some(fixed_data_header))
     }
diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index 770b216..4363820 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -68,7 +68,7 @@ pub const fn parse_data_records(data: &[u8]) -> DataRecords<'_> {
 #[must_use]
 pub const fn parse_data_records_with_header<'a>(
     data: &'a [u8],
-    header: &'a LongTplHeader,
+    header: &LongTplHeader,
 ) -> DataRecords<'a> {
     DataRecords::new(data, Some(header))
 }
@@ -80,7 +80,7 @@ pub const fn parse_data_records_with_header<'a>(
 pub struct DataRecords<'a> {
     offset: usize,
     data: &'a [u8],
-    long_tpl_header: Option<&'a LongTplHeader>,
+    long_tpl_header: Option<LongTplHeader>,
 }
 
 #[cfg(feature = "std")]
@@ -107,7 +107,7 @@ impl<'a> Iterator for DataRecords<'a> {
                     | data_information::SpecialFunctions::MoreRecordsFollow => {
                         let remaining = self.data.get(self.offset..)?;
                         self.offset = self.data.len();
-                        let record = if let Some(long_tpl_header) = self.long_tpl_header {
+                        let record = if let Some(long_tpl_header) = &self.long_tpl_header {
                             DataRecord::try_from((remaining, long_tpl_header))
                         } else {
                             DataRecord::try_from(remaining)
@@ -117,7 +117,7 @@ impl<'a> Iterator for DataRecords<'a> {
                     data_information::SpecialFunctions::GlobalReadoutRequest => {
                         let remaining = self.data.get(self.offset..)?;
                         self.offset += 1;
-                        let record = if let Some(long_tpl_header) = self.long_tpl_header {
+                        let record = if let Some(long_tpl_header) = &self.long_tpl_header {
                             DataRecord::try_from((remaining, long_tpl_header))
                         } else {
                             DataRecord::try_from(remaining)
@@ -129,7 +129,7 @@ impl<'a> Iterator for DataRecords<'a> {
                     }
                 }
             } else {
-                let record = if let Some(long_tpl_header) = self.long_tpl_header {
+                let record = if let Some(long_tpl_header) = &self.long_tpl_header {
                     DataRecord::try_from((self.data.get(self.offset..)?, long_tpl_header))
                 } else {
                     DataRecord::try_from(self.data.get(self.offset..)?)
@@ -152,11 +152,14 @@ impl<'a> Iterator for DataRecords<'a> {
 
 impl<'a> DataRecords<'a> {
     #[must_use]
-    pub const fn new(data: &'a [u8], long_tpl_header: Option<&'a LongTplHeader>) -> Self {
+    pub const fn new(data: &'a [u8], long_tpl_header: Option<&LongTplHeader>) -> Self {
         DataRecords {
             offset: 0,
             data,
-            long_tpl_header,
+            long_tpl_header: match long_tpl_header {
+                Some(header) => Some(*header),
+                None => None,
+            },
         }
     }
 
@@ -789,7 +792,7 @@ fn decrypt_announced_blocks<K: crate::decryption::KeyProvider>(
 }
 
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
-#[derive(Debug, PartialEq)]
+#[derive(Debug, Clone, Copy, PartialEq)]
 #[cfg_attr(feature = "defmt", derive(defmt::Format))]
 pub struct LongTplHeader {
     pub identification_number: IdentificationNumber,
@@ -810,7 +813,7 @@ fn default_manufacturer_result() -> Result<ManufacturerCode, ApplicationLayerErr
 }
 
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
-#[derive(Debug, PartialEq)]
+#[derive(Debug, Clone, Copy, PartialEq)]
 #[cfg_attr(feature = "defmt", derive(defmt::Format))]
 pub struct ShortTplHeader {
     pub access_number: u8,
diff --git a/crates/m-bus-application-layer/src/variable_user_data.rs b/crates/m-bus-application-layer/src/variable_user_data.rs
index df3baad..e8670b8 100644
--- a/crates/m-bus-application-layer/src/variable_user_data.rs
+++ b/crates/m-bus-application-layer/src/variable_user_data.rs
@@ -55,8 +55,8 @@ impl<'a> From<&'a [u8]> for DataRecords<'a> {
     }
 }
 
-impl<'a> From<(&'a [u8], &'a LongTplHeader)> for DataRecords<'a> {
-    fn from((data, fixed_data_header): (&'a [u8], &'a LongTplHeader)) -> Self {
+impl<'a> From<(&'a [u8], &LongTplHeader)> for DataRecords<'a> {
+    fn from((data, fixed_data_header): (&'a [u8], &LongTplHeader)) -> Self {
         DataRecords::new(data, Some(fixed_data_header))
     }
 }
diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index 44bf9b0..b934f50 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -37,10 +37,16 @@ impl<'a> TryFrom<&'a [u8]> for MbusData<'a, frames::WiredFrame<'a>> {
                     Ok(x) => {
                         match &x {
                             user_data::UserDataBlock::VariableDataStructureWithLongTplHeader {
+                                long_tpl_header,
                                 variable_data_block,
                                 ..
+                            } => {
+                                data_records = Some(user_data::DataRecords::new(
+                                    variable_data_block,
+                                    Some(long_tpl_header),
+                                ));
                             }
-                            | user_data::UserDataBlock::VariableDataStructureWithShortTplHeader {
+                            user_data::UserDataBlock::VariableDataStructureWithShortTplHeader {
                                 variable_data_block,
                                 ..
                             }
@@ -87,10 +93,14 @@ impl<'a> TryFrom<&'a [u8]> for MbusData<'a, WirelessFrame<'a>> {
             Ok(user_data_block) => {
                 match &user_data_block {
                     user_data::UserDataBlock::VariableDataStructureWithLongTplHeader {
+                        long_tpl_header,
                         variable_data_block,
                         ..
                     } => {
-                        data_records = Some((*variable_data_block).into());
+                        data_records = Some(user_data::DataRecords::new(
+                            variable_data_block,
+                            Some(long_tpl_header),
+                        ));
                     }
                     user_data::UserDataBlock::VariableDataStructureWithShortTplHeader {
                         variable_data_block,
-- 
2.43.0


From 612009c5a2c1c698c4e6479e489b4f4ff98c16b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:57 +0000
Subject: [PATCH 49/63] fix: let the legacy outputs read every accepted hex
 spelling

Line breaks, tabs, colons, dashes and the 0X prefix are accepted by the
strict reader but turned into zero bytes by the legacy one.
---
 src/mbus_data.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index b934f50..624bf10 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -134,7 +134,12 @@ impl<'a> TryFrom<&'a [u8]> for MbusData<'a, WirelessFrame<'a>> {
 fn clean_and_convert(input: &str) -> Vec<u8> {
     use core::str;
     let input = input.trim();
-    let cleaned_data: String = input.replace("0x", "").replace([' ', ',', 'x'], "");
+    let cleaned_data: String = input.replace("0x", "").replace("0X", "").replace(
+        |character: char| {
+            character.is_ascii_whitespace() || matches!(character, ',' | ':' | '-' | 'x')
+        },
+        "",
+    );
 
     cleaned_data
         .as_bytes()
-- 
2.43.0


From 5c47d259c0f35ae0c30b244868467c1c0f42313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:10 +0000
Subject: [PATCH 50/63] fix: keep line breaks in record text out of legacy
 Mermaid labels

---
 src/mbus_data.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index 624bf10..c13b8b8 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -1459,6 +1459,7 @@ fn mermaid_escape(s: &str) -> String {
     s.replace('"', "#quot;")
         .replace('[', "#91;")
         .replace(']', "#93;")
+        .replace(['\n', '\r'], " ")
 }
 
 #[cfg(test)]
-- 
2.43.0


From 4a527ef1c0300548246033b56d1faff95b9b5f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:39 +0000
Subject: [PATCH 51/63] fix: decrypt or omit encrypted records in the legacy
 Mermaid output

The key was ignored and the ciphertext was drawn as data records.
---
 src/mbus_data.rs | 57 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 54 insertions(+), 3 deletions(-)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index c13b8b8..b065fd6 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -840,7 +840,7 @@ pub fn parse_to_csv(input: &str, key: Option<&[u8; 16]>) -> String {
 
 #[cfg(feature = "std")]
 #[must_use]
-pub fn parse_to_mermaid(input: &str, _key: Option<&[u8; 16]>) -> String {
+pub fn parse_to_mermaid(input: &str, key: Option<&[u8; 16]>) -> String {
     use user_data::UserDataBlock;
 
     const MAX_PER_ROW: usize = 4;
@@ -857,6 +857,7 @@ pub fn parse_to_mermaid(input: &str, _key: Option<&[u8; 16]>) -> String {
     ];
 
     let data = clean_and_convert(input);
+    let mut decrypted_buffer = [0u8; 256];
 
     // Try wired first
     if let Ok(parsed_data) = MbusData::<frames::WiredFrame>::try_from(data.as_slice()) {
@@ -963,7 +964,17 @@ pub fn parse_to_mermaid(input: &str, _key: Option<&[u8; 16]>) -> String {
                     out.push_str("    FRAME_SG --> DEV_SG\n");
                 }
 
-                if let Some(data_records) = parsed_data.data_records {
+                let data_records = if user_data_is_encrypted(parsed_data.user_data.as_ref()) {
+                    decrypted_records(
+                        parsed_data.user_data.as_ref(),
+                        None,
+                        key,
+                        &mut decrypted_buffer,
+                    )
+                } else {
+                    parsed_data.data_records
+                };
+                if let Some(data_records) = data_records {
                     out.push_str("    subgraph REC_SG[\"Data Records\"]\n");
                     out.push_str("");
                     let records: Vec<_> = data_records.flatten().collect();
@@ -1095,7 +1106,17 @@ pub fn parse_to_mermaid(input: &str, _key: Option<&[u8; 16]>) -> String {
             ));
         }
 
-        if let Some(data_records) = parsed_data.data_records {
+        let data_records = if user_data_is_encrypted(parsed_data.user_data.as_ref()) {
+            decrypted_records(
+                parsed_data.user_data.as_ref(),
+                Some(manufacturer_id),
+                key,
+                &mut decrypted_buffer,
+            )
+        } else {
+            parsed_data.data_records
+        };
+        if let Some(data_records) = data_records {
             out.push_str("    subgraph REC_SG[\"Data Records\"]\n");
             let records: Vec<_> = data_records.flatten().collect();
             for (i, record) in records.iter().enumerate() {
@@ -1130,6 +1151,36 @@ pub fn parse_to_mermaid(input: &str, _key: Option<&[u8; 16]>) -> String {
     "flowchart TD\n    ERR[\"Error: Could not parse data\"]\n".to_string()
 }
 
+/// Records of an encrypted frame, available only with a key that fits its security mode.
+#[cfg(feature = "std")]
+fn decrypted_records<'a>(
+    user_data: Option<&user_data::UserDataBlock<'_>>,
+    wireless_manufacturer_id: Option<&wireless_mbus_link_layer::ManufacturerId>,
+    key: Option<&[u8; 16]>,
+    buffer: &'a mut [u8],
+) -> Option<user_data::DataRecords<'a>> {
+    #[cfg(feature = "decryption")]
+    {
+        let user_data = user_data?;
+        let len =
+            decrypt_variable_data_with_key(user_data, wireless_manufacturer_id, key?, buffer)?;
+        let long_header = match user_data {
+            user_data::UserDataBlock::VariableDataStructureWithLongTplHeader {
+                long_tpl_header,
+                ..
+            } => Some(long_tpl_header),
+            _ => None,
+        };
+        let buffer: &'a [u8] = buffer;
+        Some(user_data::DataRecords::new(buffer.get(..len)?, long_header))
+    }
+    #[cfg(not(feature = "decryption"))]
+    {
+        let _ = (user_data, wireless_manufacturer_id, key, buffer);
+        None
+    }
+}
+
 /// Returns (body, styles) where body contains padding node declarations + chain lines,
 /// and styles contains the invisible styles for padding nodes.
 /// Pads each incomplete row symmetrically so nodes appear centred.
-- 
2.43.0


From 7394bc4e2fe0ef751190cdd846f9db20993c7603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:08 +0000
Subject: [PATCH 52/63] fix: link legacy Mermaid records to an existing node
 without a long header

---
 src/mbus_data.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index b065fd6..8faa914 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -1005,7 +1005,13 @@ pub fn parse_to_mermaid(input: &str, key: Option<&[u8; 16]>) -> String {
                     out.push_str("    end\n");
                     styles.push_str("    style REC_SG fill:#6c3483,color:#fff,stroke:#4a235a\n");
                     styles.push_str(&pads);
-                    out.push_str("    DEV_SG --> REC_SG\n");
+                    let parent = match &parsed_data.user_data {
+                        Some(UserDataBlock::VariableDataStructureWithLongTplHeader { .. }) => {
+                            "DEV_SG"
+                        }
+                        _ => "FRAME_SG",
+                    };
+                    out.push_str(&format!("    {parent} --> REC_SG\n"));
                 }
             }
             frames::WiredFrame::ShortFrame { function, address } => {
-- 
2.43.0


From 503aa0ca9eb5ec9aba359e27aed484e94e105c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:28 +0000
Subject: [PATCH 53/63] fix: keep the records before a broken one when
 collecting a record stream

Serializing a partially readable telegram listed no records at all.
---
 crates/m-bus-application-layer/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index 4363820..851b090 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -86,8 +86,7 @@ pub struct DataRecords<'a> {
 #[cfg(feature = "std")]
 impl<'a> From<DataRecords<'a>> for Vec<DataRecord<'a>> {
     fn from(value: DataRecords<'a>) -> Self {
-        let value: Result<Vec<_>, _> = value.collect();
-        value.unwrap_or_default()
+        value.map_while(Result::ok).collect()
     }
 }
 
-- 
2.43.0


From c01426339f92b11e95778a3e4d10c1c936db1241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:43 +0000
Subject: [PATCH 54/63] fix: leave ciphertext out of the legacy record lists

The summary of an encrypted frame has no records without the key, but the
JSON and YAML data_records member listed the ciphertext decoded as records.
---
 src/mbus_data.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index 8faa914..b28e425 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -583,6 +583,9 @@ fn parse_frame_output(input: &str, key: Option<&[u8; 16]>) -> Option<ParsedOutpu
                 }
             }
         }
+        if encrypted && !decrypted {
+            parsed.data_records = None;
+        }
         let summary = summarize_wired(&parsed, encrypted, decrypted);
         return Some(build_output(&parsed, summary));
     }
@@ -622,6 +625,9 @@ fn parse_frame_output(input: &str, key: Option<&[u8; 16]>) -> Option<ParsedOutpu
                 }
             }
         }
+        if encrypted && !decrypted {
+            parsed.data_records = None;
+        }
         let summary = summarize_wireless(&parsed, encrypted, decrypted);
         return Some(build_output(&parsed, summary));
     }
-- 
2.43.0


From 23f2a5cb85bceaee3a740ee69ee35dea0bfea8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:25 +0000
Subject: [PATCH 55/63] fix: treat payloads encrypted by the extended link
 layer as encrypted in legacy outputs

---
 src/mbus_data.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index b28e425..dd367f7 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -302,8 +302,15 @@ fn user_data_is_encrypted(user_data: Option<&user_data::UserDataBlock>) -> bool
             long_tpl_header, ..
         }) => long_tpl_header.is_encrypted(),
         Some(UserDataBlock::VariableDataStructureWithShortTplHeader {
-            short_tpl_header, ..
-        }) => short_tpl_header.is_encrypted(),
+            extended_link_layer,
+            short_tpl_header,
+            ..
+        }) => {
+            short_tpl_header.is_encrypted()
+                || extended_link_layer
+                    .as_ref()
+                    .is_some_and(|ell| ell.encryption.is_some())
+        }
         _ => false,
     }
 }
-- 
2.43.0


From 3ea30f12c1473db1e5d65e8b95fc59de2e48f12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:44 +0000
Subject: [PATCH 56/63] fix: keep the parsed frame in legacy YAML when its
 header holds an error

---
 src/mbus_data.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index dd367f7..bf76a3d 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -529,6 +529,16 @@ fn summarize_wireless(
 #[cfg(feature = "std")]
 fn build_output<T: serde::Serialize>(parsed: &T, summary: FrameSummary) -> ParsedOutput {
     let mut json = serde_json::to_value(parsed).unwrap_or_default();
+
+    // YAML tags cannot be nested, so values such as an invalid manufacturer
+    // code inside an application header are written in their JSON shape.
+    let mut yaml = serde_yaml::to_string(parsed)
+        .or_else(|_| serde_yaml::to_string(&json))
+        .unwrap_or_default();
+    yaml.push_str(
+        &serde_yaml::to_string(&SummarySection { summary: &summary }).unwrap_or_default(),
+    );
+
     if let serde_json::Value::Object(ref mut map) = json {
         map.insert(
             "summary".to_string(),
@@ -536,11 +546,6 @@ fn build_output<T: serde::Serialize>(parsed: &T, summary: FrameSummary) -> Parse
         );
     }
 
-    let mut yaml = serde_yaml::to_string(parsed).unwrap_or_default();
-    yaml.push_str(
-        &serde_yaml::to_string(&SummarySection { summary: &summary }).unwrap_or_default(),
-    );
-
     ParsedOutput {
         summary,
         json,
-- 
2.43.0


From fe563204590a47ad48d1477086499e6de8bbc36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:40 +0000
Subject: [PATCH 57/63] fix: bound the drawn table width

Very large table widths made the renderer panic or exhaust memory while it
padded cells. Tables are now drawn at most 65535 columns wide.
---
 src/output.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/output.rs b/src/output.rs
index b84e3f5..f707a0e 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -23,6 +23,8 @@ use crate::user_data::value_information::{Unit, UnitName, ValueLabel};
 const SCHEMA_VERSION: u8 = 3;
 const DEFAULT_TABLE_WIDTH: usize = 100;
 const MINIMUM_TABLE_WIDTH: usize = 32;
+/// Widest table that is drawn; no terminal reports more columns.
+const MAXIMUM_TABLE_WIDTH: usize = u16::MAX as usize;
 
 /// Canonical output formats supported by the typed rendering API.
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
@@ -2186,6 +2188,7 @@ fn render_table(decoded: &DecodedOutput, width: usize) -> Result<String, OutputE
             message: format!("must be at least {MINIMUM_TABLE_WIDTH} columns"),
         });
     }
+    let width = width.min(MAXIMUM_TABLE_WIDTH);
     let mut output = String::new();
     let title = format!(
         "{} {} frame · {} decode",
-- 
2.43.0


From dd21ec40a165a031b310a4eecdea7a8d88cdf843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:13 +0000
Subject: [PATCH 58/63] fix: keep characters XML does not allow out of the XML
 output

Text of a telegram can contain U+FFFE and U+FFFF, which made the document ill
formed. They are now replaced by a blank like control characters.
---
 src/rscada_xml.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rscada_xml.rs b/src/rscada_xml.rs
index f015f87..714e803 100644
--- a/src/rscada_xml.rs
+++ b/src/rscada_xml.rs
@@ -1131,7 +1131,8 @@ fn product_name(manufacturer: &str, version: u8, medium: u8, id: u32) -> String
 fn xml_encode(text: &str) -> String {
     let mut out = String::with_capacity(text.len());
     for c in text.chars() {
-        if c.is_ascii_control() {
+        // U+FFFE and U+FFFF are not allowed in XML either.
+        if c.is_ascii_control() || matches!(c, '\u{FFFE}' | '\u{FFFF}') {
             out.push(' ');
         } else {
             match c {
-- 
2.43.0


From 436c6540b43cd7e841a307562770fa7b112c9d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:25 +0000
Subject: [PATCH 59/63] fix: show Latin-1 text in the XML output

Text that is not UTF-8 lost its characters above 0x7F in the XML output, while
the other formats show it as Latin-1.
---
 src/rscada_xml.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/rscada_xml.rs b/src/rscada_xml.rs
index 714e803..760eaa1 100644
--- a/src/rscada_xml.rs
+++ b/src/rscada_xml.rs
@@ -643,8 +643,7 @@ fn bcd_decode(bytes: &[u8]) -> f64 {
 
 /// Reversed ASCII string decode (`mbus_data_str_decode`).
 fn str_decode(bytes: &[u8]) -> String {
-    let reversed: Vec<u8> = bytes.iter().rev().copied().collect();
-    String::from_utf8_lossy(&reversed).into_owned()
+    user_data::data_information::TextUnit::new(bytes).to_string()
 }
 
 /// Space-separated hex dump (`mbus_data_bin_decode`).
-- 
2.43.0


From 5a30aae02a9e35af437b390838830ae11b6495db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:47 +0000
Subject: [PATCH 60/63] fix: honour the byte order of CI 0x76 in the XML output

BCD values of such telegrams were read least significant byte first in the XML
output only, so it contradicted every other format.
---
 src/rscada_xml.rs | 53 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/rscada_xml.rs b/src/rscada_xml.rs
index 760eaa1..3fea8f7 100644
--- a/src/rscada_xml.rs
+++ b/src/rscada_xml.rs
@@ -295,7 +295,7 @@ fn render_wireless_variable(
     out.push_str("    </SlaveInformation>\n\n");
     if let Some(records) = records {
         for (index, record) in records.clone().flatten().enumerate() {
-            out.push_str(&render_variable_record(index, &record));
+            out.push_str(&render_variable_record(index, &record, false));
         }
     }
     out.push_str("</MBusData>\n");
@@ -313,7 +313,7 @@ fn render_variable(
 
     if let Some(records) = records {
         for (i, record) in records.clone().flatten().enumerate() {
-            out.push_str(&render_variable_record(i, &record));
+            out.push_str(&render_variable_record(i, &record, header.lsb_order));
         }
     }
 
@@ -385,9 +385,13 @@ struct NormalizedRecord {
     value: DecodedValue,
 }
 
-fn render_variable_record(index: usize, record: &user_data::data_record::DataRecord) -> String {
+fn render_variable_record(
+    index: usize,
+    record: &user_data::data_record::DataRecord,
+    reversed_bcd: bool,
+) -> String {
     let mut out = format!("    <DataRecord id=\"{}\">\n", index);
-    if let Some(normalized) = normalize_record(record) {
+    if let Some(normalized) = normalize_record(record, reversed_bcd) {
         out.push_str(&format!(
             "        <Function>{}</Function>\n",
             xml_encode(&normalized.function)
@@ -421,7 +425,10 @@ fn render_variable_record(index: usize, record: &user_data::data_record::DataRec
     out
 }
 
-fn normalize_record(record: &user_data::data_record::DataRecord) -> Option<NormalizedRecord> {
+fn normalize_record(
+    record: &user_data::data_record::DataRecord,
+    reversed_bcd: bool,
+) -> Option<NormalizedRecord> {
     let dib = &record
         .data_record_header
         .raw_data_record_header
@@ -478,7 +485,7 @@ fn normalize_record(record: &user_data::data_record::DataRecord) -> Option<Norma
         .as_ref()
         .map(|chars| chars.iter().rev().collect());
 
-    let value = variable_value_decode(dif, vif, vifes.first().copied(), data).ok()?;
+    let value = variable_value_decode(dif, vif, vifes.first().copied(), data, reversed_bcd).ok()?;
 
     let (unit, quantity, normalized_value) = match value {
         DecodedValue::Real(raw) => {
@@ -545,6 +552,7 @@ fn variable_value_decode(
     vif_raw: u8,
     vife0: Option<u8>,
     data: &[u8],
+    reversed_bcd: bool,
 ) -> Result<DecodedValue, ()> {
     let vif = vif_raw & 0x7F;
     let vife = vife0.map(|v| v & 0x7F);
@@ -591,10 +599,22 @@ fn variable_value_decode(
             }
         }
         0x07 => Ok(DecodedValue::Real(int_decode(data.get(..8).ok_or(())?))),
-        0x09 => Ok(DecodedValue::Real(bcd_decode(data.get(..1).ok_or(())?))),
-        0x0A => Ok(DecodedValue::Real(bcd_decode(data.get(..2).ok_or(())?))),
-        0x0B => Ok(DecodedValue::Real(bcd_decode(data.get(..3).ok_or(())?))),
-        0x0C => Ok(DecodedValue::Real(bcd_decode(data.get(..4).ok_or(())?))),
+        0x09 => Ok(DecodedValue::Real(bcd_decode(
+            data.get(..1).ok_or(())?,
+            reversed_bcd,
+        ))),
+        0x0A => Ok(DecodedValue::Real(bcd_decode(
+            data.get(..2).ok_or(())?,
+            reversed_bcd,
+        ))),
+        0x0B => Ok(DecodedValue::Real(bcd_decode(
+            data.get(..3).ok_or(())?,
+            reversed_bcd,
+        ))),
+        0x0C => Ok(DecodedValue::Real(bcd_decode(
+            data.get(..4).ok_or(())?,
+            reversed_bcd,
+        ))),
         0x0D => {
             let lvar = *data.first().ok_or(())?;
             let tail = data.get(1..).ok_or(())?;
@@ -604,7 +624,10 @@ fn variable_value_decode(
                 Ok(DecodedValue::Str(bin_decode(tail)))
             }
         }
-        0x0E => Ok(DecodedValue::Real(bcd_decode(data.get(..6).ok_or(())?))),
+        0x0E => Ok(DecodedValue::Real(bcd_decode(
+            data.get(..6).ok_or(())?,
+            reversed_bcd,
+        ))),
         0x0F => Ok(DecodedValue::Str(bin_decode(data))),
         _ => Err(()),
     }
@@ -626,7 +649,13 @@ fn int_decode(bytes: &[u8]) -> f64 {
 
 /// BCD decode, ported from `mbus_data_bcd_decode` including its handling of
 /// invalid high nibbles and the negative-number F marker.
-fn bcd_decode(bytes: &[u8]) -> f64 {
+///
+/// Least significant byte first, or most significant byte first if `reversed`.
+fn bcd_decode(bytes: &[u8], reversed: bool) -> f64 {
+    let mut bytes = bytes.to_vec();
+    if reversed {
+        bytes.reverse();
+    }
     let mut value: i64 = 0;
     for &byte in bytes.iter().rev() {
         value *= 10;
-- 
2.43.0


From a254412146d3a0ed48c2405d51dd883326362d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:40 +0000
Subject: [PATCH 61/63] fix: remove the match arm that the VIF 0x7D repair left
 unreachable

---
 crates/m-bus-application-layer/src/value_information.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 5d9f92f..0104397 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -165,7 +165,6 @@ impl From<&ValueInformationField> for ValueInformationCoding {
             0xFE => Self::ManufacturerSpecific,
             0x7F => Self::ManufacturerSpecific,
             0xFF => Self::ManufacturerSpecific,
-            _ => unreachable!("Invalid value information: {:X}", value_information.data),
         }
     }
 }
-- 
2.43.0


From 3f2c62fe718c0ec34592b1ae80b3da901280aae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:24:56 +0000
Subject: [PATCH 62/63] fix: honour the byte order of CI 0x76 in the annotated
 view

---
 src/annotate.rs  | 31 +++++++++++++++++++++++++------
 src/mbus_data.rs | 13 ++++++++++++-
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index c916098..35549c9 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -6,7 +6,7 @@
 //! related fields (e.g., all bytes of a data record).
 
 use crate::user_data::data_record::DataRecord;
-use crate::user_data::UserDataBlock;
+use crate::user_data::{LongTplHeader, UserDataBlock};
 use crate::MbusError;
 use std::borrow::Cow;
 use std::fmt;
@@ -422,7 +422,8 @@ fn annotate_application_layer(
                     });
                 }
             } else {
-                annotate_data_records(segments, records_start, records_data);
+                let header = long_tpl_header(app_data);
+                annotate_data_records(segments, records_start, records_data, header.as_ref());
             }
         }
 
@@ -530,7 +531,7 @@ fn annotate_application_layer(
                     });
                 }
             } else {
-                annotate_data_records(segments, offset, records_data);
+                annotate_data_records(segments, offset, records_data, None);
             }
         }
 
@@ -547,7 +548,7 @@ fn annotate_application_layer(
 
             let records_data = &app_data[1..];
             if !records_data.is_empty() {
-                annotate_data_records(segments, base + 1, records_data);
+                annotate_data_records(segments, base + 1, records_data, None);
             }
         }
 
@@ -828,7 +829,22 @@ fn annotate_long_tpl_header(
 
 // ── Data record annotation ──────────────────────────────────────────────────
 
-pub(crate) fn annotate_data_records(segments: &mut Vec<ByteSegment>, base: usize, data: &[u8]) {
+/// The long TPL header of `app_data`, which fixes the byte order of its records.
+pub(crate) fn long_tpl_header(app_data: &[u8]) -> Option<LongTplHeader> {
+    match UserDataBlock::try_from(app_data) {
+        Ok(UserDataBlock::VariableDataStructureWithLongTplHeader {
+            long_tpl_header, ..
+        }) => Some(long_tpl_header),
+        _ => None,
+    }
+}
+
+pub(crate) fn annotate_data_records(
+    segments: &mut Vec<ByteSegment>,
+    base: usize,
+    data: &[u8],
+    header: Option<&LongTplHeader>,
+) {
     let mut offset = 0usize;
     let mut record_index = 0usize;
 
@@ -909,7 +925,10 @@ pub(crate) fn annotate_data_records(segments: &mut Vec<ByteSegment>, base: usize
 
         // Try to parse the data record to get accurate sizes
         let remaining = &data[offset..];
-        let record_result = DataRecord::try_from(remaining);
+        let record_result = match header {
+            Some(header) => DataRecord::try_from((remaining, header)),
+            None => DataRecord::try_from(remaining),
+        };
 
         match record_result {
             Ok(record) => {
diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index bf76a3d..4da1aea 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -1365,12 +1365,23 @@ fn replace_encrypted_payload_segments(
     display_data: &[u8],
 ) {
     let mut rewritten = Vec::with_capacity(segments.len());
+    let header = segments
+        .iter()
+        .rev()
+        .find(|segment| segment.kind == crate::annotate::SegmentKind::CiField)
+        .and_then(|segment| display_data.get(segment.start..))
+        .and_then(crate::annotate::long_tpl_header);
 
     for segment in segments.drain(..) {
         if segment.kind == crate::annotate::SegmentKind::EncryptedPayload {
             let before_len = rewritten.len();
             if let Some(data) = display_data.get(segment.start..segment.end) {
-                crate::annotate::annotate_data_records(&mut rewritten, segment.start, data);
+                crate::annotate::annotate_data_records(
+                    &mut rewritten,
+                    segment.start,
+                    data,
+                    header.as_ref(),
+                );
             }
             if rewritten.len() == before_len {
                 rewritten.push(segment);
-- 
2.43.0


From ece5e8603d18d5dfe4b3c7285aa7b8c21137e4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:52:41 +0000
Subject: [PATCH 63/63] fix: use every byte of integers longer than eight bytes

---
 .../src/data_information.rs                       | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 59d0937..bc59a9f 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -561,6 +561,19 @@ fn bcd_to_value_internal(
     })
 }
 
+/// Nearest value of a little-endian integer too long for an `i64`.
+fn long_integer_to_f64(data: &[u8]) -> f64 {
+    let negative = data.last().is_some_and(|byte| byte & 0x80 != 0);
+    let magnitude = data.iter().rev().fold(0.0, |value, byte| {
+        value * 256.0 + f64::from(if negative { !byte } else { *byte })
+    });
+    if negative {
+        -(magnitude + 1.0)
+    } else {
+        magnitude
+    }
+}
+
 fn integer_to_value_internal(data: &[u8], byte_size: usize) -> Data<'_> {
     let mut data_value = 0i64;
     let mut shift = 0;
@@ -577,7 +590,7 @@ fn integer_to_value_internal(data: &[u8], byte_size: usize) -> Data<'_> {
     };
 
     let output = if byte_size > 8 {
-        DataType::LossyNumber(data_value as f64)
+        DataType::LossyNumber(long_integer_to_f64(data.get(..byte_size).unwrap_or(data)))
     } else {
         DataType::Number(data_value as f64)
     };
-- 
2.43.0

