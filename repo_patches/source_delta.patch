From 254818e76b953d22b903675795db874ef195ce36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 01/11] fix: compare the MLX90640 EEPROM dump length in bytes,
 not words

---
 mlx9064x/src/mlx90640/eeprom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index b0ec12d..9ce6fd7 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -250,7 +250,7 @@ impl Mlx90640Calibration {
     /// The buffer must cover *all* of the EEPROM.
     pub fn from_data(data: &[u8]) -> Result<Self, LibraryError> {
         let mut buf = data;
-        let eeprom_length = usize::from(EepromAddress::End - EepromAddress::Base);
+        let eeprom_length = (EepromAddress::End.offset_from_base() + 1) * WORD_SIZE;
         if buf.len() < eeprom_length {
             return Err(LibraryError::Other(
                 "Not enough space left in buffer to be a full EEPROM dump",
-- 
2.43.0


From 19cdab4b692ac2e55a59f4aafb1b1ac96c27a61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 02/11] fix: reject truncated MLX90641 EEPROM dumps instead of
 panicking

---
 mlx9064x/src/mlx90641/eeprom.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mlx9064x/src/mlx90641/eeprom.rs b/mlx9064x/src/mlx90641/eeprom.rs
index 44da0cb..eb30bfd 100644
--- a/mlx9064x/src/mlx90641/eeprom.rs
+++ b/mlx9064x/src/mlx90641/eeprom.rs
@@ -84,6 +84,12 @@ pub struct Mlx90641Calibration {
 impl Mlx90641Calibration {
     pub fn from_data(data: &[u8]) -> Result<Self, LibraryError> {
         let mut buf = data;
+        let eeprom_length = (EepromAddress::End.offset_from_base() + 1) * WORD_SIZE;
+        if buf.len() < eeprom_length {
+            return Err(LibraryError::Other(
+                "Not enough space left in buffer to be a full EEPROM dump",
+            ));
+        }
         // Much like the MLX90640 implementation, this is a mess of a function as the data is
         // scattered across the EEPROM.
         // Skip past the per-pixel values
-- 
2.43.0


From 7c7d520beec39bdb908aa122a238cf84f01a39ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 03/11] fix: keep the fractional part of the MLX90640 alpha
 PTAT constant

---
 mlx9064x/src/mlx90640/eeprom.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index 9ce6fd7..1c82ddc 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -261,7 +261,7 @@ impl Mlx90640Calibration {
         // alpha_PTAT and offset compensation correction scales
         let (mut offset_reference_pixels, offset_correction_remainder_scale, alpha_ptat) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
-        let alpha_ptat = alpha_ptat / 4 + 8;
+        let alpha_ptat = f32::from(alpha_ptat) / 4f32 + 8f32;
         let (alpha_pixels, alpha_correction_remainder_scale, alpha_scale_exp) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
         let alpha_pixels: ArrayVec<f32, { Mlx90640::NUM_PIXELS }> =
@@ -380,7 +380,7 @@ impl Mlx90640Calibration {
             k_v_ptat,
             k_t_ptat,
             v_ptat_25: v_ptat_25.into(),
-            alpha_ptat: alpha_ptat.into(),
+            alpha_ptat,
             gain: gain.into(),
             k_s_ta,
             corner_temperatures,
-- 
2.43.0


From a6bca179f743e152dbc3d366547552e6ab565f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 04/11] fix: avoid 16-bit overflow when combining MLX90640
 pixel calibration values

---
 mlx9064x/src/mlx90640/eeprom.rs | 34 +++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index 1c82ddc..57815e7 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -91,25 +91,25 @@ impl Mlx90640Calibration {
     /// preceding the scaling factors are returned (in that order).
     fn calculate_bulk_pixel_calibration(
         data: &mut &[u8],
-    ) -> ([i16; <Self as CalibrationData>::Camera::NUM_PIXELS], u8, u8) {
+    ) -> ([i32; <Self as CalibrationData>::Camera::NUM_PIXELS], u8, u8) {
         let (extra_value, row_scale, column_scale, remainder_scale) = {
             let scales = word_to_u4s(data);
             (scales[0], scales[1], scales[2], scales[3])
         };
-        let offset_average = data.get_i16();
+        let offset_average = i32::from(data.get_i16());
         let mut pixel_calibration = [offset_average; Mlx90640::NUM_PIXELS];
         const VALUES_PER_DATA_ROW: usize = 4;
         // Add row offsets
         for row_chunks in pixel_calibration.chunks_exact_mut(Mlx90640::WIDTH * VALUES_PER_DATA_ROW)
         {
             let rows_coefficients = word_to_i4s(data);
-            // Create a nice lazy iterator that converts the values to i16, scales them, and
+            // Create a nice lazy iterator that converts the values to i32, scales them, and
             // reverses that order of the data (because the data is laid out backwards in the
             // EEPROM).
             let rows_coefficients = rows_coefficients
                 .into_iter()
                 //let rows_coefficients = core::array::IntoIter::new(rows_coefficients)
-                .map(i16::from)
+                .map(i32::from)
                 .map(|coeff| coeff << row_scale)
                 .rev();
             for (row, coefficient) in row_chunks
@@ -128,7 +128,7 @@ impl Mlx90640Calibration {
             let column_coefficients = column_coefficients
                 .iter()
                 .copied()
-                .map(i16::from)
+                .map(i32::from)
                 .map(|coeff| coeff << column_scale)
                 .rev();
             for row in pixel_calibration.chunks_exact_mut(Mlx90640::WIDTH) {
@@ -183,7 +183,7 @@ impl Mlx90640Calibration {
     /// this value is chosen from four values, determined by if the row and column indices are even
     /// or odd. The rest of the calculation is performed later, with the rest of the per-pixel
     /// calculations.
-    fn generate_k_ta_pixels(data: &mut &[u8]) -> impl Iterator<Item = i16> {
+    fn generate_k_ta_pixels(data: &mut &[u8]) -> impl Iterator<Item = i32> {
         let source_data: ArrayVec<i8, 4> = (0..4).map(|_| data.get_i8()).collect();
         let source_data = source_data.into_inner().unwrap();
         Self::repeat_chessboard(source_data)
@@ -265,7 +265,7 @@ impl Mlx90640Calibration {
         let (alpha_pixels, alpha_correction_remainder_scale, alpha_scale_exp) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
         let alpha_pixels: ArrayVec<f32, { Mlx90640::NUM_PIXELS }> =
-            alpha_pixels.into_iter().map(f32::from).collect();
+            alpha_pixels.into_iter().map(|alpha| alpha as f32).collect();
         // Safe to unwrap as the length of pixel arrays are *all* Mlx90640::NUM_PIXELS long.
         let mut alpha_pixels = alpha_pixels.into_inner().unwrap();
         // Calculate the actual alpha scaling value from the exponent value. The alpha scaling
@@ -353,26 +353,32 @@ impl Mlx90640Calibration {
                         failed.set(true);
                     } else {
                         // Normal dance to extend the sign bit from an i6 to an i8
-                        let offset_remainder = i16::from(i8::from_ne_bytes([high & 0xFC]) >> 2);
+                        let offset_remainder = i32::from(i8::from_ne_bytes([high & 0xFC]) >> 2);
                         *offset += offset_remainder << offset_correction_remainder_scale;
                         // alpha is going to be a little weird: not only is there the i6-shift-dance,
                         // but there's an extra shift right by 4 to drop the k_ta and outlier bits.
                         let alpha_remainder = (i16::from_be_bytes([high & 0x03, low]) << 6) >> 10;
-                        *alpha += f32::from(alpha_remainder << alpha_correction_remainder_scale);
+                        *alpha +=
+                            (i32::from(alpha_remainder) << alpha_correction_remainder_scale) as f32;
                         *alpha /= alpha_scale;
                         // To try to keep floating point errors down as long as possible, do all the
                         // operations for the numerator as ints, then convert to floats for the final
                         // division.
-                        let k_ta_remainder = i16::from(i8::from_ne_bytes([low & 0x0E]) << 4 >> 5);
-                        let k_ta_numerator =
-                            f32::from(k_ta_rc + (k_ta_remainder << k_ta_scale2_exp));
-                        *k_ta = k_ta_numerator / k_ta_scale1;
+                        let k_ta_remainder = i32::from(i8::from_ne_bytes([low & 0x0E]) << 4 >> 5);
+                        let k_ta_numerator = k_ta_rc + (k_ta_remainder << k_ta_scale2_exp);
+                        *k_ta = k_ta_numerator as f32 / k_ta_scale1;
                         // If the last bit of the low byte is set, this is an outlier (or deviant)
                         // pixel.
                         outlier.set(is_bit_set(low, 0))
                     }
                 },
             );
+        // The sum of the scaled values can be too large, but only if the EEPROM is corrupted.
+        let mut offset_pixels = [0i16; Mlx90640::NUM_PIXELS];
+        for (dest, offset) in offset_pixels.iter_mut().zip(offset_reference_pixels) {
+            *dest = i16::try_from(offset)
+                .map_err(|_| LibraryError::InvalidData("Pixel offset is out of range"))?;
+        }
         Ok(Self {
             k_v_dd,
             v_dd_25,
@@ -388,7 +394,7 @@ impl Mlx90640Calibration {
             alpha_correction,
             alpha_pixels,
             alpha_cp,
-            offset_reference_pixels,
+            offset_reference_pixels: offset_pixels,
             offset_reference_cp,
             k_v_pattern,
             k_v_cp,
-- 
2.43.0


From a544abc0f75a87b1a1d0e430f556b7b8ccf2eaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 05/11] fix: read the MLX90640 average pixel sensitivity as an
 unsigned value

---
 mlx9064x/src/mlx90640/eeprom.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index 57815e7..d99edb4 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -86,17 +86,23 @@ impl Mlx90640Calibration {
     ///
     /// Remainder data will be added in afterwards. This function is used for both offset and
     /// sensitivity (alpha) arrays. The given buffer must be at the word containing the column, row
-    /// and remainder scaling factors.
+    /// and remainder scaling factors. The offset average is a signed value, while the sensitivity
+    /// average is unsigned.
     /// The calculated array, the remainder scaling factor, and the value occupying the 4 bits
     /// preceding the scaling factors are returned (in that order).
     fn calculate_bulk_pixel_calibration(
         data: &mut &[u8],
+        signed_average: bool,
     ) -> ([i32; <Self as CalibrationData>::Camera::NUM_PIXELS], u8, u8) {
         let (extra_value, row_scale, column_scale, remainder_scale) = {
             let scales = word_to_u4s(data);
             (scales[0], scales[1], scales[2], scales[3])
         };
-        let offset_average = i32::from(data.get_i16());
+        let offset_average = if signed_average {
+            i32::from(data.get_i16())
+        } else {
+            i32::from(data.get_u16())
+        };
         let mut pixel_calibration = [offset_average; Mlx90640::NUM_PIXELS];
         const VALUES_PER_DATA_ROW: usize = 4;
         // Add row offsets
@@ -260,10 +266,10 @@ impl Mlx90640Calibration {
         buf.advance(WORD_SIZE * 16);
         // alpha_PTAT and offset compensation correction scales
         let (mut offset_reference_pixels, offset_correction_remainder_scale, alpha_ptat) =
-            Self::calculate_bulk_pixel_calibration(&mut buf);
+            Self::calculate_bulk_pixel_calibration(&mut buf, true);
         let alpha_ptat = f32::from(alpha_ptat) / 4f32 + 8f32;
         let (alpha_pixels, alpha_correction_remainder_scale, alpha_scale_exp) =
-            Self::calculate_bulk_pixel_calibration(&mut buf);
+            Self::calculate_bulk_pixel_calibration(&mut buf, false);
         let alpha_pixels: ArrayVec<f32, { Mlx90640::NUM_PIXELS }> =
             alpha_pixels.into_iter().map(|alpha| alpha as f32).collect();
         // Safe to unwrap as the length of pixel arrays are *all* Mlx90640::NUM_PIXELS long.
-- 
2.43.0


From 5030019e578d03b4bbef09e1630167fbdb975f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 06/11] fix: use all 16 bits of the MLX90641 average pixel
 offset

---
 mlx9064x/src/mlx90641/eeprom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlx9064x/src/mlx90641/eeprom.rs b/mlx9064x/src/mlx90641/eeprom.rs
index eb30bfd..52ec948 100644
--- a/mlx9064x/src/mlx90641/eeprom.rs
+++ b/mlx9064x/src/mlx90641/eeprom.rs
@@ -351,7 +351,7 @@ impl PerPixelCalibration {
         let (offset_scale, _) = get_6_5_split(&mut buf)?;
         let offset_scale = 2i16.pow(offset_scale as u32);
         let offset_average_bytes = get_combined_word(&mut buf)?;
-        let offset_average = i16_from_i11(&offset_average_bytes[..]);
+        let offset_average = i16::from_be_bytes(offset_average_bytes);
         // the next two words are reserved.
         buf.advance(WORD_SIZE * 2);
         let k_ta_average = get_hamming_i16(&mut buf)?;
-- 
2.43.0


From a96c958647104614ae9e16d987ac03bb98b5ca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 07/11] fix: report out of range MLX90641 pixel offsets instead
 of overflowing

---
 mlx9064x/src/mlx90641/eeprom.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/mlx9064x/src/mlx90641/eeprom.rs b/mlx9064x/src/mlx90641/eeprom.rs
index 52ec948..0314593 100644
--- a/mlx9064x/src/mlx90641/eeprom.rs
+++ b/mlx9064x/src/mlx90641/eeprom.rs
@@ -349,7 +349,9 @@ impl PerPixelCalibration {
         buf.advance(EepromAddress::OffsetCompensationScale.offset_from_base() * WORD_SIZE);
         // Offset scale is the upper 6 bits. The other bits are reserved.
         let (offset_scale, _) = get_6_5_split(&mut buf)?;
-        let offset_scale = 2i16.pow(offset_scale as u32);
+        // Anything scaled by 2^20 (other than 0) is already too large for an i16, so larger scales
+        // don't need to be distinguished.
+        let offset_scale = 2i32.pow(u32::from(offset_scale).min(20));
         let offset_average_bytes = get_combined_word(&mut buf)?;
         let offset_average = i16::from_be_bytes(offset_average_bytes);
         // the next two words are reserved.
@@ -434,16 +436,13 @@ impl PerPixelCalibration {
                 k_ta_pixels.push(Default::default());
                 k_v_pixels.push(Default::default());
             } else {
-                // NOTE: There's a chance this will overflow, if offset_scale is too large
-                let offset_delta_0 = offset_0_raw * offset_scale;
-                let offset_delta_1 = offset_1_raw * offset_scale;
-                // The contents of the offset pixels are initialized to offset_average
-                offset_reference_pixels
-                    .0
-                    .push(offset_average + offset_delta_0);
-                offset_reference_pixels
-                    .1
-                    .push(offset_average + offset_delta_1);
+                let scale_offset = |raw_offset: i16| {
+                    let offset = i32::from(offset_average) + i32::from(raw_offset) * offset_scale;
+                    i16::try_from(offset)
+                        .map_err(|_| LibraryError::InvalidData("Pixel offset is out of range"))
+                };
+                offset_reference_pixels.0.push(scale_offset(offset_0_raw)?);
+                offset_reference_pixels.1.push(scale_offset(offset_1_raw)?);
                 // The datasheet is a little hard to read for this, but alpha_EE is divided by
                 // (2^{11} - 1) = 2047
                 alpha_pixels.push((f32::from(alpha_raw) / 2047f32) * alpha_reference);
-- 
2.43.0


From 9f26e555d7d8bcf36234110b971c2c3a3e690adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 08/11] fix: avoid 16-bit overflow in delta_v

---
 mlx9064x/src/calculations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlx9064x/src/calculations.rs b/mlx9064x/src/calculations.rs
index 75bd682..7b0b0a6 100644
--- a/mlx9064x/src/calculations.rs
+++ b/mlx9064x/src/calculations.rs
@@ -159,7 +159,7 @@ const KELVINS_TO_CELSIUS: f32 = 273.15;
 /// while $V_{DD_{pix}}$ (`v_dd_pixel`) is read from the camera's RAM.
 #[doc = include_str!("katex.html")]
 pub fn delta_v<'a, Clb: CalibrationData<'a>>(calibration: &'a Clb, v_dd_pixel: i16) -> f32 {
-    f32::from(v_dd_pixel - calibration.v_dd_25()) / f32::from(calibration.k_v_dd())
+    (f32::from(v_dd_pixel) - f32::from(calibration.v_dd_25())) / f32::from(calibration.k_v_dd())
 }
 
 /// Calculate $V_{DD}$
-- 
2.43.0


From 3d899043d23d0f198d3248a22618c28d240738d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 09/11] fix: only apply the resolution correction to the pixel
 voltage in v_dd

---
 mlx9064x/src/calculations.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mlx9064x/src/calculations.rs b/mlx9064x/src/calculations.rs
index 7b0b0a6..c628420 100644
--- a/mlx9064x/src/calculations.rs
+++ b/mlx9064x/src/calculations.rs
@@ -172,7 +172,8 @@ pub fn delta_v<'a, Clb: CalibrationData<'a>>(calibration: &'a Clb, v_dd_pixel: i
 /// \begin{align*}
 /// V\_{DD} &= \frac{\text{Resolution}\_\text{corr} \* V\_{DD\_{pix}} - V\_{DD\_{25}}}{K\_{V\_{DD}}} +
 ///          V\_{DD\_0}\newline
-///         &= \text{Resolution}\_\text{corr} * \Delta V + V\_{DD\_0}
+///         &= \text{Resolution}\_\text{corr} * \Delta V +
+///          \frac{(\text{Resolution}\_\text{corr} - 1) * V\_{DD\_{25}}}{K\_{V\_{DD}}} + V\_{DD\_0}
 /// \end{align*}
 ///
 /// $V_{DD_{0}}$ is retrieved from the `calibration` argument, while $\Delta V$ (`delta_v`) is the
@@ -187,7 +188,11 @@ pub fn v_dd<'a, Clb: CalibrationData<'a>>(
     resolution_correction: f32,
     delta_v: f32,
 ) -> f32 {
-    delta_v * resolution_correction + calibration.v_dd_0()
+    // delta_v has the uncorrected V_DD_25 subtracted, so scaling it by resolution_correction also
+    // scales V_DD_25.
+    let v_dd_25_correction = (resolution_correction - 1f32) * f32::from(calibration.v_dd_25())
+        / f32::from(calibration.k_v_dd());
+    delta_v * resolution_correction + v_dd_25_correction + calibration.v_dd_0()
 }
 
 /// Calculate $V\_{PTAT\_{art}}$
-- 
2.43.0


From 3de3f32675f6f867203e57ee0a9ee4226e99bcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 10/11] fix: don't cache control register settings that failed
 to be written

---
 mlx9064x/src/driver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlx9064x/src/driver.rs b/mlx9064x/src/driver.rs
index 2bd10e1..bf440b6 100644
--- a/mlx9064x/src/driver.rs
+++ b/mlx9064x/src/driver.rs
@@ -161,8 +161,8 @@ where
     }
 
     fn set_control_register(&mut self, register: ControlRegister) -> Result<(), Error<I2C>> {
-        self.update_control_register(&register);
         register.to_i2c(&mut self.bus, self.address)?;
+        self.update_control_register(&register);
         Ok(())
     }
 
-- 
2.43.0


From b6f0b2fabd335d37c1f5ea588fcbece66b657a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 11/11] fix: preserve the reserved bits of the I2C register

---
 mlx9064x/src/register.rs | 42 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/mlx9064x/src/register.rs b/mlx9064x/src/register.rs
index 65e9016..4688ef9 100644
--- a/mlx9064x/src/register.rs
+++ b/mlx9064x/src/register.rs
@@ -1,5 +1,6 @@
 //! Types for interacting with Melexis camera registers.
 
+use core::cmp::Ordering;
 use core::convert::{TryFrom, TryInto};
 use core::time::Duration;
 
@@ -423,8 +424,11 @@ impl From<ControlRegister> for [u8; 2] {
 }
 
 /// Represents the possible states of the I²C configuration register (0x800F).
-#[derive(Clone, Copy, Debug, Eq, PartialEq, PartialOrd, Ord)]
+#[derive(Clone, Copy, Debug)]
 pub struct I2cRegister {
+    /// The reserved bits, kept so that they are written back unchanged.
+    reserved: u16,
+
     fast_mode_plus: bool,
 
     i2c_threshold_halved: bool,
@@ -433,6 +437,17 @@ pub struct I2cRegister {
 }
 
 impl I2cRegister {
+    const RESERVED_MASK: u16 = 0xFFF8;
+
+    /// The documented fields, ignoring the reserved bits.
+    fn fields(&self) -> (bool, bool, bool) {
+        (
+            self.fast_mode_plus,
+            self.i2c_threshold_halved,
+            self.sda_current_limiter,
+        )
+    }
+
     /// Check if I²C Fast Mode+ enabled.
     ///
     /// Defaults to enabled.
@@ -470,9 +485,31 @@ impl I2cRegister {
     }
 }
 
+impl PartialEq for I2cRegister {
+    /// This method only compares non-reserved bits between two registers.
+    fn eq(&self, other: &Self) -> bool {
+        self.fields() == other.fields()
+    }
+}
+
+impl Eq for I2cRegister {}
+
+impl PartialOrd for I2cRegister {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for I2cRegister {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.fields().cmp(&other.fields())
+    }
+}
+
 impl Default for I2cRegister {
     fn default() -> Self {
         Self {
+            reserved: 0,
             fast_mode_plus: true,
             i2c_threshold_halved: false,
             sda_current_limiter: true,
@@ -506,6 +543,7 @@ impl<'a> From<&'a [u8]> for I2cRegister {
         // Like fast_mode_plus, I'm rephrasing this flag to be the opposite
         let sda_current_limiter = !is_bit_set(raw, 2);
         Self {
+            reserved: raw & Self::RESERVED_MASK,
             fast_mode_plus,
             i2c_threshold_halved,
             sda_current_limiter,
@@ -515,7 +553,7 @@ impl<'a> From<&'a [u8]> for I2cRegister {
 
 impl From<I2cRegister> for [u8; 2] {
     fn from(register: I2cRegister) -> Self {
-        let mut raw = 0u16;
+        let mut raw = register.reserved;
         // And here we translate back to "not disabled" land.
         if !register.fast_mode_plus {
             raw |= 0x0001;
-- 
2.43.0

