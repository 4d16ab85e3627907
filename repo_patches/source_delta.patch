From e937318b61eafe552a5dbcd77fa58784f7403229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 01/19] fix: round instead of truncating when quantising
 channels for lossless formats

---
 d10-codecs/src/utils.rs | 24 +++++++++++++++++-------
 d10-codecs/src/webp.rs  |  8 ++++++--
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index 51d8329..3b6e2ee 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -7,12 +7,19 @@ use crate::DecodingError;
 
 /// Convert color channel value between 0.0 and 1.0 into an u8
 pub(crate) fn as_u8(value: f32) -> u8 {
-    (value * 255.0).clamp(0.0, 255.0) as u8
+    // Round to the nearest value (ties down), so that decoded samples survive encoding unchanged
+    (value * 255.0 - 0.5).ceil().clamp(0.0, 255.0) as u8
 }
 
 /// Convert color channel value between 0.0 and 1.0 into an u16
 pub(crate) fn as_u16(value: f32) -> u16 {
-    (value * 65535.0).clamp(0.0, 65535.0) as u16
+    // Round to the nearest value (ties down), so that decoded samples survive encoding unchanged
+    (value * 65535.0 - 0.5).ceil().clamp(0.0, 65535.0) as u16
+}
+
+/// Same as as_u8 but always rounds down
+pub(crate) fn as_u8_floor(value: f32) -> u8 {
+    (value * 255.0).clamp(0.0, 255.0) as u8
 }
 
 pub(crate) fn to_l8_vec(buffer: &PixelBuffer<Rgb>) -> Vec<u8> {
@@ -70,16 +77,19 @@ pub(crate) fn to_rgba8_vec(buffer: &PixelBuffer<Rgb>) -> Vec<u8> {
     out
 }
 
-pub(crate) fn to_argb8_vec32(buffer: &PixelBuffer<Rgb>) -> Vec<u32> {
+pub(crate) fn to_argb8_vec32<F>(buffer: &PixelBuffer<Rgb>, quantize: F) -> Vec<u32>
+where
+    F: Fn(f32) -> u8,
+{
     let mut out: Vec<u32> = Vec::with_capacity(buffer.width() as usize * buffer.height() as usize);
 
     for color in buffer.data().iter() {
         let color = color.to_srgb();
 
-        let v = (as_u8(color.alpha()) as u32) << 24
-            | (as_u8(color.red()) as u32) << 16
-            | (as_u8(color.green()) as u32) << 8
-            | as_u8(color.blue()) as u32;
+        let v = (quantize(color.alpha()) as u32) << 24
+            | (quantize(color.red()) as u32) << 16
+            | (quantize(color.green()) as u32) << 8
+            | quantize(color.blue()) as u32;
         out.push(v);
     }
 
diff --git a/d10-codecs/src/webp.rs b/d10-codecs/src/webp.rs
index 1b08a44..6df2bff 100644
--- a/d10-codecs/src/webp.rs
+++ b/d10-codecs/src/webp.rs
@@ -16,7 +16,7 @@ use d10_core::color::{Color, Rgb, Srgb};
 use d10_core::errors::ParseEnumError;
 use d10_core::pixelbuffer::PixelBuffer;
 
-use crate::utils::{from_u8, to_argb8_vec32};
+use crate::utils::{as_u8, as_u8_floor, from_u8, to_argb8_vec32};
 use crate::{DecodedImage, DecodingError, EncodingError};
 
 #[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
@@ -165,7 +165,11 @@ where
             err: None,
         };
 
-        let raw_data = to_argb8_vec32(buffer);
+        // Lossless images must not change already quantised colors
+        let raw_data = match preset {
+            WebPPreset::Lossless => to_argb8_vec32(buffer, as_u8),
+            _ => to_argb8_vec32(buffer, as_u8_floor),
+        };
 
         picture.use_argb = 1;
         picture.width = width;
-- 
2.43.0


From 8665b516d86f08ea97babaeefc9cca6faa39818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 02/19] fix: write 16 bit samples instead of f32 bytes for 16
 bit grayscale png

---
 d10-codecs/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index 3b6e2ee..e8fdbe7 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -102,7 +102,7 @@ pub(crate) fn to_l16_be_vec(buffer: &PixelBuffer<Rgb>) -> Vec<u8> {
 
     for color in buffer.data().iter() {
         let color = color.to_gray().to_srgb();
-        out.extend_from_slice(&color.red().to_be_bytes());
+        out.extend_from_slice(&as_u16(color.red()).to_be_bytes());
     }
 
     out
-- 
2.43.0


From 821b66d468d5be528f5fcdad2afe9d34112014bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 03/19] fix: decode 16 bit rgb images without alpha channel as
 opaque

---
 d10-codecs/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index e8fdbe7..32f2433 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -212,7 +212,7 @@ pub fn read_into_buffer(img: DynamicImage) -> Result<PixelBuffer<Rgb>, DecodingE
                         f32::from(pixel[0]) / 65535.0,
                         f32::from(pixel[1]) / 65535.0,
                         f32::from(pixel[2]) / 65535.0,
-                        0.0,
+                        1.0,
                     ],
                 }
                 .to_rgb()
-- 
2.43.0


From 353c00195b8ca31e9a1716e13226585adbdabda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 04/19] fix: avoid NaN hue when converting achromatic colors to
 hsv

---
 d10-core/src/color/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-core/src/color/mod.rs b/d10-core/src/color/mod.rs
index 61e200e..1f40938 100644
--- a/d10-core/src/color/mod.rs
+++ b/d10-core/src/color/mod.rs
@@ -119,7 +119,7 @@ pub trait Color:
 
         let delta = max - min;
 
-        if delta >= EPSILON || max >= EPSILON {
+        if delta >= EPSILON {
             saturation = delta / max;
 
             if red >= max {
-- 
2.43.0


From 6ff560cffc6cd216256c773f6c68b1cf34473653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 05/19] fix: keep alpha in with_vibrance

---
 d10-core/src/color/rgb.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/d10-core/src/color/rgb.rs b/d10-core/src/color/rgb.rs
index 58eafbb..96978ea 100644
--- a/d10-core/src/color/rgb.rs
+++ b/d10-core/src/color/rgb.rs
@@ -278,7 +278,13 @@ impl Rgb {
 
         let s = s + (s * std::f32::consts::PI).sin() * scale;
 
-        Hsl::new(hsl.hue(), s.min(1.0).max(0.0), hsl.lightness()).to_rgb()
+        Hsl::new_with_alpha(
+            hsl.hue(),
+            s.min(1.0).max(0.0),
+            hsl.lightness(),
+            self.alpha(),
+        )
+        .to_rgb()
     }
 
     pub fn with_sepia(&self) -> Rgb {
-- 
2.43.0


From f5a00593b681526ef06d9ec9a40980db9fa10307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 06/19] fix: prevent integer overflow for large offsets in
 interlace

---
 d10-ops/src/interlace.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/d10-ops/src/interlace.rs b/d10-ops/src/interlace.rs
index e5e5134..b654ea2 100644
--- a/d10-ops/src/interlace.rs
+++ b/d10-ops/src/interlace.rs
@@ -2,13 +2,14 @@ use d10_core::color::Color;
 use d10_core::pixelbuffer::PixelBuffer;
 
 pub fn interlace<C: Color>(buffer: &PixelBuffer<C>, offset: u32) -> PixelBuffer<C> {
-    let offset = offset as i32;
+    // Larger offsets give the same result because x positions are clamped to the buffer
+    let offset = offset.min(i32::MAX as u32) as i32;
 
     PixelBuffer::new_from_func(buffer.width(), buffer.height(), |x, y| {
         *if y % 2 == 0 {
-            buffer.get_pixel_clamped(x as i32 - offset, y as i32)
+            buffer.get_pixel_clamped((x as i32).saturating_sub(offset), y as i32)
         } else {
-            buffer.get_pixel_clamped(x as i32 + offset, y as i32)
+            buffer.get_pixel_clamped((x as i32).saturating_add(offset), y as i32)
         }
     })
 }
-- 
2.43.0


From b2f2e4af9bff4383b5d4dfe34b1b1806969b4521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 07/19] fix: prevent NaN values in gaussian kernels with a
 sigma of zero

---
 d10-core/src/kernel.rs     | 3 ++-
 d10-core/src/kernel_dyn.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/d10-core/src/kernel.rs b/d10-core/src/kernel.rs
index 115b467..e90da99 100644
--- a/d10-core/src/kernel.rs
+++ b/d10-core/src/kernel.rs
@@ -35,7 +35,8 @@ impl<const N: usize> Kernel<N> {
             let size = N as isize;
             let offset = size / 2;
 
-            let s = 2.0 * sigma * sigma;
+            // Prevent division by zero, small values of s result in an identity kernel
+            let s = (2.0 * sigma * sigma).max(f32::EPSILON);
 
             let mut sum = 0.0;
 
diff --git a/d10-core/src/kernel_dyn.rs b/d10-core/src/kernel_dyn.rs
index 36d2e67..3db65aa 100644
--- a/d10-core/src/kernel_dyn.rs
+++ b/d10-core/src/kernel_dyn.rs
@@ -45,7 +45,8 @@ impl KernelDyn {
             let size = size as isize;
             let offset = size / 2;
 
-            let s = 2.0 * sigma * sigma;
+            // Prevent division by zero, small values of s result in an identity kernel
+            let s = (2.0 * sigma * sigma).max(f32::EPSILON);
 
             let mut sum = 0.0;
 
-- 
2.43.0


From be5d25945bdaf987a22fe626c431c942dd962c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 08/19] fix: prevent division by zero in despeckle without any
 bright neighbor

---
 d10-ops/src/despeckle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-ops/src/despeckle.rs b/d10-ops/src/despeckle.rs
index beac5ba..368d6a5 100644
--- a/d10-ops/src/despeckle.rs
+++ b/d10-ops/src/despeckle.rs
@@ -14,7 +14,7 @@ pub fn despeckle(img: &PixelBuffer<Rgb>, threshold: f32, amount: u8) -> PixelBuf
                 }
             }
 
-            if count <= amount {
+            if count <= amount && count < 9 {
                 let mut data = [0f32; 3];
 
                 for c in k.iter().flat_map(|row| row.iter()) {
-- 
2.43.0


From ed20706880ce8690ec51f072cf937cb750676047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 09/19] fix: prevent division by zero in
 symmetric_nearest_neighbor with radius 0

---
 d10-ops/src/symmetric_nearest_neighbor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/d10-ops/src/symmetric_nearest_neighbor.rs b/d10-ops/src/symmetric_nearest_neighbor.rs
index 14c779f..fd50ec7 100644
--- a/d10-ops/src/symmetric_nearest_neighbor.rs
+++ b/d10-ops/src/symmetric_nearest_neighbor.rs
@@ -20,6 +20,10 @@ pub fn symmetric_nearest_neighbor(
     PixelBuffer::new_from_func(buffer.width(), buffer.height(), |x, y| {
         let center = buffer.get_pixel(x, y);
 
+        if radius == 0 {
+            return *center;
+        }
+
         let x = x as i32;
         let y = y as i32;
 
-- 
2.43.0


From 0618beb30dffbaa294d121b7b96a7e664ec4c093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 10/19] fix: prevent NaN values for low color temperatures

---
 d10-ops/src/temperature.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/d10-ops/src/temperature.rs b/d10-ops/src/temperature.rs
index 0a078c5..6465a6c 100644
--- a/d10-ops/src/temperature.rs
+++ b/d10-ops/src/temperature.rs
@@ -54,11 +54,10 @@ fn calculate_factors(orig_temp: f32, new_temp: f32) -> [f32; 3] {
     let orig = convert_kelvin_to_rgb(orig_temp);
     let new = convert_kelvin_to_rgb(new_temp);
 
-    [
-        orig.data()[0] / new.data()[0],
-        orig.data()[1] / new.data()[1],
-        orig.data()[2] / new.data()[2],
-    ]
+    // Low temperatures don't contain any blue. This prevents a division by zero.
+    let factor = |i: usize| orig.data()[i].max(f32::EPSILON) / new.data()[i].max(f32::EPSILON);
+
+    [factor(0), factor(1), factor(2)]
 }
 
 fn convert_kelvin_to_rgb(temperature: f32) -> Rgb {
-- 
2.43.0


From 90db1e7a2c35646f0db5ddb0d6ea37590dc6f0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 11/19] fix: detect image formats of readers that return short
 reads

---
 d10-codecs/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/d10-codecs/src/lib.rs b/d10-codecs/src/lib.rs
index 87dac10..9fed894 100644
--- a/d10-codecs/src/lib.rs
+++ b/d10-codecs/src/lib.rs
@@ -58,7 +58,17 @@ impl Format {
     {
         let mut buf = [0u8; 12];
 
-        let len = reader.read(&mut buf)?;
+        let mut len = 0;
+
+        // A single call to read is allowed to return less data than available
+        while len < buf.len() {
+            match reader.read(&mut buf[len..]) {
+                Ok(0) => break,
+                Ok(n) => len += n,
+                Err(err) if err.kind() == std::io::ErrorKind::Interrupted => continue,
+                Err(err) => return Err(err.into()),
+            }
+        }
 
         reader.seek(SeekFrom::Start(0))?;
 
-- 
2.43.0


From 7d5376eeed09cbc092ac9d9424cf108f8c9d2817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 12/19] fix: normalize the weights of lanczos filters

---
 d10-ops/src/filters.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/d10-ops/src/filters.rs b/d10-ops/src/filters.rs
index 507b597..d1bef6c 100644
--- a/d10-ops/src/filters.rs
+++ b/d10-ops/src/filters.rs
@@ -176,16 +176,23 @@ pub fn get_pixel_lanczos<const N: usize>(buffer: &PixelBuffer<Rgb>, x: f32, y: f
     }
 
     let mut data = [0.0; 4];
+    let mut column_sum = 0.0;
 
     for y in 0..N {
         let scale = lanczos::<N>(y as f32 - size - ty);
+        column_sum += scale;
         for i in 0..=3 {
             let v = rows[y][i];
             data[i] += v * scale;
         }
     }
 
-    Rgb { data }
+    // The sum of all weights is not exactly 1.0
+    let sum = row_scale.iter().sum::<f32>() * column_sum;
+
+    Rgb {
+        data: data.map(|v| v / sum),
+    }
 }
 
 fn lanczos_dyn(v: f32, size: usize) -> f32 {
@@ -234,14 +241,21 @@ pub fn get_pixel_lanczos_dyn(buffer: &PixelBuffer<Rgb>, x: f32, y: f32, size: us
     }
 
     let mut data = [0.0; 4];
+    let mut column_sum = 0.0;
 
     for y in 0..rowsize {
         let scale = lanczos_dyn((y as isize - size) as f32 - ty, size as usize);
+        column_sum += scale;
         for i in 0..=3 {
             let v = rows[y][i];
             data[i] += v * scale;
         }
     }
 
-    Rgb { data }
+    // The sum of all weights is not exactly 1.0
+    let sum = row_scale.iter().sum::<f32>() * column_sum;
+
+    Rgb {
+        data: data.map(|v| v / sum),
+    }
 }
-- 
2.43.0


From 9a1a490c016e9c3949abdebc4dbee6bd5434b8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 13/19] fix: use a valid level for lossless webp images

---
 d10-codecs/src/webp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d10-codecs/src/webp.rs b/d10-codecs/src/webp.rs
index 6df2bff..a90bb46 100644
--- a/d10-codecs/src/webp.rs
+++ b/d10-codecs/src/webp.rs
@@ -149,7 +149,8 @@ where
             WebPPreset::Lossless => {
                 let mut config = WebPConfig::new();
                 if let Ok(config) = &mut config {
-                    WebPConfigLosslessPreset(config, 100);
+                    // Valid levels are 0 to 9, anything else would leave the config lossy
+                    WebPConfigLosslessPreset(config, 9);
                 }
                 config
             }
-- 
2.43.0


From 0ace8526d29725f6fec8ebffbaf706ee7a11cc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:21 +0000
Subject: [PATCH 14/19] fix: keep saturation exponents finite when the gamma
 reaches zero

---
 d10-ops/src/saturation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d10-ops/src/saturation.rs b/d10-ops/src/saturation.rs
index ba162f3..cea1a33 100644
--- a/d10-ops/src/saturation.rs
+++ b/d10-ops/src/saturation.rs
@@ -54,7 +54,8 @@ fn get_gamma_pow(gamma: f32, brightness: f32) -> f32 {
         1.0 + diff * factor
     };
 
-    1.0 / gamma
+    // A gamma of zero or below would give an infinite or negative exponent
+    1.0 / gamma.max(f32::EPSILON)
 }
 
 fn avg_saturation(buffer: &PixelBuffer<Rgb>, mode: SaturationMode) -> f32 {
-- 
2.43.0


From b2f4cb8e053c0325dd91726feb36162a6c1af384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:32 +0000
Subject: [PATCH 15/19] fix: rotate the hue by any number of turns

Rotations of more than one turn left a hue outside the range the
conversion to RGB handles, so rotating by 720 degrees did not return
the colour.
---
 d10-core/src/color/rgb.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/d10-core/src/color/rgb.rs b/d10-core/src/color/rgb.rs
index 96978ea..537eb4c 100644
--- a/d10-core/src/color/rgb.rs
+++ b/d10-core/src/color/rgb.rs
@@ -230,12 +230,9 @@ impl Rgb {
     pub fn with_hue_rotate(&self, radians: f32) -> Rgb {
         let hsl = self.to_hsl();
 
-        let mut hue = hsl.hue() + radians / 360.0;
-        if hue >= 1.0 {
-            hue -= 1.0;
-        } else if hue < 0.0 {
-            hue += 1.0;
-        }
+        // The hue may be any number of turns away from the range between 0.0 and 1.0
+        let hue = hsl.hue() + radians / 360.0;
+        let hue = hue - hue.floor();
 
         Hsl {
             data: [hue, hsl.saturation(), hsl.lightness(), self.alpha()],
-- 
2.43.0


From cb273e1aea27e4beaf889780c1e40de4e66816bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:59 +0000
Subject: [PATCH 16/19] fix: read numpy arrays of every supported data type

from_np_array looked at the array through a float32 downcast, which
fails for every other data type.
---
 d10-python/src/image.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 1df7e4f..b940609 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -12,7 +12,7 @@ use d10::{
 #[cfg(feature = "numpy")]
 use {
     d10::Color,
-    numpy::{PyArray, PyArrayDyn},
+    numpy::{IxDyn, PyArray, PyArrayDyn, PyUntypedArray},
     numpy_helper::*,
 };
 
@@ -644,27 +644,23 @@ impl Image {
     #[cfg(feature = "numpy")]
     #[staticmethod]
     pub fn from_np_array(array: &PyAny, colorspace: Option<&str>) -> PyResult<Image> {
-        /* WARNING: In order to find out what data type this numpy array has, we
-         *         blindly cast it into a f32 one, which might result into an
-         *         array with broken data. This seems to be "save" on the rust side
-         *         but might still cause undefined behavior...
-         */
-        //TODO: Find a way to not use this hackish way to do it
+        let untyped_array: &PyUntypedArray = array.downcast()?;
 
-        let py_array: &PyArrayDyn<f32> = array.downcast()?;
+        let data_type = extract_data_type(Some(untyped_array.dtype().typeobj()))?;
 
-        let data_type = extract_data_type(Some(py_array.dtype().typeobj()))?;
-
-        let ndims = py_array.ndim();
-        let dims = py_array.dims();
+        let ndims = untyped_array.ndim();
+        let dims = IxDyn(untyped_array.shape());
 
         match data_type {
-            DataType::Float32 => from_np_array_iter(
-                ndims,
-                dims,
-                py_array.readonly().as_array().iter().copied(),
-                colorspace,
-            ),
+            DataType::Float32 => {
+                let py_array: &PyArrayDyn<f32> = array.downcast()?;
+                from_np_array_iter(
+                    ndims,
+                    dims,
+                    py_array.readonly().as_array().iter().copied(),
+                    colorspace,
+                )
+            }
             DataType::Float64 => {
                 let py_array: &PyArrayDyn<f64> = array.downcast()?;
                 from_np_array_iter(
-- 
2.43.0


From e0e9d6dd9f4416151410ccea88b52115ac2f46ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:59 +0000
Subject: [PATCH 17/19] fix: read true as one from boolean numpy arrays

---
 d10-python/src/image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index b940609..87f3eb9 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -679,7 +679,7 @@ impl Image {
                         .readonly()
                         .as_array()
                         .iter()
-                        .map(|v| if *v { 0.0f32 } else { 1.0f32 }),
+                        .map(|v| if *v { 1.0f32 } else { 0.0f32 }),
                     colorspace,
                 )
             }
-- 
2.43.0


From 42d69781adcce6ee387759a131608475c839ff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:59 +0000
Subject: [PATCH 18/19] fix: read four channel LCh arrays as LCh

---
 d10-python/src/image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 87f3eb9..bb5d239 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -949,7 +949,7 @@ mod numpy_helper {
                         .collect(),
                     "lcha" | "lch" => chunked::<4>(&mut iter)
                         .map(|chunk| {
-                            D10LabD65O2::new_with_alpha(chunk[0], chunk[1], chunk[2], chunk[3])
+                            D10LchD65O2::new_with_alpha(chunk[0], chunk[1], chunk[2], chunk[3])
                                 .to_rgb()
                         })
                         .collect(),
-- 
2.43.0


From fd8d1d044dec8ebfe247c46b629edf7adb9ef740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:59 +0000
Subject: [PATCH 19/19] fix: refuse numpy arrays with fewer than two dimensions
 with an error

---
 d10-python/src/image.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index bb5d239..e19c320 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -905,6 +905,13 @@ mod numpy_helper {
         mut iter: I,
         colorspace: Option<&str>,
     ) -> PyResult<Image> {
+        if ndims < 2 {
+            return Err(PyOSError::new_err(format!(
+                "Bad number of dimensions: {}",
+                ndims
+            )));
+        }
+
         let width = dims[1];
         let height = dims[0];
 
-- 
2.43.0

