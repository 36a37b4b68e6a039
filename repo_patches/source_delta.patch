From f51e0a0e5e5edd413e8b48307e7cbd8f5185435b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 01/37] fix: report errors when flushing the file written by
 encode_to_file

---
 d10-codecs/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/d10-codecs/src/lib.rs b/d10-codecs/src/lib.rs
index 87dac10..4c6ce65 100644
--- a/d10-codecs/src/lib.rs
+++ b/d10-codecs/src/lib.rs
@@ -248,7 +248,12 @@ where
 
     let mut w = BufWriter::new(File::create(path)?);
 
-    encode(&mut w, buffer, format)
+    encode(&mut w, buffer, format)?;
+
+    // Errors on drop are ignored. So flush explicitly to report them.
+    w.flush()?;
+
+    Ok(())
 }
 
 pub fn encode<W>(
-- 
2.43.0


From a32f08205499d90498d6c066a2f481512ad66406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 02/37] fix: report errors when writing the IEND chunk of a png

---
 d10-codecs/src/png.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/d10-codecs/src/png.rs b/d10-codecs/src/png.rs
index 4731f9a..d6a0f09 100644
--- a/d10-codecs/src/png.rs
+++ b/d10-codecs/src/png.rs
@@ -163,6 +163,9 @@ where
     let mut writer = encoder.write_header().map_err(encode_error)?;
     writer.write_image_data(&out).map_err(encode_error)?;
 
+    // The trailing IEND chunk would be written on drop without reporting errors.
+    writer.finish().map_err(encode_error)?;
+
     Ok(())
 }
 
-- 
2.43.0


From 84b2b7516afb99655d8516c05fbab5689188440e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 03/37] fix: report errors when writing the trailer of a gif

---
 d10-codecs/src/gif.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/d10-codecs/src/gif.rs b/d10-codecs/src/gif.rs
index 1c2277d..ef8de77 100644
--- a/d10-codecs/src/gif.rs
+++ b/d10-codecs/src/gif.rs
@@ -44,6 +44,9 @@ where
 
     encoder.write_frame(&frame).map_err(encode_error)?;
 
+    // The trailer would be written on drop without reporting errors.
+    encoder.into_inner()?;
+
     Ok(())
 }
 
-- 
2.43.0


From f068c214bbe1ce7929ecf6e25e8caf301fb0d27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:22 +0000
Subject: [PATCH 04/37] fix: encode 16 bit grayscale png samples as u16 instead
 of raw f32 bytes

---
 d10-codecs/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index 51d8329..50cc3a3 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -92,7 +92,7 @@ pub(crate) fn to_l16_be_vec(buffer: &PixelBuffer<Rgb>) -> Vec<u8> {
 
     for color in buffer.data().iter() {
         let color = color.to_gray().to_srgb();
-        out.extend_from_slice(&color.red().to_be_bytes());
+        out.extend_from_slice(&as_u16(color.red()).to_be_bytes());
     }
 
     out
-- 
2.43.0


From f81cea4def39f91138c545b064e4e92d3505f719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:22 +0000
Subject: [PATCH 05/37] fix: round color channels to the nearest level so that
 8 and 16 bit images survive a round trip

---
 d10-codecs/src/utils.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index 50cc3a3..77671fa 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -5,14 +5,18 @@ use d10_core::pixelbuffer::{is_valid_buffer_size, PixelBuffer};
 
 use crate::DecodingError;
 
-/// Convert color channel value between 0.0 and 1.0 into an u8
+/// Convert color channel value between 0.0 and 1.0 into the nearest u8
+///
+/// Values exactly between two levels are rounded down
 pub(crate) fn as_u8(value: f32) -> u8 {
-    (value * 255.0).clamp(0.0, 255.0) as u8
+    (value * 255.0 - 0.5).ceil().clamp(0.0, 255.0) as u8
 }
 
-/// Convert color channel value between 0.0 and 1.0 into an u16
+/// Convert color channel value between 0.0 and 1.0 into the nearest u16
+///
+/// Values exactly between two levels are rounded down
 pub(crate) fn as_u16(value: f32) -> u16 {
-    (value * 65535.0).clamp(0.0, 65535.0) as u16
+    (value * 65535.0 - 0.5).ceil().clamp(0.0, 65535.0) as u16
 }
 
 pub(crate) fn to_l8_vec(buffer: &PixelBuffer<Rgb>) -> Vec<u8> {
-- 
2.43.0


From 48467e81703ebb58bec4423564ffac8b9c2cb423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:22 +0000
Subject: [PATCH 06/37] fix: store ico images as RGBA so that every color type
 can be decoded again

---
 d10-codecs/src/ico.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/d10-codecs/src/ico.rs b/d10-codecs/src/ico.rs
index 3b3e563..35bad1f 100644
--- a/d10-codecs/src/ico.rs
+++ b/d10-codecs/src/ico.rs
@@ -42,15 +42,25 @@ pub(crate) fn encode_ico<W>(
 where
     W: Write,
 {
-    let (out, color_type) = match color_type {
-        IcoColorType::L8 => (to_l8_vec(buffer), ColorType::L8),
-        IcoColorType::La8 => (to_la8_vec(buffer), ColorType::La8),
-        IcoColorType::Rgb8 => (to_rgb8_vec(buffer), ColorType::Rgb8),
-        IcoColorType::Rgba8 => (to_rgba8_vec(buffer), ColorType::Rgba8),
+    // Images inside of an ico file must always be stored as 32 bit RGBA
+    let out: Vec<u8> = match color_type {
+        IcoColorType::L8 => to_l8_vec(buffer)
+            .iter()
+            .flat_map(|l| [*l, *l, *l, 255])
+            .collect(),
+        IcoColorType::La8 => to_la8_vec(buffer)
+            .chunks(2)
+            .flat_map(|la| [la[0], la[0], la[0], la[1]])
+            .collect(),
+        IcoColorType::Rgb8 => to_rgb8_vec(buffer)
+            .chunks(3)
+            .flat_map(|rgb| [rgb[0], rgb[1], rgb[2], 255])
+            .collect(),
+        IcoColorType::Rgba8 => to_rgba8_vec(buffer),
     };
 
     if let Err(err) =
-        IcoEncoder::new(w).write_image(&out, buffer.width(), buffer.height(), color_type)
+        IcoEncoder::new(w).write_image(&out, buffer.width(), buffer.height(), ColorType::Rgba8)
     {
         Err(match err {
             ImageError::IoError(err) => EncodingError::IoError(err),
-- 
2.43.0


From b66d6ff20430dd1e3ccb38e0169e5be2bb8ef832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 07/37] fix: use a valid level for the lossless webp preset

---
 d10-codecs/src/webp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d10-codecs/src/webp.rs b/d10-codecs/src/webp.rs
index 1b08a44..1a432c0 100644
--- a/d10-codecs/src/webp.rs
+++ b/d10-codecs/src/webp.rs
@@ -149,7 +149,8 @@ where
             WebPPreset::Lossless => {
                 let mut config = WebPConfig::new();
                 if let Ok(config) = &mut config {
-                    WebPConfigLosslessPreset(config, 100);
+                    // Levels outside of 0 to 9 are rejected and would leave the config lossy
+                    WebPConfigLosslessPreset(config, 6);
                 }
                 config
             }
-- 
2.43.0


From 3bba468e5af17594022099c5d8b5826a164ccd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 08/37] fix: keep all transparent pixels of a gif transparent

---
 d10-codecs/src/gif.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/d10-codecs/src/gif.rs b/d10-codecs/src/gif.rs
index ef8de77..7a7f434 100644
--- a/d10-codecs/src/gif.rs
+++ b/d10-codecs/src/gif.rs
@@ -38,6 +38,11 @@ where
 
     let mut raw = to_rgba8_vec(buffer);
 
+    // A frame has only one transparent color. So all transparent pixels must share the same color.
+    for pixel in raw.chunks_mut(4).filter(|pixel| pixel[3] == 0) {
+        pixel.fill(0);
+    }
+
     let frame = Frame::from_rgba_speed(width, height, &mut raw, 10);
 
     let mut encoder = Encoder::new(w, frame.width, frame.height, &[]).map_err(encode_error)?;
-- 
2.43.0


From 8b959b9c2b8b9ddb13b380727a9b1a8ba72bf408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 09/37] fix: detect the image format independently of how many
 bytes a read returns

---
 d10-codecs/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/d10-codecs/src/lib.rs b/d10-codecs/src/lib.rs
index 4c6ce65..83ab28f 100644
--- a/d10-codecs/src/lib.rs
+++ b/d10-codecs/src/lib.rs
@@ -1,5 +1,5 @@
 use std::fs::File;
-use std::io::{BufRead, BufReader, BufWriter, Cursor, Read, Seek, SeekFrom, Write};
+use std::io::{BufRead, BufReader, BufWriter, Cursor, ErrorKind, Read, Seek, SeekFrom, Write};
 use std::path::Path;
 
 use d10_core::color::Rgb;
@@ -58,7 +58,17 @@ impl Format {
     {
         let mut buf = [0u8; 12];
 
-        let len = reader.read(&mut buf)?;
+        let mut len = 0;
+
+        // A single read might return less bytes than available
+        while len < buf.len() {
+            match reader.read(&mut buf[len..]) {
+                Ok(0) => break,
+                Ok(n) => len += n,
+                Err(err) if err.kind() == ErrorKind::Interrupted => {}
+                Err(err) => return Err(err.into()),
+            }
+        }
 
         reader.seek(SeekFrom::Start(0))?;
 
-- 
2.43.0


From 9d98fc91d6f19611be8fae2f1922048e0cd2b525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 10/37] fix: convert full intensity CMYK values to full
 intensity RGB

---
 d10-codecs/src/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index 77671fa..0bed4a8 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -319,9 +319,9 @@ pub fn cmyk_to_rgb(c: u8, m: u8, y: u8, k: u8) -> Rgb {
     let y = 255.0 - y as f32;
     let k = 255.0 - k as f32;
 
-    let r = c * k / 65536.0;
-    let g = m * k / 65536.0;
-    let b = y * k / 65536.0;
+    let r = c * k / 65025.0;
+    let g = m * k / 65025.0;
+    let b = y * k / 65025.0;
 
     Srgb::new(r, g, b).to_rgb()
 }
-- 
2.43.0


From 307ee4b6d38ed5cdc608e88a55f797341f28cdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 11/37] fix: gaussian kernels with a sigma of zero or a very
 large sigma are not NaN

---
 d10-core/src/kernel.rs     | 8 ++++----
 d10-core/src/kernel_dyn.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/d10-core/src/kernel.rs b/d10-core/src/kernel.rs
index 115b467..ab14669 100644
--- a/d10-core/src/kernel.rs
+++ b/d10-core/src/kernel.rs
@@ -1,5 +1,3 @@
-use std::f32::consts::PI;
-
 pub struct Kernel<const N: usize> {
     pub data: [[f32; N]; N],
 }
@@ -35,7 +33,8 @@ impl<const N: usize> Kernel<N> {
             let size = N as isize;
             let offset = size / 2;
 
-            let s = 2.0 * sigma * sigma;
+            // A sigma of zero is the limit where only the center has a weight
+            let s = (2.0 * sigma * sigma).max(f32::MIN_POSITIVE);
 
             let mut sum = 0.0;
 
@@ -43,7 +42,8 @@ impl<const N: usize> Kernel<N> {
                 for y in -offset..size - offset {
                     let r = (x as f32 * x as f32 + y as f32 * y as f32).sqrt();
 
-                    let v = ((-(r * r) / s).exp()) / (PI * s);
+                    // No need for the constant factor because the kernel is normalized below
+                    let v = (-(r * r) / s).exp();
 
                     data[(y + offset) as usize][(x + offset) as usize] = v;
                     sum += v;
diff --git a/d10-core/src/kernel_dyn.rs b/d10-core/src/kernel_dyn.rs
index 36d2e67..024dea0 100644
--- a/d10-core/src/kernel_dyn.rs
+++ b/d10-core/src/kernel_dyn.rs
@@ -1,5 +1,3 @@
-use std::f32::consts::PI;
-
 pub struct KernelDyn {
     data: Vec<f32>,
     pub width: u32,
@@ -45,7 +43,8 @@ impl KernelDyn {
             let size = size as isize;
             let offset = size / 2;
 
-            let s = 2.0 * sigma * sigma;
+            // A sigma of zero is the limit where only the center has a weight
+            let s = (2.0 * sigma * sigma).max(f32::MIN_POSITIVE);
 
             let mut sum = 0.0;
 
@@ -53,7 +52,8 @@ impl KernelDyn {
                 for y in -offset..size - offset {
                     let r = (x as f32 * x as f32 + y as f32 * y as f32).sqrt();
 
-                    let v = ((-(r * r) / s).exp()) / (PI * s);
+                    // No need for the constant factor because the kernel is normalized below
+                    let v = (-(r * r) / s).exp();
 
                     let index = ((x + offset) + ((y + offset) * size)) as usize;
 
-- 
2.43.0


From 73382921119b1ae044ca2f0187a1150f5f85e0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:08 +0000
Subject: [PATCH 12/37] fix: keep the previous rounding of the colors of lossy
 webp images

---
 d10-codecs/src/utils.rs | 15 +++++++++++----
 d10-codecs/src/webp.rs  |  7 +++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index 0bed4a8..54b0e82 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -12,6 +12,13 @@ pub(crate) fn as_u8(value: f32) -> u8 {
     (value * 255.0 - 0.5).ceil().clamp(0.0, 255.0) as u8
 }
 
+/// Convert color channel value between 0.0 and 1.0 into an u8 discarding the fraction
+///
+/// This is only precise enough if the encoder itself isn't lossless.
+pub(crate) fn as_u8_truncated(value: f32) -> u8 {
+    (value * 255.0).clamp(0.0, 255.0) as u8
+}
+
 /// Convert color channel value between 0.0 and 1.0 into the nearest u16
 ///
 /// Values exactly between two levels are rounded down
@@ -74,16 +81,16 @@ pub(crate) fn to_rgba8_vec(buffer: &PixelBuffer<Rgb>) -> Vec<u8> {
     out
 }
 
-pub(crate) fn to_argb8_vec32(buffer: &PixelBuffer<Rgb>) -> Vec<u32> {
+pub(crate) fn to_argb8_vec32(buffer: &PixelBuffer<Rgb>, color_as_u8: fn(f32) -> u8) -> Vec<u32> {
     let mut out: Vec<u32> = Vec::with_capacity(buffer.width() as usize * buffer.height() as usize);
 
     for color in buffer.data().iter() {
         let color = color.to_srgb();
 
         let v = (as_u8(color.alpha()) as u32) << 24
-            | (as_u8(color.red()) as u32) << 16
-            | (as_u8(color.green()) as u32) << 8
-            | as_u8(color.blue()) as u32;
+            | (color_as_u8(color.red()) as u32) << 16
+            | (color_as_u8(color.green()) as u32) << 8
+            | color_as_u8(color.blue()) as u32;
         out.push(v);
     }
 
diff --git a/d10-codecs/src/webp.rs b/d10-codecs/src/webp.rs
index 1a432c0..49ffaf3 100644
--- a/d10-codecs/src/webp.rs
+++ b/d10-codecs/src/webp.rs
@@ -16,7 +16,7 @@ use d10_core::color::{Color, Rgb, Srgb};
 use d10_core::errors::ParseEnumError;
 use d10_core::pixelbuffer::PixelBuffer;
 
-use crate::utils::{from_u8, to_argb8_vec32};
+use crate::utils::{as_u8, as_u8_truncated, from_u8, to_argb8_vec32};
 use crate::{DecodedImage, DecodingError, EncodingError};
 
 #[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
@@ -166,7 +166,10 @@ where
             err: None,
         };
 
-        let raw_data = to_argb8_vec32(buffer);
+        let raw_data = match preset {
+            WebPPreset::Lossless => to_argb8_vec32(buffer, as_u8),
+            _ => to_argb8_vec32(buffer, as_u8_truncated),
+        };
 
         picture.use_argb = 1;
         picture.width = width;
-- 
2.43.0


From 0abb1f635f376e6a0ddf1ec4a83937deec2fc430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:53 +0000
Subject: [PATCH 13/37] fix: normalize the weights of the lanczos filters and
 clamp the result

---
 d10-ops/src/filters.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/d10-ops/src/filters.rs b/d10-ops/src/filters.rs
index 507b597..f1aacc9 100644
--- a/d10-ops/src/filters.rs
+++ b/d10-ops/src/filters.rs
@@ -176,16 +176,21 @@ pub fn get_pixel_lanczos<const N: usize>(buffer: &PixelBuffer<Rgb>, x: f32, y: f
     }
 
     let mut data = [0.0; 4];
+    let mut column_scale_sum = 0.0;
 
     for y in 0..N {
         let scale = lanczos::<N>(y as f32 - size - ty);
+        column_scale_sum += scale;
         for i in 0..=3 {
             let v = rows[y][i];
             data[i] += v * scale;
         }
     }
 
-    Rgb { data }
+    // The weights don't sum up to exactly 1.0 for most positions
+    let sum = row_scale.iter().sum::<f32>() * column_scale_sum;
+
+    Rgb::new_with_alpha(data[0] / sum, data[1] / sum, data[2] / sum, data[3] / sum)
 }
 
 fn lanczos_dyn(v: f32, size: usize) -> f32 {
@@ -234,14 +239,19 @@ pub fn get_pixel_lanczos_dyn(buffer: &PixelBuffer<Rgb>, x: f32, y: f32, size: us
     }
 
     let mut data = [0.0; 4];
+    let mut column_scale_sum = 0.0;
 
     for y in 0..rowsize {
         let scale = lanczos_dyn((y as isize - size) as f32 - ty, size as usize);
+        column_scale_sum += scale;
         for i in 0..=3 {
             let v = rows[y][i];
             data[i] += v * scale;
         }
     }
 
-    Rgb { data }
+    // The weights don't sum up to exactly 1.0 for most positions
+    let sum = row_scale.iter().sum::<f32>() * column_scale_sum;
+
+    Rgb::new_with_alpha(data[0] / sum, data[1] / sum, data[2] / sum, data[3] / sum)
 }
-- 
2.43.0


From c07bba2cc2a72f36973b006592b7e2f46ddd5746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:57 +0000
Subject: [PATCH 14/37] fix: use half of the window size as radius of the
 larger lanczos filters

---
 d10-ops/src/filters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-ops/src/filters.rs b/d10-ops/src/filters.rs
index f1aacc9..38e30aa 100644
--- a/d10-ops/src/filters.rs
+++ b/d10-ops/src/filters.rs
@@ -130,7 +130,7 @@ fn lanczos<const N: usize>(v: f32) -> f32 {
             0.0
         }
     } else {
-        let size = N as f32;
+        let size = ((N as f32) - 1.0) / 2.0;
         let v = v / size * 3.0;
         if v < 3.0 {
             (sinc(v) * sinc(v / 3.0)) * (3.0 / size)
-- 
2.43.0


From 732a81e41008851f3899750350dfd746980ae665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 15/37] fix: blend the hue of lch_color on the shorter arc

---
 d10-ops/src/blend.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/d10-ops/src/blend.rs b/d10-ops/src/blend.rs
index a661734..d2112dc 100644
--- a/d10-ops/src/blend.rs
+++ b/d10-ops/src/blend.rs
@@ -183,16 +183,11 @@ pub fn blend_lch_lighten(c1: Rgb, c2: Rgb, intensity: f32) -> Rgb {
     c1.with_l(l).to_rgb()
 }
 
-pub fn blend_lch_hue(c1: Rgb, c2: Rgb, intensity: f32) -> Rgb {
-    let c1 = c1.to_lch::<D65, O2>();
-    let c2 = c2.to_lch::<D65, O2>();
-
-    let h1 = c1.h();
-    let h2 = c2.h();
-
+// Interpolate between two hues in radians on the shorter arc
+fn apply_hue_intensity(h1: f32, h2: f32, intensity: f32) -> f32 {
     let diff = (h1 - h2).abs();
 
-    let h = if diff > PI {
+    if diff > PI {
         let h = if h1 < 0.0 {
             apply_intensity(h1 + 2.0 * PI, h2, intensity)
         } else {
@@ -206,9 +201,14 @@ pub fn blend_lch_hue(c1: Rgb, c2: Rgb, intensity: f32) -> Rgb {
         }
     } else {
         apply_intensity(h1, h2, intensity)
-    };
+    }
+}
+
+pub fn blend_lch_hue(c1: Rgb, c2: Rgb, intensity: f32) -> Rgb {
+    let c1 = c1.to_lch::<D65, O2>();
+    let c2 = c2.to_lch::<D65, O2>();
 
-    c1.with_h(h)
+    c1.with_h(apply_hue_intensity(c1.h(), c2.h(), intensity))
         .to_rgb()
 }
 
@@ -225,6 +225,6 @@ pub fn blend_lch_color(c1: Rgb, c2: Rgb, intensity: f32) -> Rgb {
     let c2 = c2.to_lch::<D65, O2>();
 
     c1.with_c(apply_intensity(c1.c(), c2.c(), intensity))
-        .with_h(apply_intensity(c1.h(), c2.h(), intensity))
+        .with_h(apply_hue_intensity(c1.h(), c2.h(), intensity))
         .to_rgb()
 }
-- 
2.43.0


From bce8b3a111abc4c7022d874641b7405ad6d385d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 16/37] fix: clamp the offset of interlace to the width of the
 image

---
 d10-ops/src/interlace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-ops/src/interlace.rs b/d10-ops/src/interlace.rs
index e5e5134..32a9c1d 100644
--- a/d10-ops/src/interlace.rs
+++ b/d10-ops/src/interlace.rs
@@ -2,7 +2,7 @@ use d10_core::color::Color;
 use d10_core::pixelbuffer::PixelBuffer;
 
 pub fn interlace<C: Color>(buffer: &PixelBuffer<C>, offset: u32) -> PixelBuffer<C> {
-    let offset = offset as i32;
+    let offset = offset.min(buffer.width()) as i32;
 
     PixelBuffer::new_from_func(buffer.width(), buffer.height(), |x, y| {
         *if y % 2 == 0 {
-- 
2.43.0


From 231fb238e0ad9c283cd2dff63d8fd9f370075487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 17/37] fix: the hue of an achromatic color converted to HSV is
 0 instead of NaN

---
 d10-core/src/color/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-core/src/color/mod.rs b/d10-core/src/color/mod.rs
index 61e200e..1f40938 100644
--- a/d10-core/src/color/mod.rs
+++ b/d10-core/src/color/mod.rs
@@ -119,7 +119,7 @@ pub trait Color:
 
         let delta = max - min;
 
-        if delta >= EPSILON || max >= EPSILON {
+        if delta >= EPSILON {
             saturation = delta / max;
 
             if red >= max {
-- 
2.43.0


From 4a64cd8b8b1c5d6f6540482898953ea1e5b41687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 18/37] fix: keep the alpha value in with_vibrance

---
 d10-core/src/color/rgb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-core/src/color/rgb.rs b/d10-core/src/color/rgb.rs
index 58eafbb..28bfe93 100644
--- a/d10-core/src/color/rgb.rs
+++ b/d10-core/src/color/rgb.rs
@@ -278,7 +278,7 @@ impl Rgb {
 
         let s = s + (s * std::f32::consts::PI).sin() * scale;
 
-        Hsl::new(hsl.hue(), s.min(1.0).max(0.0), hsl.lightness()).to_rgb()
+        Hsl::new_with_alpha(hsl.hue(), s.min(1.0).max(0.0), hsl.lightness(), self.alpha()).to_rgb()
     }
 
     pub fn with_sepia(&self) -> Rgb {
-- 
2.43.0


From cc3c135cdc500cac02b90769e5dd80cb2b0035e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 19/37] fix: rotate the hue by more than one turn

---
 d10-core/src/color/rgb.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/d10-core/src/color/rgb.rs b/d10-core/src/color/rgb.rs
index 28bfe93..7091236 100644
--- a/d10-core/src/color/rgb.rs
+++ b/d10-core/src/color/rgb.rs
@@ -230,12 +230,7 @@ impl Rgb {
     pub fn with_hue_rotate(&self, radians: f32) -> Rgb {
         let hsl = self.to_hsl();
 
-        let mut hue = hsl.hue() + radians / 360.0;
-        if hue >= 1.0 {
-            hue -= 1.0;
-        } else if hue < 0.0 {
-            hue += 1.0;
-        }
+        let hue = (hsl.hue() + radians / 360.0).rem_euclid(1.0);
 
         Hsl {
             data: [hue, hsl.saturation(), hsl.lightness(), self.alpha()],
-- 
2.43.0


From d38f208cbefeb2254a70f850dec3c8092574f4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:00 +0000
Subject: [PATCH 20/37] fix: no negative saturation exponents in
 optimize_saturation

---
 d10-ops/src/saturation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d10-ops/src/saturation.rs b/d10-ops/src/saturation.rs
index ba162f3..6a048e8 100644
--- a/d10-ops/src/saturation.rs
+++ b/d10-ops/src/saturation.rs
@@ -54,7 +54,8 @@ fn get_gamma_pow(gamma: f32, brightness: f32) -> f32 {
         1.0 + diff * factor
     };
 
-    1.0 / gamma
+    // A negative exponent would turn the saturation of gray colors into infinity
+    1.0 / gamma.max(f32::EPSILON)
 }
 
 fn avg_saturation(buffer: &PixelBuffer<Rgb>, mode: SaturationMode) -> f32 {
-- 
2.43.0


From ea8f3998be11155a0a06a75780b77d19664ef79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:32 +0000
Subject: [PATCH 21/37] fix: color temperatures without any blue light do not
 produce NaN

---
 d10-ops/src/temperature.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/d10-ops/src/temperature.rs b/d10-ops/src/temperature.rs
index 0a078c5..38ca767 100644
--- a/d10-ops/src/temperature.rs
+++ b/d10-ops/src/temperature.rs
@@ -54,11 +54,10 @@ fn calculate_factors(orig_temp: f32, new_temp: f32) -> [f32; 3] {
     let orig = convert_kelvin_to_rgb(orig_temp);
     let new = convert_kelvin_to_rgb(new_temp);
 
-    [
-        orig.data()[0] / new.data()[0],
-        orig.data()[1] / new.data()[1],
-        orig.data()[2] / new.data()[2],
-    ]
+    // The lowest temperatures have no blue at all
+    let factor = |i: usize| orig.data()[i].max(f32::EPSILON) / new.data()[i].max(f32::EPSILON);
+
+    [factor(0), factor(1), factor(2)]
 }
 
 fn convert_kelvin_to_rgb(temperature: f32) -> Rgb {
-- 
2.43.0


From e946917fd1d7c6775705bbb41cd6dc9c2da25da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 22/37] fix: despeckle keeps dark pixels without any brighter
 neighbor

---
 d10-ops/src/despeckle.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d10-ops/src/despeckle.rs b/d10-ops/src/despeckle.rs
index beac5ba..22da49d 100644
--- a/d10-ops/src/despeckle.rs
+++ b/d10-ops/src/despeckle.rs
@@ -14,7 +14,8 @@ pub fn despeckle(img: &PixelBuffer<Rgb>, threshold: f32, amount: u8) -> PixelBuf
                 }
             }
 
-            if count <= amount {
+            // Without any brighter neighbor there is nothing to replace the color with
+            if count <= amount && count < 9 {
                 let mut data = [0f32; 3];
 
                 for c in k.iter().flat_map(|row| row.iter()) {
-- 
2.43.0


From 3728490f803f0d2d60ddc9f8748feb44d8985acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 23/37] fix: symmetric_nearest_neighbor with a radius of zero
 returns the image unchanged

---
 d10-ops/src/symmetric_nearest_neighbor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/d10-ops/src/symmetric_nearest_neighbor.rs b/d10-ops/src/symmetric_nearest_neighbor.rs
index 14c779f..477c6e5 100644
--- a/d10-ops/src/symmetric_nearest_neighbor.rs
+++ b/d10-ops/src/symmetric_nearest_neighbor.rs
@@ -40,6 +40,11 @@ pub fn symmetric_nearest_neighbor(
             })
             .collect();
 
+        // A radius of zero has no neighbors to take the mean of
+        if colors.is_empty() {
+            return *center;
+        }
+
         let mut accumulate = [0.0; 4];
 
         let mut len = colors.len() as f32;
-- 
2.43.0


From 03ec6d60dee8792a9583c232e958293e08350312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:19 +0000
Subject: [PATCH 24/37] fix: accept numpy arrays of every supported data type
 in from_np_array

---
 d10-python/src/image.rs | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 1df7e4f..1aec008 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -12,7 +12,7 @@ use d10::{
 #[cfg(feature = "numpy")]
 use {
     d10::Color,
-    numpy::{PyArray, PyArrayDyn},
+    numpy::{PyArray, PyArrayDyn, PyUntypedArray},
     numpy_helper::*,
 };
 
@@ -644,27 +644,23 @@ impl Image {
     #[cfg(feature = "numpy")]
     #[staticmethod]
     pub fn from_np_array(array: &PyAny, colorspace: Option<&str>) -> PyResult<Image> {
-        /* WARNING: In order to find out what data type this numpy array has, we
-         *         blindly cast it into a f32 one, which might result into an
-         *         array with broken data. This seems to be "save" on the rust side
-         *         but might still cause undefined behavior...
-         */
-        //TODO: Find a way to not use this hackish way to do it
+        let untyped_array: &PyUntypedArray = array.downcast()?;
 
-        let py_array: &PyArrayDyn<f32> = array.downcast()?;
+        let data_type = extract_data_type(Some(untyped_array.dtype().typeobj()))?;
 
-        let data_type = extract_data_type(Some(py_array.dtype().typeobj()))?;
-
-        let ndims = py_array.ndim();
-        let dims = py_array.dims();
+        let dims = untyped_array.shape();
+        let ndims = dims.len();
 
         match data_type {
-            DataType::Float32 => from_np_array_iter(
-                ndims,
-                dims,
-                py_array.readonly().as_array().iter().copied(),
-                colorspace,
-            ),
+            DataType::Float32 => {
+                let py_array: &PyArrayDyn<f32> = array.downcast()?;
+                from_np_array_iter(
+                    ndims,
+                    dims,
+                    py_array.readonly().as_array().iter().copied(),
+                    colorspace,
+                )
+            }
             DataType::Float64 => {
                 let py_array: &PyArrayDyn<f64> = array.downcast()?;
                 from_np_array_iter(
@@ -851,7 +847,6 @@ mod numpy_helper {
         Color, Hsl as D10Hsl, Hsv as D10Hsv, Image as D10Image, Rgb as D10Rgb, Srgb as D10Srgb,
         Xyz as D10Xyz, Yuv as D10Yuv,
     };
-    use numpy::IxDyn;
     use pyo3::exceptions::PyOSError;
     use pyo3::{PyAny, PyResult};
 
@@ -905,7 +900,7 @@ mod numpy_helper {
 
     pub fn from_np_array_iter<I: Iterator<Item = f32>>(
         ndims: usize,
-        dims: IxDyn,
+        dims: &[usize],
         mut iter: I,
         colorspace: Option<&str>,
     ) -> PyResult<Image> {
-- 
2.43.0


From 8fca6527adfa3e55bd3aef7fc929b4b4caf9065a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:19 +0000
Subject: [PATCH 25/37] fix: reject numpy arrays with less than two dimensions
 with an error

---
 d10-python/src/image.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 1aec008..22a59a1 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -904,6 +904,13 @@ mod numpy_helper {
         mut iter: I,
         colorspace: Option<&str>,
     ) -> PyResult<Image> {
+        if ndims < 2 {
+            return Err(PyOSError::new_err(format!(
+                "Bad number of dimensions: {}",
+                ndims
+            )));
+        }
+
         let width = dims[1];
         let height = dims[0];
 
-- 
2.43.0


From 396eb531e6eaa02aadf583ff86034baba40074be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:19 +0000
Subject: [PATCH 26/37] fix: True is full intensity when converting numpy
 arrays of booleans

---
 d10-python/src/image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 22a59a1..b27b52e 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -679,7 +679,7 @@ impl Image {
                         .readonly()
                         .as_array()
                         .iter()
-                        .map(|v| if *v { 0.0f32 } else { 1.0f32 }),
+                        .map(|v| if *v { 1.0f32 } else { 0.0f32 }),
                     colorspace,
                 )
             }
-- 
2.43.0


From b7bbb5c30cef7911851a5a790615ffb14f30b34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:19 +0000
Subject: [PATCH 27/37] fix: convert lcha numpy arrays as LCH instead of Lab

---
 d10-python/src/image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index b27b52e..ab48b91 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -955,7 +955,7 @@ mod numpy_helper {
                         .collect(),
                     "lcha" | "lch" => chunked::<4>(&mut iter)
                         .map(|chunk| {
-                            D10LabD65O2::new_with_alpha(chunk[0], chunk[1], chunk[2], chunk[3])
+                            D10LchD65O2::new_with_alpha(chunk[0], chunk[1], chunk[2], chunk[3])
                                 .to_rgb()
                         })
                         .collect(),
-- 
2.43.0


From 089750da7445cd9fd46277289163aff663255404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:19 +0000
Subject: [PATCH 28/37] fix: round to the nearest level in to_np_array

---
 d10-python/src/image.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index ab48b91..30699c7 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -601,7 +601,7 @@ impl Image {
                 .into()
             }
             DataType::Uint8 => {
-                let arr = PyArray::from_iter(py, data.iter().map(|v| (v * 255.0) as u8));
+                let arr = PyArray::from_iter(py, data.iter().map(|v| (v * 255.0).round() as u8));
                 arr.reshape([
                     self.inner.height() as usize,
                     self.inner.width() as usize,
@@ -611,7 +611,7 @@ impl Image {
             }
 
             DataType::Uint16 => {
-                let arr = PyArray::from_iter(py, data.iter().map(|v| (v * 65535.0) as u16));
+                let arr = PyArray::from_iter(py, data.iter().map(|v| (v * 65535.0).round() as u16));
                 arr.reshape([
                     self.inner.height() as usize,
                     self.inner.width() as usize,
-- 
2.43.0


From 4df46d51cfde6337ed71485e0c4d4122e77526b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:01 +0000
Subject: [PATCH 29/37] fix: accept unaligned numpy arrays

---
 d10-python/src/image.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 30699c7..a39bb3c 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -646,6 +646,13 @@ impl Image {
     pub fn from_np_array(array: &PyAny, colorspace: Option<&str>) -> PyResult<Image> {
         let untyped_array: &PyUntypedArray = array.downcast()?;
 
+        // The elements can only be accessed when they are aligned
+        let array = if array.getattr("flags")?.getattr("aligned")?.is_true()? {
+            array
+        } else {
+            array.call_method0("copy")?
+        };
+
         let data_type = extract_data_type(Some(untyped_array.dtype().typeobj()))?;
 
         let dims = untyped_array.shape();
-- 
2.43.0


From 25b7497c52440cf288cdeb982b1c4a99367175af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 30/37] fix: don't panic when simulating jpeg quality on an
 empty image

---
 d10-ops/src/jpeg_quality.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/d10-ops/src/jpeg_quality.rs b/d10-ops/src/jpeg_quality.rs
index c047556..1a326a9 100644
--- a/d10-ops/src/jpeg_quality.rs
+++ b/d10-ops/src/jpeg_quality.rs
@@ -10,6 +10,11 @@ pub fn jpeg_quality(
     quality: u8,
     preserve_alpha: bool,
 ) -> PixelBuffer<Rgb> {
+    // Jpeg doesn't support images without pixels
+    if buffer.is_empty() {
+        return buffer.clone();
+    }
+
     let mut temp = vec![];
 
     encode(
-- 
2.43.0


From c8c0da773202cf159a99563932a2402024957feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:27 +0000
Subject: [PATCH 31/37] fix: don't panic when resizing an empty image

---
 d10-ops/src/resize.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/d10-ops/src/resize.rs b/d10-ops/src/resize.rs
index 28575b4..a8db801 100644
--- a/d10-ops/src/resize.rs
+++ b/d10-ops/src/resize.rs
@@ -98,6 +98,11 @@ pub fn resize(
         return buffer.clone();
     }
 
+    // There are no pixels to interpolate
+    if buffer.is_empty() {
+        return PixelBuffer::new(new_width, new_height);
+    }
+
     match filter {
         FilterMode::Nearest => resize_with_fn(buffer, new_width, new_height, resize_pixel_nearest),
         FilterMode::Bilinear => {
-- 
2.43.0


From 970b3e3374731ab129d466f4b6397c79ed6b4ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:52 +0000
Subject: [PATCH 32/37] fix: sum up the averages of large images in double
 precision

---
 d10-ops/src/saturation.rs  |  9 ++++++---
 d10-ops/src/temperature.rs | 18 +++++++++---------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/d10-ops/src/saturation.rs b/d10-ops/src/saturation.rs
index 6a048e8..8b0b02a 100644
--- a/d10-ops/src/saturation.rs
+++ b/d10-ops/src/saturation.rs
@@ -59,17 +59,20 @@ fn get_gamma_pow(gamma: f32, brightness: f32) -> f32 {
 }
 
 fn avg_saturation(buffer: &PixelBuffer<Rgb>, mode: SaturationMode) -> f32 {
-    let mut sum = 0.0;
+    // A f32 would get too inaccurate if there are many pixels
+    let mut sum = 0.0f64;
 
     for c in buffer.data() {
-        sum += match mode {
+        let saturation = match mode {
             SaturationMode::Hsl => c.to_hsl().saturation(),
             SaturationMode::Hsv => c.to_hsv().saturation(),
             SaturationMode::Lch => c.to_lch::<D65, O2>().c(),
         };
+
+        sum += saturation as f64;
     }
 
-    sum / buffer.data().len() as f32
+    (sum / buffer.data().len() as f64) as f32
 }
 
 fn saturate_hsl(c: &Rgb, gamma: f32) -> Rgb {
diff --git a/d10-ops/src/temperature.rs b/d10-ops/src/temperature.rs
index 38ca767..c6e612f 100644
--- a/d10-ops/src/temperature.rs
+++ b/d10-ops/src/temperature.rs
@@ -106,13 +106,13 @@ fn get_green_tint_pow(buffer: &PixelBuffer<Rgb>, tint_correction: f32) -> f32 {
         return 0.0;
     }
 
-    let mut sum = 0.0;
+    let mut sum = 0.0f64;
 
     for c in buffer.data() {
-        sum += c.green() - c.red() + c.green() - c.blue();
+        sum += (c.green() - c.red() + c.green() - c.blue()) as f64;
     }
 
-    let avg = sum * tint_correction / buffer.data().len() as f32;
+    let avg = (sum / buffer.data().len() as f64) as f32 * tint_correction;
 
     if avg > 0.0 {
         1.0 / (1.0 - avg.tanh())
@@ -126,13 +126,13 @@ fn get_red_tint_pow(buffer: &PixelBuffer<Rgb>, tint_correction: f32) -> f32 {
         return 0.0;
     }
 
-    let mut sum = 0.0;
+    let mut sum = 0.0f64;
 
     for c in buffer.data() {
-        sum += c.red() - c.green() + c.red() - c.blue();
+        sum += (c.red() - c.green() + c.red() - c.blue()) as f64;
     }
 
-    let avg = 0.25 * sum * tint_correction / buffer.data().len() as f32;
+    let avg = 0.25 * (sum / buffer.data().len() as f64) as f32 * tint_correction;
 
     if avg > 0.0 {
         1.0 / (1.0 - avg.tanh())
@@ -146,13 +146,13 @@ fn get_blue_tint_pow(buffer: &PixelBuffer<Rgb>, tint_correction: f32) -> f32 {
         return 0.0;
     }
 
-    let mut sum = 0.0;
+    let mut sum = 0.0f64;
 
     for c in buffer.data() {
-        sum += c.blue() - c.green() + c.blue() - c.red();
+        sum += (c.blue() - c.green() + c.blue() - c.red()) as f64;
     }
 
-    let avg = 0.33 * sum * tint_correction / buffer.data().len() as f32;
+    let avg = 0.33 * (sum / buffer.data().len() as f64) as f32 * tint_correction;
 
     if avg > 0.0 {
         1.0 / (1.0 - avg.tanh())
-- 
2.43.0


From cec0e6737f09f6ac95d9518a278e7a3d2255d2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 33/37] fix: count more than 2^24 pixels of the same level in
 equalize

---
 d10-ops/src/equalize.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/d10-ops/src/equalize.rs b/d10-ops/src/equalize.rs
index b066c66..271a0ae 100644
--- a/d10-ops/src/equalize.rs
+++ b/d10-ops/src/equalize.rs
@@ -35,10 +35,17 @@ fn channel_histogram<C: Color, const NUM_CHANNELS: usize>(
     let mut histogram = [[0.0; 256]; NUM_CHANNELS];
 
     for (i, h) in histogram.iter_mut().enumerate() {
+        // A f32 can't count beyond 2^24
+        let mut counts = [0u32; 256];
+
         for c in buffer.data() {
             let v = c.data()[channel_offset + i] * 255.0;
             let index = v.round().clamp(0., 255.0) as usize;
-            h[index] += 1.0;
+            counts[index] += 1;
+        }
+
+        for (v, count) in h.iter_mut().zip(counts) {
+            *v = count as f32;
         }
     }
 
-- 
2.43.0


From 1b40c78d755fc634f5888871a4e4c8c84e5c4b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 34/37] fix: exact shares of the levels of large images in
 balance and stretch_contrast

---
 d10-ops/src/balance_channels.rs | 9 +++++----
 d10-ops/src/stretch_contrast.rs | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/d10-ops/src/balance_channels.rs b/d10-ops/src/balance_channels.rs
index 404d6c1..5bb145e 100644
--- a/d10-ops/src/balance_channels.rs
+++ b/d10-ops/src/balance_channels.rs
@@ -6,19 +6,20 @@ use std::str::FromStr;
 fn get_color_values<C: Color + From<Rgb>, const START: usize, const NUM_CHANNELS: usize>(
     buffer: &PixelBuffer<Rgb>,
 ) -> [[f32; 256]; NUM_CHANNELS] {
-    let mut result = [[0.0; 256]; NUM_CHANNELS];
+    // Adding up fractions would get too inaccurate if there are many pixels
+    let mut counts = [[0u32; 256]; NUM_CHANNELS];
 
     let len = buffer.data().len() as f32;
 
     for c in buffer.data() {
         let c: C = (*c).into();
-        for (channel, res) in result.iter_mut().enumerate() {
+        for (channel, res) in counts.iter_mut().enumerate() {
             let v = (c.data()[START + channel] * 255.0).clamp(0.0, 255.0) as u8;
-            res[v as usize] += 1.0 / len;
+            res[v as usize] += 1;
         }
     }
 
-    result
+    counts.map(|counts| counts.map(|count| count as f32 / len))
 }
 
 pub fn get_min_value(values: &[f32; 256], threshold: f32) -> f32 {
diff --git a/d10-ops/src/stretch_contrast.rs b/d10-ops/src/stretch_contrast.rs
index 8501899..a572880 100644
--- a/d10-ops/src/stretch_contrast.rs
+++ b/d10-ops/src/stretch_contrast.rs
@@ -7,16 +7,17 @@ fn get_color_value(c: &Rgb) -> u8 {
 }
 
 fn get_color_values(buffer: &PixelBuffer<Rgb>) -> [f32; 256] {
-    let mut result = [0.0; 256];
+    // Adding up fractions would get too inaccurate if there are many pixels
+    let mut counts = [0u32; 256];
 
     let len = buffer.data().len() as f32;
 
     for c in buffer.data() {
         let v = get_color_value(c);
-        result[v as usize] += 1.0 / len;
+        counts[v as usize] += 1;
     }
 
-    result
+    counts.map(|count| count as f32 / len)
 }
 
 pub fn get_min_value(values: &[f32; 256], threshold: f32) -> f32 {
-- 
2.43.0


From 69f7122bf3f8f0059067af312626b38e9700263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:55 +0000
Subject: [PATCH 35/37] fix: simulate the jpeg quality of images with sides
 above 65535 pixels

The encoder refuses such images, which made jpeg_quality panic. Process them in parts of whole jpeg blocks.
---
 d10-ops/src/jpeg_quality.rs | 44 ++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/d10-ops/src/jpeg_quality.rs b/d10-ops/src/jpeg_quality.rs
index 1a326a9..df6b733 100644
--- a/d10-ops/src/jpeg_quality.rs
+++ b/d10-ops/src/jpeg_quality.rs
@@ -2,6 +2,11 @@ use d10_codecs::{decode_buffer, encode, EncodingFormat};
 use d10_core::color::Rgb;
 use d10_core::pixelbuffer::PixelBuffer;
 
+use crate::crop;
+
+/// The longest side of a part of a larger image: A multiple of the largest block size of a jpeg image
+const MAX_PART_SIZE: u32 = 65520;
+
 /// Returns a new buffer with a simulated jpeg quality
 ///
 /// If `preserve_alpha` is not set, all alpha values will be set to 1.0
@@ -15,16 +20,26 @@ pub fn jpeg_quality(
         return buffer.clone();
     }
 
-    let mut temp = vec![];
+    let (width, height) = (buffer.width(), buffer.height());
 
-    encode(
-        &mut temp,
-        buffer,
-        EncodingFormat::jpeg_with_quality(quality),
-    )
-    .expect("Encoded image");
+    // Neither does it support images with sides that don't fit into 16 bits
+    let mut out = if width > MAX_PART_SIZE || height > MAX_PART_SIZE {
+        let mut out = PixelBuffer::new(width, height);
+
+        for offset_y in (0..height).step_by(MAX_PART_SIZE as usize) {
+            for offset_x in (0..width).step_by(MAX_PART_SIZE as usize) {
+                let part = crop(buffer, offset_x, offset_y, MAX_PART_SIZE, MAX_PART_SIZE);
+
+                for (x, y, color) in encode_and_decode(&part, quality).enumerate() {
+                    out.put_pixel(offset_x + x, offset_y + y, color);
+                }
+            }
+        }
 
-    let mut out = decode_buffer(&temp).expect("Decoded image").buffer;
+        out
+    } else {
+        encode_and_decode(buffer, quality)
+    };
 
     if preserve_alpha {
         for (c_in, c_out) in buffer.data().iter().zip(out.data_mut().iter_mut()) {
@@ -34,3 +49,16 @@ pub fn jpeg_quality(
 
     out
 }
+
+fn encode_and_decode(buffer: &PixelBuffer<Rgb>, quality: u8) -> PixelBuffer<Rgb> {
+    let mut temp = vec![];
+
+    encode(
+        &mut temp,
+        buffer,
+        EncodingFormat::jpeg_with_quality(quality),
+    )
+    .expect("Encoded image");
+
+    decode_buffer(&temp).expect("Decoded image").buffer
+}
-- 
2.43.0


From 0e0e5a82f6ca76c3916eab5ac53248d3d65d97bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:15 +0000
Subject: [PATCH 36/37] fix: keep the color of fully transparent pixels in
 lossless webp files

---
 d10-codecs/src/webp.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/d10-codecs/src/webp.rs b/d10-codecs/src/webp.rs
index 49ffaf3..8b855e3 100644
--- a/d10-codecs/src/webp.rs
+++ b/d10-codecs/src/webp.rs
@@ -151,6 +151,8 @@ where
                 if let Ok(config) = &mut config {
                     // Levels outside of 0 to 9 are rejected and would leave the config lossy
                     WebPConfigLosslessPreset(config, 6);
+                    // Keep the color of fully transparent pixels
+                    config.exact = 1;
                 }
                 config
             }
-- 
2.43.0


From fad01570419b66b7fce470e07a681ba128ee6a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:24 +0000
Subject: [PATCH 37/37] fix: open the first plain name after -silent instead of
 saving to it

---
 d10-cli/src/main.rs       | 2 +-
 d10-commands/src/queue.rs | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/d10-cli/src/main.rs b/d10-cli/src/main.rs
index c68af7d..d5fd31e 100644
--- a/d10-cli/src/main.rs
+++ b/d10-cli/src/main.rs
@@ -175,7 +175,7 @@ impl Args {
                     Some(arg) => queue.push(self.parse_arg(arg, &mut iter)?),
                     None => return Err(format!("Unknown argument: {}", string_arg)),
                 }
-            } else if queue.is_empty() {
+            } else if !queue.has_steps() {
                 queue.push(Open(arg.into()))
             } else {
                 queue.push(Save(arg.into()))
diff --git a/d10-commands/src/queue.rs b/d10-commands/src/queue.rs
index 6e5f55c..b33c29a 100644
--- a/d10-commands/src/queue.rs
+++ b/d10-commands/src/queue.rs
@@ -32,6 +32,11 @@ impl Queue {
         self.commands.is_empty()
     }
 
+    /// Returns true if there is any command that isn't just a setting like `Silent`
+    pub fn has_steps(&self) -> bool {
+        self.commands.iter().any(|cmd| !cmd.ignore_in_log())
+    }
+
     pub fn len(&self) -> usize {
         self.commands.len()
     }
-- 
2.43.0

