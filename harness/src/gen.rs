//! Alphabets, image builders and comparison helpers shared by the checks.
#![allow(dead_code)]
use d10::{PixelBuffer, Rgb, Color};

pub fn scratch() -> String {
    std::env::var("D10MC_SCRATCH").unwrap_or_else(|_| "/tmp".into())
}

/// sRGB byte -> linear, in f64 (IEC 61966-2-1)
pub fn srgb_to_lin(v: f64) -> f64 {
    if v > 0.04045 { ((v + 0.055) / 1.055).powf(2.4) } else { v / 12.92 }
}
pub fn lin_to_srgb(v: f64) -> f64 {
    if v > 0.003_130_8 { 1.055 * v.powf(1.0 / 2.4) - 0.055 } else { 12.92 * v }
}

/// The linear Rgb of an 8 bit sRGB pixel as the decoders produce it.
pub fn px8(r: u8, g: u8, b: u8, a: u8) -> Rgb {
    let f = |v: u8| srgb_to_lin(v as f64 / 255.0) as f32;
    Rgb { data: [f(r), f(g), f(b), a as f32 / 255.0] }
}
pub fn px16(r: u16, g: u16, b: u16, a: u16) -> Rgb {
    let f = |v: u16| srgb_to_lin(v as f64 / 65535.0) as f32;
    Rgb { data: [f(r), f(g), f(b), a as f32 / 65535.0] }
}

/// 8 bit sRGB level of a pixel, as a real number.
pub fn levels(c: &Rgb, max: f64) -> [f64; 4] {
    let s = |v: f32| lin_to_srgb(v as f64) * max;
    [s(c.data[0]), s(c.data[1]), s(c.data[2]), c.data[3] as f64 * max]
}

pub fn buf(w: u32, h: u32, mut f: impl FnMut(u32, u32) -> Rgb) -> PixelBuffer<Rgb> {
    let mut v = Vec::with_capacity((w * h) as usize);
    for y in 0..h {
        for x in 0..w {
            v.push(f(x, y));
        }
    }
    PixelBuffer::new_from_raw(w, h, v)
}

/// all pixels distinct, channels distinct, alpha varied
pub fn distinct_px(i: u32) -> Rgb {
    // periods without a common factor: distinct for more pixels than any image here has
    let f = |k: u64, m: u64| ((i as u64 * k + 7) % m) as f32 / m as f32;
    Rgb { data: [f(37, 251), f(91, 241), f(53, 239), 0.25 + 0.75 * f(17, 251)] }
}
pub fn distinct_buf(w: u32, h: u32) -> PixelBuffer<Rgb> {
    buf(w, h, |x, y| distinct_px(x + y * w))
}
/// same with unrelated offset
pub fn distinct_buf2(w: u32, h: u32, off: u32) -> PixelBuffer<Rgb> {
    buf(w, h, |x, y| distinct_px(x + y * w + off))
}

pub fn bits(b: &PixelBuffer<Rgb>) -> Vec<u32> {
    let mut v = vec![b.width(), b.height()];
    v.extend(b.data().iter().flat_map(|c| c.data.iter().map(|f| f.to_bits())));
    v
}

pub fn same_px(a: &Rgb, b: &Rgb) -> bool {
    a.data.iter().zip(b.data.iter()).all(|(x, y)| x.to_bits() == y.to_bits() || x == y)
}

/// exact equality of pixel data and dimensions
pub fn same(a: &PixelBuffer<Rgb>, b: &PixelBuffer<Rgb>) -> Result<(), String> {
    if a.width() != b.width() || a.height() != b.height() {
        return Err(format!("dimensions {}x{} instead of {}x{}", a.width(), a.height(), b.width(), b.height()));
    }
    if a.data().len() != b.data().len() {
        return Err(format!("{} pixels instead of {}", a.data().len(), b.data().len()));
    }
    for (i, (p, q)) in a.data().iter().zip(b.data()).enumerate() {
        if !same_px(p, q) {
            let w = a.width().max(1) as usize;
            return Err(format!("pixel ({},{}) is {:?} instead of {:?}", i % w, i / w, p.data, q.data));
        }
    }
    Ok(())
}

pub fn close_px(a: &[f32], b: &[f64], tol: f64) -> bool {
    a.iter().zip(b).all(|(x, y)| ((*x as f64) - y).abs() <= tol)
}

pub fn close(a: &PixelBuffer<Rgb>, b: &PixelBuffer<Rgb>, tol: f32) -> Result<(), String> {
    if a.width() != b.width() || a.height() != b.height() || a.data().len() != b.data().len() {
        return Err(format!("dimensions {}x{} instead of {}x{}", a.width(), a.height(), b.width(), b.height()));
    }
    for (i, (p, q)) in a.data().iter().zip(b.data()).enumerate() {
        if !p.data.iter().zip(q.data.iter()).all(|(x, y)| (x - y).abs() <= tol) {
            let w = a.width().max(1) as usize;
            return Err(format!("pixel ({},{}) is {:?} instead of {:?}", i % w, i / w, p.data, q.data));
        }
    }
    Ok(())
}

/// dims + len consistent, everything finite and in [0,1]
pub fn well_formed(b: &PixelBuffer<Rgb>) -> Result<(), String> {
    if b.data().len() as u64 != b.width() as u64 * b.height() as u64 {
        return Err(format!("{}x{} with {} pixels", b.width(), b.height(), b.data().len()));
    }
    for (i, p) in b.data().iter().enumerate() {
        for v in p.data.iter() {
            if !(*v >= 0.0 && *v <= 1.0) {
                return Err(format!("pixel {} out of range: {:?}", i, p.data));
            }
        }
    }
    Ok(())
}

pub fn alpha_kept(a: &PixelBuffer<Rgb>, b: &PixelBuffer<Rgb>) -> Result<(), String> {
    for (i, (p, q)) in a.data().iter().zip(b.data()).enumerate() {
        if (p.alpha() - q.alpha()).abs() > 1e-6 {
            return Err(format!("pixel {}: alpha {} became {}", i, p.alpha(), q.alpha()));
        }
    }
    Ok(())
}

/// All sequences over 0..k of length n, in lexicographic order (odometer).
pub fn sequences(k: usize, n: usize) -> impl Iterator<Item = Vec<usize>> {
    let total = k.pow(n as u32);
    (0..total).map(move |mut i| {
        let mut v = vec![0; n];
        for p in (0..n).rev() {
            v[p] = i % k;
            i /= k;
        }
        v
    })
}

use d10::{BmpColorType, EncodingFormat as EF, IcoColorType, JpegSamplingFactor as SF, PngColorType, PngCompression, PngFilterType, WebPPreset};

pub const PNG_TYPES: [(PngColorType, &str); 8] = [
    (PngColorType::L8, "l8"),
    (PngColorType::La8, "la8"),
    (PngColorType::L16, "l16"),
    (PngColorType::La16, "la16"),
    (PngColorType::Rgb8, "rgb8"),
    (PngColorType::Rgba8, "rgba8"),
    (PngColorType::Rgb16, "rgb16"),
    (PngColorType::Rgba16, "rgba16"),
];
pub const PNG_COMP: [(PngCompression, &str); 3] =
    [(PngCompression::Default, "default"), (PngCompression::Fast, "fast"), (PngCompression::Best, "best")];
pub const PNG_FILT: [(PngFilterType, &str); 5] = [
    (PngFilterType::NoFilter, "no_filter"),
    (PngFilterType::Sub, "sub"),
    (PngFilterType::Up, "up"),
    (PngFilterType::Avg, "avg"),
    (PngFilterType::Paeth, "paeth"),
];
pub const BMP_TYPES: [(BmpColorType, &str); 4] =
    [(BmpColorType::L8, "l8"), (BmpColorType::La8, "la8"), (BmpColorType::Rgb8, "rgb8"), (BmpColorType::Rgba8, "rgba8")];
pub const ICO_TYPES: [(IcoColorType, &str); 4] =
    [(IcoColorType::L8, "l8"), (IcoColorType::La8, "la8"), (IcoColorType::Rgb8, "rgb8"), (IcoColorType::Rgba8, "rgba8")];
pub const WEBP: [(WebPPreset, &str); 7] = [
    (WebPPreset::Default, "default"),
    (WebPPreset::Picture, "picture"),
    (WebPPreset::Photo, "photo"),
    (WebPPreset::Drawing, "drawing"),
    (WebPPreset::Icon, "icon"),
    (WebPPreset::Text, "text"),
    (WebPPreset::Lossless, "lossless"),
];
/// sampling factor, name, luma sampling (h, v) / chroma sampling
pub const SAMPLING: [(SF, &str, (u8, u8)); 16] = [
    (SF::F_1_1, "1x1", (1, 1)),
    (SF::F_2_1, "2x1", (2, 1)),
    (SF::F_1_2, "1x2", (1, 2)),
    (SF::F_2_2, "2x2", (2, 2)),
    (SF::F_4_1, "4x1", (4, 1)),
    (SF::F_4_2, "4x2", (4, 2)),
    (SF::F_1_4, "1x4", (1, 4)),
    (SF::F_2_4, "2x4", (2, 4)),
    (SF::R_4_4_4, "4:4:4", (1, 1)),
    (SF::R_4_4_0, "4:4:0", (1, 2)),
    (SF::R_4_4_1, "4:4:1", (1, 4)),
    (SF::R_4_2_2, "4:2:2", (2, 1)),
    (SF::R_4_2_0, "4:2:0", (2, 2)),
    (SF::R_4_2_1, "4:2:1", (2, 4)),
    (SF::R_4_1_1, "4:1:1", (4, 1)),
    (SF::R_4_1_0, "4:1:0", (4, 2)),
];

pub fn png(t: PngColorType, c: PngCompression, f: PngFilterType) -> EF {
    EF::Png { color_type: t, compression: c, filter: f }
}
pub fn jpeg(quality: u8, progressive: bool, sampling_factor: Option<SF>, grayscale: bool, optimize_huffman_tables: bool) -> EF {
    EF::Jpeg { quality, progressive, sampling_factor, grayscale, optimize_huffman_tables }
}

/// Every format and every option value at least once.
pub fn formats_small() -> Vec<(String, EF)> {
    let mut v = vec![];
    for (t, n) in PNG_TYPES {
        v.push((format!("png-{}", n), png(t, PngCompression::Default, PngFilterType::Sub)));
    }
    for (c, n) in &PNG_COMP[1..] {
        v.push((format!("png-{}", n), png(PngColorType::Rgba8, *c, PngFilterType::Sub)));
    }
    for (f, n) in PNG_FILT {
        if n != "sub" {
            v.push((format!("png-{}", n), png(PngColorType::Rgba8, PngCompression::Default, f)));
        }
    }
    for (name, f) in jpeg_small() {
        v.push((name, f));
    }
    v.push(("gif".into(), EF::Gif));
    for (t, n) in BMP_TYPES {
        v.push((format!("bmp-{}", n), EF::Bmp { color_type: t }));
    }
    for (t, n) in ICO_TYPES {
        v.push((format!("ico-{}", n), EF::Ico { color_type: t }));
    }
    for (p, n) in WEBP {
        v.push((format!("webp-{}", n), EF::WebP { quality: 90, preset: p }));
    }
    v
}

pub fn jpeg_small() -> Vec<(String, EF)> {
    let mut v = vec![];
    v.push(("jpeg".into(), EF::jpeg_default()));
    v.push(("jpeg-q1".into(), jpeg(1, false, None, false, true)));
    v.push(("jpeg-q100".into(), jpeg(100, false, None, false, false)));
    v.push(("jpeg-prog".into(), jpeg(85, true, None, false, false)));
    v.push(("jpeg-prog-opt".into(), jpeg(85, true, Some(SF::F_2_2), false, true)));
    v.push(("jpeg-gray".into(), jpeg(85, false, None, true, false)));
    v.push(("jpeg-gray-prog".into(), jpeg(85, true, None, true, true)));
    v.push(("jpeg-411".into(), jpeg(85, false, Some(SF::R_4_1_1), false, false)));
    v
}

/// the full option product
pub fn formats_all() -> Vec<(String, EF)> {
    let mut v = vec![];
    for (t, n) in PNG_TYPES {
        for (c, nc) in PNG_COMP {
            for (f, nf) in PNG_FILT {
                v.push((format!("png-{}-{}-{}", n, nc, nf), png(t, c, f)));
            }
        }
    }
    let mut sf: Vec<(Option<SF>, &str)> = vec![(None, "auto")];
    sf.extend(SAMPLING.iter().map(|s| (Some(s.0), s.1)));
    for q in [0u8, 1, 50, 85, 90, 100, 255] {
        for (s, ns) in &sf {
            for bits in 0..8 {
                let (p, g, o) = (bits & 1 != 0, bits & 2 != 0, bits & 4 != 0);
                v.push((format!("jpeg-q{}-{}-p{}g{}o{}", q, ns, p as u8, g as u8, o as u8), jpeg(q, p, *s, g, o)));
            }
        }
    }
    v.push(("gif".into(), EF::Gif));
    for (t, n) in BMP_TYPES {
        v.push((format!("bmp-{}", n), EF::Bmp { color_type: t }));
    }
    for (t, n) in ICO_TYPES {
        v.push((format!("ico-{}", n), EF::Ico { color_type: t }));
    }
    for (p, n) in WEBP {
        for q in [0u8, 1, 50, 90, 100, 255] {
            v.push((format!("webp-{}-q{}", n, q), EF::WebP { quality: q, preset: p }));
        }
    }
    v
}

pub fn ext_of(f: &EF) -> &'static str {
    match f {
        EF::Jpeg { .. } => "jpg",
        EF::Png { .. } => "png",
        EF::Gif => "gif",
        EF::Bmp { .. } => "bmp",
        EF::Ico { .. } => "ico",
        EF::WebP { .. } => "webp",
    }
}

/// 8 bit sRGB test image with varied colours and alphas
pub fn photo(w: u32, h: u32) -> PixelBuffer<Rgb> {
    let mut s = 12345u32;
    buf(w, h, |x, y| {
        s = s.wrapping_mul(1664525).wrapping_add(1013904223);
        let n = (s >> 24) as u8;
        px8(n, (x * 37 + 11) as u8, (y * 53 + 7) as u8 ^ n, 255 - (n >> 2))
    })
}
