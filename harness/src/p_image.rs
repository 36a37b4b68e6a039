//! C23: the Image type against the operations on buffers. C24: results do not depend on history.
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use d10::{ops, EdgeDetection, EncodingFormat, EqualizeMode, FilterMode, Image, Intensity, PixelBuffer, Rgb};
use d10::Color;
use d10_ops::{BalanceMode, BlendOp, DrawingMode, SaturationMode};
use rand::script;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;

pub const RULE23: &str = "Every method of Image on every image of a set (empty, 0 x n, single pixel, rows, columns, larger, opaque and transparent, gray) times a grid of its parameters with pairwise different values, executed through Image and through the operation on pixel buffers with the same arguments under the same scripted random numbers; constructors, accessors, closures failing at every position and files in every format likewise. Resizing by percentage: every percentage of a grid times every side from 0 to 60 against round-and-at-least-one. All method sequences up to length 3 (quick: a fifth of the methods after the first) against the same sequence in which every intermediate result is rebuilt from its size and pixels. Parameters at and beyond the ends of their ranges, an image combined with itself and up to 1000 images composed. Writers that are full after every number of bytes. Non-trivial: the result differs from the receiver.";
pub const ASSUME23: &[&str] = &["what the operations compute is decided by C08 to C18 and the codecs by C01 to C05"];
pub const RULE24: &str = "An alphabet of calls: every operation with every parameter variant on three images (two of the same size, two of the same area), every encoder and decoder, every colour conversion and adjustment; and families, the calls of one kind with a full parameter grid (blurs, kernels, palettes, resizing, rotation, geometry, tone, temperature, blending, style, noise, colour functions, codecs with whole, cut and damaged files). Images of equal size are written in place into one buffer, so calls see one address with changing contents. The result of each call as the first call of a fresh process is the specification. Histories: for every call a, one fresh process that runs a, b for every call b (so every ordered pair occurs adjacently, each call after every other one), quick: inside each family and over the main calls, thorough: over all calls; thorough: all triples over a reduced alphabet; every call on a fresh thread after the others; and nested histories, in which a call is executed inside the callback of another one (pixel functions, writers) at every callback position. Every step must give the bits it gives in a fresh process.";
pub const ASSUME24: &[&str] = &["random operations run under the same scripted random numbers", "bit equality is required between runs of the same binary only"];

type ImF = Box<dyn Fn(&Image) -> Image + Sync + Send>;
type BfF = Box<dyn Fn(&PixelBuffer<Rgb>) -> PixelBuffer<Rgb> + Sync + Send>;
pub struct M {
    name: String,
    im: ImF,
    bf: BfF,
    rnd: bool,
}

pub const FILTERS: [(FilterMode, &str); 5] = [(FilterMode::Nearest, "nearest"), (FilterMode::Bilinear, "bilinear"), (FilterMode::Bicubic, "bicubic"), (FilterMode::Lanczos3, "lanczos3"), (FilterMode::Auto, "auto")];
const BLENDS: &[&str] = &["normal", "addition", "subtract", "darken", "lighten", "hsl_darken", "hsl_lighten", "lch_darken", "lch_lighten"];

fn pct_dims(w: u32, h: u32, pct: f32) -> (u32, u32) {
    let f = |v: u32| ((v as f32) * (pct / 100.0)).round().max(1.0) as u32;
    (f(w), f(h))
}

fn methods() -> Vec<M> {
    let mut v: Vec<M> = vec![];
    macro_rules! m {
        ($n:expr, $im:expr, $bf:expr) => {
            v.push(M { name: $n.to_string(), im: Box::new($im), bf: Box::new($bf), rnd: false })
        };
    }
    m!("flip_h", |i| i.flip_horizontal(), |b| ops::flip_horizontal(b));
    m!("flip_v", |i| i.flip_vertical(), |b| ops::flip_vertical(b));
    m!("rot90", |i| i.rotate90(), |b| ops::rotate90(b));
    m!("rot180", |i| i.rotate180(), |b| ops::rotate180(b));
    m!("rot270", |i| i.rotate270(), |b| ops::rotate270(b));
    for (x, y, w, h) in [(0u32, 0u32, 2u32, 3u32), (1, 0, 3, 1), (0, 1, 1, 2), (2, 1, 9, 9), (1, 2, 3, 4), (9, 0, 1, 1)] {
        m!(format!("crop{}-{}-{}-{}", x, y, w, h), move |i| i.crop(x, y, w, h), move |b| ops::crop(b, x, y, w, h));
    }
    for (f, n) in FILTERS {
        for a in [0.0f32, 0.4, -71.0, 90.0, 33.0] {
            m!(format!("rotate{}{}", a, n), move |i| i.rotate(a, f), move |b| ops::rotate(b, a, Rgb::NONE, f));
        }
        for (w, h) in [(2u32, 5u32), (5, 2), (8, 6), (1, 1), (4, 3)] {
            m!(format!("resize{}x{}{}", w, h, n), move |i| i.resize(w, h, f), move |b| ops::resize(b, w, h, f));
        }
        for p in [10.0f32, 50.0, 100.0, 133.0, 250.0] {
            m!(format!("resize_pct{}{}", p, n), move |i| i.resize_pct(p, f), move |b| {
                let (w, h) = pct_dims(b.width(), b.height(), p);
                ops::resize(b, w, h, f)
            });
        }
    }
    for (e, n) in [(EdgeDetection::Sobel, "sobel"), (EdgeDetection::Laplace, "laplace")] {
        m!(format!("edge-{}", n), move |i| i.edge_detection(e), move |b| ops::edge_detection(b, e));
    }
    for q in [1u8, 60, 100] {
        for a in [false, true] {
            m!(format!("jpegq{}{}", q, a), move |i| i.with_jpeg_quality(q, a), move |b| ops::jpeg_quality(b, q, a));
        }
    }
    for r in [0u32, 1, 2, 3] {
        for s in [None, Some(0.0f32), Some(0.7), Some(2.0)] {
            m!(format!("blur{}-{:?}", r, s), move |i| i.gaussian_blur(r, s), move |b| ops::gaussian_blur(b, r, s));
            for f in [0.5f32, 2.0] {
                m!(format!("unsharp{}-{}-{:?}", r, f, s), move |i| i.unsharp(r, f, s), move |b| ops::unsharp(b, r, f, s));
            }
        }
    }
    for t in [0.0f32, 30.0, 200.0] {
        m!(format!("wb{}", t), move |i| i.white_balance(t), move |b| ops::balance(b, BalanceMode::Rgb, t));
        for mo in ["rgb", "srgb", "hsv", "hsl", "lch"] {
            let p = move || mo.parse::<BalanceMode>().unwrap();
            m!(format!("balance-{}{}", mo, t), move |i| i.balance(p(), t), move |b| ops::balance(b, p(), t));
        }
        m!(format!("stretch{}", t), move |i| i.stretch_contrast(t), move |b| ops::stretch_contrast(b, t));
    }
    for mo in ["rgb", "srgb", "saturation", "lightness", "saturation_lightness"] {
        let p = move || mo.parse::<EqualizeMode>().unwrap();
        m!(format!("equalize-{}", mo), move |i| i.equalize(p()), move |b| ops::equalize(b, p()));
    }
    for mo in ["hsl", "hsv", "lch"] {
        for o in [0.0f32, 0.2, -0.3] {
            let p = move || mo.parse::<SaturationMode>().unwrap();
            m!(format!("optsat-{}{}", mo, o), move |i| i.optimize_saturation(o, p()), move |b| ops::optimize_saturation(b, o, p()));
        }
    }
    for f in [0.0f32, 0.4, 1.5] {
        m!(format!("optlight{}", f), move |i| i.optimize_lightness(f), move |b| ops::optimize_lightness(b, f));
        for t in [0.0f32, 0.3] {
            m!(format!("opttemp{}-{}", f, t), move |i| i.optimize_color_temperature(f, t), move |b| ops::optimize_color_temperature(b, f, t));
        }
    }
    for (a, b2, t) in [(6500.0f32, 4000.0f32, 0.0f32), (4000.0, 6500.0, 0.2), (3000.0, 3000.0, 0.1), (1500.0, 12000.0, -0.2)] {
        m!(format!("temp{}-{}-{}", a, b2, t), move |i| i.change_color_temperature(a, b2, t), move |b| ops::change_color_temperature(b, a, b2, t));
    }
    for (d, n) in [(DrawingMode::Gray, "gray"), (DrawingMode::Colored, "colored"), (DrawingMode::ReducedColors, "reduced")] {
        for r in [1u32, 2] {
            m!(format!("drawing{}-{}", r, n), move |i| i.drawing(r, d), move |b| ops::drawing(b, r, d));
        }
    }
    for o in [0u32, 1, 2, 7] {
        m!(format!("interlace{}", o), move |i| i.interlace(o), move |b| ops::interlace(b, o));
    }
    for t in [0.2f32, 0.5] {
        for a in [1u8, 4, 9] {
            m!(format!("despeckle{}-{}", t, a), move |i| i.despeckle(t, a), move |b| ops::despeckle(b, t, a));
        }
    }
    for r in [0usize, 1, 2] {
        for c in [false, true] {
            m!(format!("snn{}{}", r, c), move |i| i.symmetric_nearest_neighbor(r, c), move |b| ops::symmetric_nearest_neighbor(b, r, c));
        }
    }
    for (k, pal) in [vec![Rgb::RED, Rgb::WHITE], vec![Rgb::BLACK, Rgb::GREEN, Rgb::BLUE]].into_iter().enumerate() {
        let (p1, p2, p3) = (pal.clone(), pal.clone(), pal.clone());
        let n = pal.len() as u32;
        m!(format!("palette{}", k), move |i| i.apply_palette(&Image::new_from_raw(n, 1, p1.clone())), move |b| ops::apply_palette(b, &PixelBuffer::new_from_raw(n, 1, p2.clone())));
        let q = pal.clone();
        m!(format!("palette-in-place{}", k), move |i| { let mut j = i.clone(); j.apply_palette_in_place(&Image::new_from_raw(1, n, q.clone())); j }, move |b| ops::apply_palette(b, &PixelBuffer::new_from_raw(n, 1, p3.clone())));
    }
    for (k, (w, h)) in [(4u32, 3u32), (2, 5)].into_iter().enumerate() {
        for op in BLENDS {
            for t in [0.25f32, 1.0] {
                let o = move || op.parse::<BlendOp>().unwrap();
                m!(format!("blend-{}-{}-{}", op, k, t), move |i| i.blend(&Image::new_from_buffer(distinct_buf2(w, h, 40)), o(), t), move |b| ops::blend_image(b, &distinct_buf2(w, h, 40), o(), t));
            }
        }
        let d = Rgb { data: [0.2, 0.4, 0.6, 0.5] };
        let f = |x: u32, y: u32, a: Rgb, b: Rgb| Rgb { data: [a.data[0] * 0.5 + b.data[1] * 0.25, b.data[2], x as f32 * 0.1, a.data[3] * 0.5 + y as f32 * 0.05] };
        m!(format!("compose{}", k), move |i| Image::compose([i, &Image::new_from_buffer(distinct_buf2(w, h, 40))], d, |x, y, [a, b]| f(x, y, a, b)), move |b| ops::compose([b, &distinct_buf2(w, h, 40)], d, |x, y, [a, b]| f(x, y, a, b)));
        m!(format!("compose-swap{}", k), move |i| Image::compose([&Image::new_from_buffer(distinct_buf2(w, h, 40)), i], d, |x, y, [a, b]| f(x, y, a, b)), move |b| ops::compose([&distinct_buf2(w, h, 40), b], d, |x, y, [a, b]| f(x, y, a, b)));
        m!(format!("compose-slice{}", k), move |i| Image::compose_slice(&[i, &Image::new_from_buffer(distinct_buf2(w, h, 40))], d, |x, y, s| f(x, y, s[0], s[1])), move |b| ops::compose([b, &distinct_buf2(w, h, 40)], d, |x, y, [a, b]| f(x, y, a, b)));
        m!(format!("try-compose{}", k), move |i| Image::try_compose([i, &Image::new_from_buffer(distinct_buf2(w, h, 40))], d, |x, y, [a, b]| Ok::<_, ()>(f(x, y, a, b))).unwrap(), move |b| ops::compose([b, &distinct_buf2(w, h, 40)], d, |x, y, [a, b]| f(x, y, a, b)));
        m!(format!("try-compose-slice{}", k), move |i| Image::try_compose_slice(&[i, &Image::new_from_buffer(distinct_buf2(w, h, 40))], d, |x, y, s| Ok::<_, ()>(f(x, y, s[0], s[1]))).unwrap(), move |b| ops::compose([b, &distinct_buf2(w, h, 40)], d, |x, y, [a, b]| f(x, y, a, b)));
    }
    macro_rules! colors {
        ($n:expr, $f:expr) => {
            m!(concat!("map-", $n), |i| i.map_colors($f), |b| b.map_colors($f));
            m!(concat!("try-map-", $n), |i| i.try_map_colors(|c| { let f = $f; Ok::<_, ()>(f(c)) }).unwrap(), |b| b.map_colors($f));
            m!(concat!("mod-", $n), |i| { let mut j = i.clone(); j.mod_colors($f); j }, |b| b.map_colors($f));
            m!(concat!("try-mod-", $n), |i| { let mut j = i.clone(); j.try_mod_colors(|c| { let f = $f; Ok::<_, ()>(f(c)) }).unwrap(); j }, |b| b.map_colors($f));
        };
    }
    colors!("invert", |c: &Rgb| c.invert());
    colors!("gray-avg", |c: &Rgb| c.to_gray_with_intensity(Intensity::Average));
    colors!("hue", |c: &Rgb| c.with_hue_rotate(70.0));
    colors!("vibrance", |c: &Rgb| c.with_vibrance(0.4));
    colors!("gamma", |c: &Rgb| c.with_gamma(1.7));
    fn en(x: u32, y: u32, c: &Rgb) -> Rgb {
        Rgb { data: [c.data[1], x as f32 * 0.125, y as f32 * 0.0625, c.data[3]] }
    }
    m!("map-enum", |i| i.map_colors_enumerated(en), |b| b.map_colors_enumerated(en));
    m!("try-map-enum", |i| i.try_map_colors_enumerated(|x, y, c| Ok::<_, ()>(en(x, y, c))).unwrap(), |b| b.map_colors_enumerated(en));
    m!("mod-enum", |i| { let mut j = i.clone(); j.mod_colors_enumerated(en); j }, |b| b.map_colors_enumerated(en));
    m!("try-mod-enum", |i| { let mut j = i.clone(); j.try_mod_colors_enumerated(|x, y, c| Ok::<_, ()>(en(x, y, c))).unwrap(); j }, |b| b.map_colors_enumerated(en));
    m!("data-mut", |i| { let mut j = i.clone(); for c in j.data_mut() { c.data[0] *= 0.5; } j }, |b| b.map_colors(|c| Rgb { data: [c.data[0] * 0.5, c.data[1], c.data[2], c.data[3]] }));
    m!("buffer-mut", |i| { let mut j = i.clone(); for c in j.buffer_mut().data_mut() { c.data[1] *= 0.5; } j }, |b| b.map_colors(|c| Rgb { data: [c.data[0], c.data[1] * 0.5, c.data[2], c.data[3]] }));
    let start = v.len();
    for t in [0.0f32, 0.35, 1.0] {
        m!(format!("random-noise{}", t), move |i| i.random_noise(t), move |b| ops::random_noise(b, t));
        m!(format!("add-random-noise{}", t), move |i| { let mut j = i.clone(); j.add_random_noise(t); j }, move |b| ops::random_noise(b, t));
        m!(format!("salt{}", t), move |i| i.salt_n_pepper_noise(t), move |b| ops::salt_n_pepper_noise(b, t));
        m!(format!("add-salt{}", t), move |i| { let mut j = i.clone(); j.add_salt_n_pepper_noise(t); j }, move |b| ops::salt_n_pepper_noise(b, t));
        m!(format!("rgb-noise{}", t), move |i| i.rgb_noise(t), move |b| ops::rgb_noise(b, t));
        m!(format!("add-rgb-noise{}", t), move |i| { let mut j = i.clone(); j.add_rgb_noise(t); j }, move |b| ops::rgb_noise(b, t));
        m!(format!("gauss-noise{}", t), move |i| i.gaussian_noise(t), move |b| ops::gaussian_noise(b, t));
        m!(format!("add-gauss-noise{}", t), move |i| { let mut j = i.clone(); j.add_gaussian_noise(t); j }, move |b| ops::gaussian_noise(b, t));
    }
    for x in &mut v[start..] {
        x.rnd = true;
    }
    v
}

/// Parameters at and beyond the ends of their ranges, and an image combined with itself (not part of the chains)
fn extreme_methods() -> Vec<M> {
    let mut v: Vec<M> = vec![];
    macro_rules! m {
        ($n:expr, $im:expr, $bf:expr) => {
            v.push(M { name: $n.to_string(), im: Box::new($im), bf: Box::new($bf), rnd: false })
        };
    }
    for op in ["normal", "addition", "subtract", "darken", "lighten", "hsl_darken", "hsl_lighten", "lch_darken", "lch_lighten", "lch_hue", "lch_saturation", "lch_color"] {
        let o = move || op.parse::<BlendOp>().unwrap();
        for t in [-0.5f32, 0.0, 0.5, 1.0, 2.0] {
            m!(format!("blend-self-{}-{}", op, t), move |i| i.blend(i, o(), t), move |b| ops::blend_image(b, b, o(), t));
            m!(format!("blend-equal-{}-{}", op, t), move |i| i.blend(&i.clone(), o(), t), move |b| ops::blend_image(b, b, o(), t));
            m!(format!("blend-other-{}-{}", op, t), move |i| i.blend(&Image::new_from_buffer(distinct_buf2(5, 2, 40)), o(), t), move |b| ops::blend_image(b, &distinct_buf2(5, 2, 40), o(), t));
            m!(format!("blend-empty-{}-{}", op, t), move |i| i.blend(&Image::new(0, 0), o(), t), move |b| ops::blend_image(b, &PixelBuffer::new(0, 0), o(), t));
        }
    }
    let f2 = |a: Rgb, b: Rgb| Rgb { data: [a.data[1], b.data[0], a.data[2] * 0.5, b.data[3]] };
    m!("compose-self", move |i| Image::compose([i, i], Rgb::RED, |_, _, [a, b]| f2(a, b)), move |b| ops::compose([b, b], Rgb::RED, |_, _, [a, b]| f2(a, b)));
    for n in [1usize, 2, 16, 17, 255, 256, 257, 300, 1000] {
        let f = move |c: &[Rgb]| Rgb { data: [c.len() as f32 / 1024.0, c[c.len() - 1].data[0], c[0].data[1], c[c.len() / 2].data[2]] };
        let last = || distinct_buf2(3, 2, 9);
        m!(format!("compose-slice-many{}", n), move |i| { let l = Image::new_from_buffer(last()); let mut v = vec![i; n]; v.push(&l); Image::compose_slice(&v, Rgb::BLUE, |_, _, c| f(c)) },
            move |b| { let l = last(); let mut v = vec![b; n]; v.push(&l); ops::compose_slice(&v, Rgb::BLUE, |_, _, c| f(c)) });
        m!(format!("try-compose-slice-many{}", n), move |i| { let l = Image::new_from_buffer(last()); let mut v = vec![i; n]; v.push(&l); Image::try_compose_slice(&v, Rgb::BLUE, |_, _, c| Ok::<_, ()>(f(c))).unwrap() },
            move |b| { let l = last(); let mut v = vec![b; n]; v.push(&l); ops::compose_slice(&v, Rgb::BLUE, |_, _, c| f(c)) });
    }
    m!("compose-9", move |i| Image::compose([i; 9], Rgb::RED, |_, _, c| f2(c[0], c[8])), move |b| ops::compose([b; 9], Rgb::RED, |_, _, c| f2(c[0], c[8])));
    m!("palette-self", move |i| if i.is_empty() { i.clone() } else { i.apply_palette(i) }, move |b| if b.is_empty() { b.clone() } else { ops::apply_palette(b, b) });
    for t in [-1.0f32, 0.0, 0.999, 1.0, 1.5, 9.0, f32::INFINITY] {
        for a in [0u8, 5, 8, 9, 255] {
            m!(format!("despeckle-x{}-{}", t, a), move |i| i.despeckle(t, a), move |b| ops::despeckle(b, t, a));
        }
    }
    for (f, n) in FILTERS {
        for a in [360.0f32, -360.0, 720.0, 180.0, -90.0, 1e-3, 12345.6] {
            m!(format!("rotate-x{}{}", a, n), move |i| i.rotate(a, f), move |b| ops::rotate(b, a, Rgb::NONE, f));
        }
    }
    for (x, y, w, h) in [(0u32, 0u32, u32::MAX, u32::MAX), (u32::MAX, 0, 1, 1), (0, u32::MAX, 1, 1), (0, 0, 0, 5), (1, 1, u32::MAX, 1), (0, 0, 1, 1)] {
        m!(format!("crop-x{}-{}-{}-{}", x, y, w, h), move |i| i.crop(x, y, w, h), move |b| ops::crop(b, x, y, w, h));
    }
    for q in [0u8, 2, 50, 99, 101, 255] {
        for a in [false, true] {
            m!(format!("jpegq-x{}{}", q, a), move |i| i.with_jpeg_quality(q, a), move |b| ops::jpeg_quality(b, q, a));
        }
    }
    for r in [0u32, 4, 9] {
        for s in [None, Some(-1.0f32), Some(0.01), Some(50.0)] {
            m!(format!("blur-x{}-{:?}", r, s), move |i| i.gaussian_blur(r, s), move |b| ops::gaussian_blur(b, r, s));
            for f in [-1.0f32, 0.0, 20.0] {
                m!(format!("unsharp-x{}-{}-{:?}", r, f, s), move |i| i.unsharp(r, f, s), move |b| ops::unsharp(b, r, f, s));
            }
        }
    }
    for t in [-5.0f32, 0.4, 499.0, 500.0, 600.0, 1000.0, 2000.0] {
        m!(format!("wb-x{}", t), move |i| i.white_balance(t), move |b| ops::balance(b, BalanceMode::Rgb, t));
        for mo in ["rgb", "srgb", "hsv", "hsl", "lch"] {
            let p = move || mo.parse::<BalanceMode>().unwrap();
            m!(format!("balance-x{}{}", mo, t), move |i| i.balance(p(), t), move |b| ops::balance(b, p(), t));
        }
        m!(format!("stretch-x{}", t), move |i| i.stretch_contrast(t), move |b| ops::stretch_contrast(b, t));
    }
    for o in [-3.0f32, -1.0, 1.0, 5.0] {
        for mo in ["hsl", "hsv", "lch"] {
            let p = move || mo.parse::<SaturationMode>().unwrap();
            m!(format!("optsat-x{}{}", mo, o), move |i| i.optimize_saturation(o, p()), move |b| ops::optimize_saturation(b, o, p()));
        }
        m!(format!("optlight-x{}", o), move |i| i.optimize_lightness(o), move |b| ops::optimize_lightness(b, o));
        m!(format!("opttemp-x{}", o), move |i| i.optimize_color_temperature(o, -o), move |b| ops::optimize_color_temperature(b, o, -o));
    }
    for (a, b2, t) in [(0.0f32, 6500.0f32, 0.0f32), (6500.0, 0.0, 0.0), (-100.0, 6500.0, 0.0), (40000.0, 6500.0, 3.0), (6500.0, 1000.0, -3.0), (6600.0, 6601.0, 0.0)] {
        m!(format!("temp-x{}-{}-{}", a, b2, t), move |i| i.change_color_temperature(a, b2, t), move |b| ops::change_color_temperature(b, a, b2, t));
    }
    for (d, n) in [(DrawingMode::Gray, "gray"), (DrawingMode::Colored, "colored"), (DrawingMode::ReducedColors, "reduced")] {
        for r in [0u32, 5, 12] {
            m!(format!("drawing-x{}-{}", r, n), move |i| i.drawing(r, d), move |b| ops::drawing(b, r, d));
        }
    }
    for o in [3u32, 100, 65536, u32::MAX] {
        m!(format!("interlace-x{}", o), move |i| i.interlace(o), move |b| ops::interlace(b, o));
    }
    for r in [3usize, 9] {
        for c in [false, true] {
            m!(format!("snn-x{}{}", r, c), move |i| i.symmetric_nearest_neighbor(r, c), move |b| ops::symmetric_nearest_neighbor(b, r, c));
        }
    }
    let start = v.len();
    for t in [-2.0f32, -0.5, 1e-3, 1.5, 4.0] {
        m!(format!("random-noise-x{}", t), move |i| i.random_noise(t), move |b| ops::random_noise(b, t));
        m!(format!("add-random-noise-x{}", t), move |i| { let mut j = i.clone(); j.add_random_noise(t); j }, move |b| ops::random_noise(b, t));
        m!(format!("salt-x{}", t), move |i| i.salt_n_pepper_noise(t), move |b| ops::salt_n_pepper_noise(b, t));
        m!(format!("add-salt-x{}", t), move |i| { let mut j = i.clone(); j.add_salt_n_pepper_noise(t); j }, move |b| ops::salt_n_pepper_noise(b, t));
        m!(format!("rgb-noise-x{}", t), move |i| i.rgb_noise(t), move |b| ops::rgb_noise(b, t));
        m!(format!("add-rgb-noise-x{}", t), move |i| { let mut j = i.clone(); j.add_rgb_noise(t); j }, move |b| ops::rgb_noise(b, t));
        m!(format!("gauss-noise-x{}", t), move |i| i.gaussian_noise(t), move |b| ops::gaussian_noise(b, t));
        m!(format!("add-gauss-noise-x{}", t), move |i| { let mut j = i.clone(); j.add_gaussian_noise(t); j }, move |b| ops::gaussian_noise(b, t));
    }
    for x in &mut v[start..] {
        x.rnd = true;
    }
    v
}

/// A script long enough for every image used here; never exhausted, so the real generator stays out.
fn script_on() {
    script_for(0)
}
fn script_for(pixels: usize) {
    script::set((0..4096 + pixels as u64 * 16).map(|i| (i + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15)).collect());
}

fn images() -> Vec<(String, PixelBuffer<Rgb>)> {
    let mut v = vec![];
    for (w, h) in [(0u32, 0u32), (1, 1), (1, 4), (5, 1), (4, 3), (3, 4), (7, 6)] {
        v.push((format!("d{}x{}", w, h), distinct_buf(w, h)));
    }
    v.push(("opaque".into(), distinct_buf(4, 3).map_colors(|c| c.with_alpha(1.0))));
    v.push(("gray".into(), distinct_buf(3, 3).map_colors(|c| Rgb { data: [c.data[0], c.data[0], c.data[0], 1.0] })));
    v.push(("black".into(), buf(3, 2, |_, _| Rgb::BLACK)));
    v.push(("white".into(), buf(5, 4, |x, y| [Rgb::WHITE, Rgb::WHITE, Rgb { data: [0.9, 0.9, 0.9, 1.0] }, Rgb::WHITE, Rgb::BLACK, Rgb::WHITE, Rgb::NONE][((x + 3 * y) % 7) as usize])));
    v.push(("photo".into(), photo(8, 5)));
    v.push(("wide".into(), distinct_buf(300, 2)));
    v.push(("tall".into(), distinct_buf2(2, 300, 3)));
    v
}

fn same_or_nan(a: &PixelBuffer<Rgb>, b: &PixelBuffer<Rgb>) -> Res {
    ensure!((a.width(), a.height()) == (b.width(), b.height()) && a.data().len() == b.data().len(), "{}x{} instead of {}x{}", a.width(), a.height(), b.width(), b.height());
    for (i, (p, q)) in a.data().iter().zip(b.data()).enumerate() {
        let ok = p.data.iter().zip(q.data.iter()).all(|(x, y)| (x - y).abs() <= 1e-5 || (x.is_nan() && y.is_nan()) || x == y);
        ensure!(ok, "pixel {} is {:?} instead of {:?}", i, p.data, q.data);
    }
    Ok(())
}

fn method_case(c: &Case, m: &M, im: &PixelBuffer<Rgb>) -> Res {
    let img = Image::new_from_buffer(im.clone());
    let before = bits(im);
    let want = { script_for(im.data().len()); guard(|| (m.bf)(im)) };
    script_for(im.data().len());
    let got = guard(|| (m.im)(&img));
    script::clear();
    let want = want.map_err(|e| format!("the operation panicked: {}", e))?;
    let got = got.map_err(|e| format!("the method panicked: {}", e))?;
    same_or_nan(got.buffer(), &want)?;
    ensure!(got.data().len() as u64 == got.width() as u64 * got.height() as u64, "inconsistent size");
    ensure!(bits(img.buffer()) == before, "the receiver changed");
    c.obs(bits(got.buffer()) != before, &bits(got.buffer()));
    Ok(())
}

/// The percentage rule, from exact arithmetic; near a tie both neighbours are accepted.
fn pct_case(c: &Case, w: u32, h: u32, p: f32, f: FilterMode) -> Res {
    let img = Image::new_with_color(w, h, Rgb::RED);
    let r = img.resize_pct(p, f);
    for (a, got) in [(w, r.width()), (h, r.height())] {
        let e = a as f64 * p as f64 / 100.0;
        let ok = [e - 1e-4, e, e + 1e-4].iter().any(|v| v.round().max(1.0) == got as f64);
        ensure!(ok, "{} of {} pixels gave {}", p, a, got);
    }
    c.obs(true, &(r.width(), r.height()));
    Ok(())
}

fn access_case(c: &Case, im: &PixelBuffer<Rgb>) -> Res {
    let img = Image::new_from_buffer(im.clone());
    let (w, h) = (im.width(), im.height());
    ensure!((img.width(), img.height()) == (w, h) && img.is_empty() == im.is_empty(), "size");
    ensure!(img.has_transparency() == im.data().iter().any(|c| c.data[3] < 1.0), "has_transparency");
    ensure!(img.is_grayscale() == im.is_grayscale(), "is_grayscale");
    same(img.buffer(), im)?;
    for y in -2..h as i32 + 2 {
        for x in -2..w as i32 + 2 {
            let inside = x >= 0 && y >= 0 && x < w as i32 && y < h as i32;
            ensure!(img.is_in_image(x, y) == inside, "is_in_image({}, {})", x, y);
            let o = img.get_pixel_optional(x, y);
            ensure!(o.is_some() == inside, "get_pixel_optional({}, {})", x, y);
            if w > 0 && h > 0 {
                let at = |x: i32, y: i32| &im.data()[(x.clamp(0, w as i32 - 1) + y.clamp(0, h as i32 - 1) * w as i32) as usize];
                ensure!(same_px(img.get_pixel_clamped(x, y), at(x, y)), "get_pixel_clamped({}, {})", x, y);
                if inside {
                    ensure!(same_px(o.unwrap(), at(x, y)) && same_px(img.get_pixel(x as u32, y as u32), at(x, y)), "get_pixel({}, {})", x, y);
                    let mut j = img.clone();
                    let n = Rgb { data: [0.9, 0.8, 0.1, 0.2] };
                    j.put_pixel(x as u32, y as u32, n);
                    ensure!(same_px(j.get_pixel(x as u32, y as u32), &n), "put_pixel({}, {})", x, y);
                    let diff = j.data().iter().zip(im.data()).filter(|(a, b)| !same_px(a, b)).count();
                    ensure!(diff == 1, "put_pixel({}, {}) changed {} pixels", x, y, diff);
                }
            }
            c.obs(inside, &(x, y));
        }
    }
    same(img.buffer(), im)?;
    // constructors
    let col = Rgb { data: [0.1, 0.2, 0.3, 0.4] };
    let d = Image::new(w, h);
    ensure!((d.width(), d.height()) == (w, h) && d.data().iter().all(|c| same_px(c, &Rgb::default())), "new");
    let d = Image::new_with_color(w, h, col);
    ensure!((d.width(), d.height()) == (w, h) && d.data().iter().all(|c| same_px(c, &col)) && d.data().len() == (w * h) as usize, "new_with_color");
    same(Image::new_from_raw(w, h, im.data().to_vec()).buffer(), im)?;
    for meta in [Image::new(1, 1), Image::new_with_color(9, 2, col)] {
        same(Image::new_from_raw_with_meta(&meta, w, h, im.data().to_vec()).buffer(), im)?;
        same(Image::new_from_buffer_with_meta(&meta, im.clone()).buffer(), im)?;
    }
    // failing closures
    let n = im.data().len();
    for k in 0..=n {
        let cnt = Cell::new(0usize);
        let step = |c: &Rgb| {
            let i = cnt.get();
            cnt.set(i + 1);
            if i == k { Err(i) } else { Ok(Rgb { data: [c.data[1], c.data[2], c.data[0], c.data[3]] }) }
        };
        let want_im = |upto: usize| PixelBuffer::new_from_raw(w, h, im.data().iter().enumerate().map(|(i, c)| if i < upto { Rgb { data: [c.data[1], c.data[2], c.data[0], c.data[3]] } } else { *c }).collect());
        let chk = |r: Result<(), usize>, what: &str| -> Res {
            ensure!(r == if k < n { Err(k) } else { Ok(()) }, "{} failing at {} gave {:?}", what, k, r);
            ensure!(cnt.get() == (k + 1).min(n), "{} called {} times", what, cnt.get());
            cnt.set(0);
            Ok(())
        };
        let r = img.try_map_colors(step);
        if let Ok(r) = &r { same(r.buffer(), &want_im(n))?; }
        chk(r.map(|_| ()), "try_map_colors")?;
        let r = img.try_map_colors_enumerated(|_, _, c| step(c));
        if let Ok(r) = &r { same(r.buffer(), &want_im(n))?; }
        chk(r.map(|_| ()), "try_map_colors_enumerated")?;
        let mut j = img.clone();
        chk(j.try_mod_colors(step), "try_mod_colors")?;
        same(j.buffer(), &want_im(k))?;
        let mut j = img.clone();
        chk(j.try_mod_colors_enumerated(|_, _, c| step(c)), "try_mod_colors_enumerated")?;
        same(j.buffer(), &want_im(k))?;
        if w > 0 && h > 0 {
            chk(Image::try_compose([&img], col, |_, _, [c]| step(&c)).map(|_| ()), "try_compose")?;
            chk(Image::try_compose_slice(&[&img], col, |_, _, c| step(&c[0])).map(|_| ()), "try_compose_slice")?;
        }
    }
    same(img.buffer(), im)
}

fn file_case(c: &Case, name: &str, f: &EncodingFormat, im: &PixelBuffer<Rgb>) -> Res {
    let img = Image::new_from_buffer(im.clone());
    let mut want = vec![];
    let e = d10_codecs::encode(&mut want, im, f.clone());
    ensure!(e.is_ok(), "encoding failed: {:?}", e.err());
    // a writer that is full after n bytes
    struct Full(Vec<u8>, usize);
    impl std::io::Write for Full {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            if self.0.len() + b.len() > self.1 {
                return Err(std::io::Error::new(std::io::ErrorKind::BrokenPipe, "full"));
            }
            self.0.extend_from_slice(b);
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    for n in 0..=want.len() {
        let mut w = Full(vec![], n);
        let r = img.save_to_writer(&mut w, f.clone());
        ensure!(r.is_ok() == (n == want.len()), "a writer with room for {} of {} bytes: save_to_writer says {:?}", n, want.len(), r.is_ok());
        ensure!(r.is_err() || w.0 == want, "save_to_writer delivers other bytes");
        ensure!(!matches!(&r, Err(e) if !matches!(e, d10::EncodingError::IoError(_))), "{:?}", r.err());
    }
    let b = img.save_to_buffer(f.clone()).map_err(|e| e.to_string())?;
    ensure!(b == want, "save_to_buffer differs from the encoder");
    let mut w = vec![];
    img.save_to_writer(&mut w, f.clone()).map_err(|e| e.to_string())?;
    ensure!(w == want, "save_to_writer differs from the encoder");
    let dir = format!("{}/im-{}", scratch(), hash_of(&(name, bits(im))));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let p = format!("{}/a.dat", dir);
    img.save_with_format(&p, f.clone()).map_err(|e| e.to_string())?;
    ensure!(std::fs::read(&p).unwrap() == want, "save_with_format differs from the encoder");
    let dec = d10_codecs::decode_buffer(&want).map_err(|e| e.to_string())?.buffer;
    same(Image::open(&p).map_err(|e| e.to_string())?.buffer(), &dec)?;
    same(Image::read_from_buffer(&want).map_err(|e| e.to_string())?.buffer(), &dec)?;
    for ext in ["png", "jpg", "jpeg", "gif", "bmp", "ico", "webp", "PNG"] {
        let p = std::path::PathBuf::from(format!("{}/b.{}", dir, ext));
        img.save(&p).map_err(|e| e.to_string())?;
        let d = d10::EncodingFormat::from_path(&p).map_err(|e| e.to_string())?;
        let mut want = vec![];
        d10_codecs::encode(&mut want, im, d).map_err(|e| e.to_string())?;
        ensure!(std::fs::read(&p).unwrap() == want, "save as {} differs from the default of the extension", ext);
    }
    for bad in ["x", "x.tga", "png"] {
        let p = format!("{}/{}", dir, bad);
        ensure!(img.save(&p).is_err() && !std::path::Path::new(&p).exists(), "saved as {}", bad);
        ensure!(Image::open(&p).is_err(), "opened {}", bad);
    }
    let _ = std::fs::remove_dir_all(&dir);
    c.obs(true, &(name, want));
    same(img.buffer(), im)
}

/// Sequences of methods: an image carries nothing but its size and pixels.
fn chain_case(c: &Case, ms: &[M], a: usize, picks: &[usize], depth: usize, im: &PixelBuffer<Rgb>) -> Res {
    let start = Image::new_from_buffer(im.clone());
    let mut stack: Vec<(Image, String, usize)> = vec![{
        script_on();
        ((ms[a].im)(&start), ms[a].name.clone(), 1)
    }];
    while let Some((img, path, d)) = stack.pop() {
        c.states(1);
        for &k in picks {
            if img.width() as u64 * img.height() as u64 > 400 {
                continue;
            }
            let rebuilt = Image::new_from_raw(img.width(), img.height(), img.data().to_vec());
            script_on();
            let x = guard(|| (ms[k].im)(&img));
            script_on();
            let y = guard(|| (ms[k].im)(&rebuilt));
            script::clear();
            let p = format!("{},{}", path, ms[k].name);
            let (x, y) = match (x, y) {
                (Ok(x), Ok(y)) => (x, y),
                (x, y) => return Err(format!("after {}: {:?} / {:?}", p, x.err(), y.err())),
            };
            same_or_nan(x.buffer(), y.buffer()).map_err(|e| format!("after {}: {}", p, e))?;
            c.transitions(1);
            c.obs(true, &bits(x.buffer()));
            if d + 1 < depth {
                stack.push((x, p, d + 1));
            }
        }
    }
    Ok(())
}

pub fn run23(ctx: &'static Ctx) {
    let ims = images();
    let ms = methods();
    let xs = extreme_methods();
    let mut jobs: Vec<Box<dyn Fn() + Sync>> = vec![];
    let (msr, imr) = (&ms, &ims);
    for (mi, m) in ms.iter().enumerate() {
        jobs.push(Box::new(move || {
            for (n, im) in imr {
                ctx.case(&format!("method/{}/{}", m.name, n), |c| method_case(c, m, im));
            }
            // every shape for the cheap ones
            for (w, h) in crate::p_image::shapes(ctx.pick(5, 8)) {
                ctx.case(&format!("method/{}/s{}x{}", m.name, w, h), |c| method_case(c, m, &distinct_buf2(w, h, 9)));
            }
            let depth = 3;
            let picks: Vec<usize> = (0..msr.len()).filter(|k| !ctx.quick() || k % 5 == mi % 5).collect();
            ctx.case(&format!("chain/{}/{}", m.name, depth), |c| chain_case(c, msr, mi, &picks, depth, &imr[6].1));
        }));
    }
    for m in &xs {
        jobs.push(Box::new(move || {
            for (n, im) in imr {
                ctx.case(&format!("method/{}/{}", m.name, n), |c| method_case(c, m, im));
            }
            for (w, h) in shapes(ctx.pick(3, 6)) {
                ctx.case(&format!("method/{}/s{}x{}", m.name, w, h), |c| method_case(c, m, &distinct_buf2(w, h, 9)));
            }
        }));
    }
    for (n, im) in ims.iter() {
        jobs.push(Box::new(move || ctx.case(&format!("access/{}", n), |c| access_case(c, im))));
    }
    for side in 1..=ctx.pick(30u32, 100) {
        jobs.push(Box::new(move || {
            for (f, n) in FILTERS {
                for p in [0.0f32, 0.4, 1.0, 10.0, 12.5, 24.9, 25.0, 33.3, 49.9, 50.0, 50.1, 66.7, 75.0, 99.0, 100.0, 101.0, 150.0, 199.0, 200.0, 250.0] {
                    ctx.case(&format!("pct/{}/{}/{}", side, p, n), |c| {
                        pct_case(c, side, 3, p, f)?;
                        pct_case(c, 2, side, p, f)
                    });
                }
            }
        }));
    }
    for side in 1..=ctx.pick(4u32, 9) {
        jobs.push(Box::new(move || {
            for (f, n) in FILTERS {
                for p in [300.0f32, 333.0, 512.5, 999.0, 999.9, 1000.0, 1010.0, 1050.0, 1233.4, 2560.0, 6543.2] {
                    if p > 2000.0 && (ctx.quick() && side > 2 || n == "lanczos3") {
                        continue;
                    }
                    ctx.case(&format!("pct/{}/{}/{}", side, p, n), |c| pct_case(c, side, 3, p, f));
                }
            }
        }));
    }
    for (n, f) in if ctx.quick() { formats_small() } else { formats_all() } {
        jobs.push(Box::new(move || {
            for (k, im) in [photo(5, 4), distinct_buf(1, 3)].iter().enumerate() {
                ctx.case(&format!("file/{}/{}", n, k), |c| file_case(c, &n, &f, im));
            }
        }));
    }
    par(&jobs, |j| j());
    ctx.note("methods", ms.len() + xs.len());
}

pub fn shapes(n: u32) -> Vec<(u32, u32)> {
    (1..=n).flat_map(|w| (1..=n).map(move |h| (w, h))).collect()
}

// ---------------------------------------------------------------------------------------- C24

struct Item {
    name: String,
    run: Box<dyn Fn() -> u64 + Sync + Send>,
}

fn base(k: usize) -> PixelBuffer<Rgb> {
    match k {
        0 => distinct_buf(4, 3),
        1 => distinct_buf2(3, 4, 31),
        2 => distinct_buf2(4, 3, 77),
        _ => distinct_buf2(9, 7, 5),
    }
}

thread_local! {
    static SLOTS: RefCell<HashMap<(u32, u32), PixelBuffer<Rgb>>> = RefCell::new(HashMap::new());
}

/// Calls `f` with the pixels of `b` written in place into this thread's one buffer of that size: calls
/// on images of equal size see the same address with other contents.
fn in_slot<R>(b: &PixelBuffer<Rgb>, f: impl FnOnce(&PixelBuffer<Rgb>) -> R) -> R {
    let key = (b.width(), b.height());
    let mut s = SLOTS.with(|m| m.borrow_mut().remove(&key)).unwrap_or_else(|| b.clone());
    s.data_mut().copy_from_slice(b.data());
    let r = f(&s);
    SLOTS.with(|m| m.borrow_mut().insert(key, s));
    r
}

/// The calls, and the families: index ranges of calls of one kind with a full parameter grid.
fn alphabet() -> &'static Vec<Item> {
    &alphabet_and_families().0
}

type Alphabet = (Vec<Item>, Vec<(String, std::ops::Range<usize>)>);
fn alphabet_and_families() -> &'static Alphabet {
    static A: OnceLock<Alphabet> = OnceLock::new();
    A.get_or_init(|| {
        let mut v = main_alphabet();
        let mut f = vec![];
        families(&mut v, &mut f);
        near_families(&mut v, &mut f);
        (v, f)
    })
}

type Op = Box<dyn Fn(&PixelBuffer<Rgb>) -> PixelBuffer<Rgb> + Sync + Send>;
type Fams = Vec<(String, std::ops::Range<usize>)>;

/// A family: every operation on every image.
fn push_group(v: &mut Vec<Item>, fam: &mut Fams, name: &str, ims: Vec<PixelBuffer<Rgb>>, ops: Vec<(String, Op)>) {
    let start = v.len();
    for (n, op) in ops {
        let op = std::sync::Arc::new(op);
        for (k, b) in ims.iter().enumerate() {
            let (b, op) = (b.clone(), op.clone());
            v.push(Item {
                name: format!("{}-{}#{}", name, n, k),
                run: Box::new(move || {
                    script_on();
                    let r = in_slot(&b, |s| op(s));
                    script::clear();
                    hash_of(&bits(&r))
                }),
            });
        }
    }
    fam.push((name.to_string(), start..v.len()));
}

fn families(v: &mut Vec<Item>, fam: &mut Vec<(String, std::ops::Range<usize>)>) {
    let mut group = |name: &str, ims: Vec<PixelBuffer<Rgb>>, ops: Vec<(String, Op)>| push_group(v, fam, name, ims, ops);
    let two = || vec![distinct_buf2(9, 7, 5), distinct_buf2(9, 7, 61)];
    let one = || vec![distinct_buf2(9, 7, 5)];
    let mut l: Vec<(String, Op)> = vec![];
    for r in 0..=9u32 {
        for s in [None, Some(0.0f32), Some(0.5), Some(1.5), Some(4.0)] {
            l.push((format!("{}-{:?}", r, s), Box::new(move |b| ops::gaussian_blur(b, r, s))));
        }
    }
    for r in [1u32, 3, 4, 5] {
        for s in [None, Some(0.7f32), Some(3.0)] {
            for f in [0.5f32, 2.0] {
                l.push((format!("unsharp{}-{}-{:?}", r, f, s), Box::new(move |b| ops::unsharp(b, r, f, s))));
            }
        }
    }
    group("blur", one(), std::mem::take(&mut l));
    for n in [1u32, 3, 5, 7, 9, 11] {
        for s in [0.3f32, 0.6, 1.4, 5.0] {
            l.push((format!("{}-{}", n, s), Box::new(move |b| b.apply_kernel_dyn(&d10::KernelDyn::new_gaussian(n, s)))));
        }
    }
    group("kernel", two(), std::mem::take(&mut l));
    for (w, h) in [(1u32, 1u32), (2, 1), (1, 2), (3, 1), (2, 2), (4, 1)] {
        for off in [0u32, 1, 17, 50] {
            l.push((format!("{}x{}-{}", w, h, off), Box::new(move |b| ops::apply_palette(b, &distinct_buf2(w, h, off)))));
        }
    }
    l.push(("hsl".into(), Box::new(|b| ops::apply_palette(b, &distinct_buf2(2, 2, 17).to_hsl()))));
    l.push(("rev".into(), Box::new(|b| ops::apply_palette(b, &ops::rotate180(&distinct_buf2(2, 2, 17))))));
    group("palette", two(), std::mem::take(&mut l));
    for (f, n) in FILTERS {
        for w in [1u32, 2, 5, 9, 12] {
            for h in [1u32, 3, 7, 12] {
                l.push((format!("{}x{}{}", w, h, n), Box::new(move |b| ops::resize(b, w, h, f))));
            }
        }
    }
    group("resize", vec![distinct_buf2(9, 7, 5), distinct_buf2(5, 4, 3)], std::mem::take(&mut l));
    for (f, n) in FILTERS {
        for a in [-71.0f32, -9.0, 0.0, 3.0, 30.0, 90.0, 133.0, 180.0, 271.5] {
            for (bg, m) in [(Rgb::NONE, "none"), (Rgb::RED, "red")] {
                l.push((format!("{}{}{}", a, n, m), Box::new(move |b| ops::rotate(b, a, bg, f))));
            }
        }
    }
    group("rotate", one(), std::mem::take(&mut l));
    l.push(("fh".into(), Box::new(|b| ops::flip_horizontal(b))));
    l.push(("fv".into(), Box::new(|b| ops::flip_vertical(b))));
    l.push(("r90".into(), Box::new(|b| ops::rotate90(b))));
    l.push(("r180".into(), Box::new(|b| ops::rotate180(b))));
    l.push(("r270".into(), Box::new(|b| ops::rotate270(b))));
    for (x, y, w, h) in [(0u32, 0u32, 4u32, 3u32), (1, 0, 4, 3), (0, 1, 3, 4), (4, 2, 9, 9), (2, 5, 1, 1), (9, 0, 1, 1)] {
        l.push((format!("crop{}-{}-{}-{}", x, y, w, h), Box::new(move |b| ops::crop(b, x, y, w, h))));
    }
    for o in 0..=9u32 {
        l.push((format!("interlace{}", o), Box::new(move |b| ops::interlace(b, o))));
    }
    group("geometry", vec![distinct_buf2(9, 7, 5), distinct_buf2(9, 7, 61), distinct_buf2(7, 9, 5)], std::mem::take(&mut l));
    for t in [0.0f32, 1.0, 30.0, 100.0, 200.0, 499.0] {
        for mo in ["rgb", "srgb", "hsv", "hsl", "lch"] {
            l.push((format!("balance-{}-{}", mo, t), Box::new(move |b| ops::balance(b, mo.parse().unwrap(), t))));
        }
        l.push((format!("stretch{}", t), Box::new(move |b| ops::stretch_contrast(b, t))));
    }
    for mo in ["rgb", "srgb", "saturation", "lightness", "saturation_lightness"] {
        l.push((format!("equalize-{}", mo), Box::new(move |b| ops::equalize(b, mo.parse::<EqualizeMode>().unwrap()))));
    }
    for o in [0.0f32, 0.1, 0.4, -0.3] {
        for mo in ["hsl", "hsv", "lch"] {
            l.push((format!("optsat-{}-{}", mo, o), Box::new(move |b| ops::optimize_saturation(b, o, mo.parse().unwrap()))));
        }
    }
    for f in [0.0f32, 0.4, 1.0, 1.5] {
        l.push((format!("optlight{}", f), Box::new(move |b| ops::optimize_lightness(b, f))));
        for t in [0.0f32, 0.3, -0.2] {
            l.push((format!("opttemp{}-{}", f, t), Box::new(move |b| ops::optimize_color_temperature(b, f, t))));
        }
    }
    let tone = || vec![distinct_buf2(9, 7, 5), distinct_buf2(9, 7, 61), distinct_buf2(9, 7, 5).map_colors(|c| Rgb { data: [c.data[0] * 0.5 + 0.25, c.data[0] * 0.5 + 0.25, c.data[1], 1.0] })];
    group("tone", tone(), std::mem::take(&mut l));
    for a in [1500.0f32, 4000.0, 6500.0, 6600.0, 12000.0] {
        for z in [2000.0f32, 6500.0, 9000.0] {
            for t in [0.0f32, 0.2, -0.2] {
                l.push((format!("{}-{}-{}", a, z, t), Box::new(move |b| ops::change_color_temperature(b, a, z, t))));
            }
        }
    }
    group("temperature", one(), std::mem::take(&mut l));
    for op in BLENDS {
        for t in [0.0f32, 0.25, 1.0] {
            for (k, (w, h, off)) in [(9u32, 7u32, 40u32), (9, 7, 41), (4, 12, 40)].into_iter().enumerate() {
                l.push((format!("{}-{}-{}", op, t, k), Box::new(move |b| ops::blend_image(b, &distinct_buf2(w, h, off), op.parse::<BlendOp>().unwrap(), t))));
            }
        }
    }
    group("blend", one(), std::mem::take(&mut l));
    for q in [0u8, 1, 30, 60, 85, 100] {
        for p in [false, true] {
            l.push((format!("jpeg{}{}", q, p), Box::new(move |b| ops::jpeg_quality(b, q, p))));
        }
    }
    for (d, n) in [(DrawingMode::Gray, "gray"), (DrawingMode::Colored, "colored"), (DrawingMode::ReducedColors, "reduced")] {
        for r in 1..=4u32 {
            l.push((format!("drawing{}-{}", r, n), Box::new(move |b| ops::drawing(b, r, d))));
        }
    }
    for t in [0.0f32, 0.2, 0.5] {
        for a in [1u8, 2, 4, 8] {
            l.push((format!("despeckle{}-{}", t, a), Box::new(move |b| ops::despeckle(b, t, a))));
        }
    }
    for r in 0..=4usize {
        for c in [false, true] {
            l.push((format!("snn{}{}", r, c), Box::new(move |b| ops::symmetric_nearest_neighbor(b, r, c))));
        }
    }
    l.push(("sobel".into(), Box::new(|b| ops::edge_detection(b, EdgeDetection::Sobel))));
    l.push(("laplace".into(), Box::new(|b| ops::edge_detection(b, EdgeDetection::Laplace))));
    group("style", two(), std::mem::take(&mut l));
    for t in [0.0f32, 0.1, 0.5, 1.0] {
        l.push((format!("random{}", t), Box::new(move |b| ops::random_noise(b, t))));
        l.push((format!("salt{}", t), Box::new(move |b| ops::salt_n_pepper_noise(b, t))));
        l.push((format!("rgb{}", t), Box::new(move |b| ops::rgb_noise(b, t))));
        l.push((format!("gauss{}", t), Box::new(move |b| ops::gaussian_noise(b, t))));
    }
    group("noise", two(), std::mem::take(&mut l));
    macro_rules! col {
        ($n:expr, $f:expr) => {
            l.push(($n.to_string(), Box::new(move |b| b.map_colors($f))))
        };
    }
    for x in [-0.6f32, 0.0, 0.3, 1.0, 1.7] {
        col!(format!("gamma{}", x), |c: &Rgb| c.with_gamma(x));
        col!(format!("gamma-opt{}", x), |c: &Rgb| c.with_gamma_opt(x));
        col!(format!("brightness{}", x), |c: &Rgb| c.with_brightness(x));
        col!(format!("saturation{}", x), |c: &Rgb| c.with_saturation(x));
        col!(format!("stretch-saturation{}", x), |c: &Rgb| c.stretch_saturation(x));
        col!(format!("gamma-saturation{}", x), |c: &Rgb| c.with_gamma_saturation(x));
        col!(format!("lightness{}", x), |c: &Rgb| c.with_lightness(x));
        col!(format!("hue{}", x), |c: &Rgb| c.with_hue_rotate(x));
        col!(format!("contrast{}", x), |c: &Rgb| c.with_contrast(x));
        col!(format!("vibrance{}", x), |c: &Rgb| c.with_vibrance(x));
        for y in [0.2f32, 0.9] {
            col!(format!("bc{}-{}", x, y), |c: &Rgb| c.with_brightness_contrast(x, y));
            for z in [0.5f32, 2.0] {
                col!(format!("level{}-{}-{}", x, y, z), |c: &Rgb| c.with_level(x, y, z));
                col!(format!("modulate{}-{}-{}", x, y, z), |c: &Rgb| c.modulate(x, y, z));
            }
        }
        col!(format!("blend{}", x), |c: &Rgb| c.alpha_blend(Rgb { data: [0.5, x, 0.25, x.clamp(0.0, 1.0)] }));
    }
    for (i, n) in [(Intensity::Average, "avg"), (Intensity::Rec709Luma, "709"), (Intensity::Rec601Luma, "601"), (Intensity::Brightness, "bri"), (Intensity::Lightness, "lig"), (Intensity::Saturation, "sat"), (Intensity::Red, "red"), (Intensity::Green, "green"), (Intensity::Blue, "blue")] {
        l.push((format!("gray-{}", n), Box::new(move |b| b.map_colors(|c| c.to_gray_with_intensity(i.clone())))));
    }
    col!("sepia", |c: &Rgb| c.with_sepia());
    group("color", two(), std::mem::take(&mut l));
    // codecs: all option values on two images of one size, files of every kind, damaged ones before larger ones
    let start = v.len();
    for (k, b) in two().into_iter().enumerate() {
        for (n, f) in formats_small() {
            let b = b.clone();
            v.push(Item {
                name: format!("encode-{}#{}", n, k),
                run: Box::new(move || {
                    let mut o = vec![];
                    in_slot(&b, |s| d10_codecs::encode(&mut o, s, f.clone())).unwrap();
                    hash_of(&o)
                }),
            });
        }
    }
    for (n, f) in formats_small() {
        for (k, b) in [photo(64, 48), distinct_buf2(64, 48, 3)].into_iter().enumerate() {
            let mut cuts = vec!["whole"];
            if k == 0 && ["png-rgba8", "png-l8", "png-l16", "jpeg", "jpeg-prog", "jpeg-gray", "gif", "bmp-rgba8", "ico-rgba8", "webp-default"].contains(&n.as_str()) {
                cuts.extend(["1", "4", "7", "flipped"]);
            }
            for cn in cuts {
                let e = hist_file(&format!("{}-{}#{}", n, cn, k), || {
                    let mut d = encoded(&b, &f);
                    match cn.parse::<usize>() {
                        Ok(q) => d.truncate(d.len() * q / 8),
                        _ if cn == "flipped" => (d.len() / 2..d.len() * 3 / 4).for_each(|i| d[i] ^= 0x5A),
                        _ => {}
                    }
                    d
                });
                v.push(Item {
                    name: format!("decode-{}-{}#{}", n, cn, k),
                    run: Box::new(move || match guard(|| d10_codecs::decode_buffer(&std::fs::read(&e).unwrap())) {
                        Ok(Ok(r)) => hash_of(&bits(&r.buffer)),
                        Ok(Err(_)) => 2,
                        Err(_) => 1,
                    }),
                });
            }
        }
    }
    fam.push(("codec".into(), start..v.len()));
}

/// Families of calls whose arguments are almost the same.
fn near_families(v: &mut Vec<Item>, fam: &mut Fams) {
    let mut group = |name: &str, ims: Vec<PixelBuffer<Rgb>>, ops: Vec<(String, Op)>| push_group(v, fam, name, ims, ops);
    let one = || vec![distinct_buf2(9, 7, 5)];
    // arguments that are almost the same: colours within the tolerance of equality, ...
    let mut near = vec![];
    for c in [[0.3f32, 0.6, 0.2, 0.8], [0.5, 0.5, 0.5, 1.0], [2e-4, 1e-4, 3e-4, 1.0]] {
        near.push(Rgb { data: c });
        for i in 0..4 {
            for d in [1e-6f32, 2e-5, 1.5e-4, 3e-3] {
                let mut e = c;
                e[i] += if i == 3 { -d } else { d };
                near.push(Rgb { data: e });
            }
        }
    }
    let near: Vec<PixelBuffer<Rgb>> = near.into_iter().map(|c| PixelBuffer::new_with_color(1, 1, c)).collect();
    macro_rules! one_color {
        ($n:expr, $f:expr) => {
            group(&format!("near-color-{}", $n), near.clone(), vec![("".to_string(), Box::new(move |b: &PixelBuffer<Rgb>| b.map_colors($f)) as Op)])
        };
    }
    one_color!("srgb", |c: &Rgb| Rgb { data: c.to_srgb().data });
    one_color!("from-srgb", |c: &Rgb| d10::Srgb { data: c.data }.to_rgb());
    one_color!("hsl", |c: &Rgb| Rgb { data: c.to_hsl().data });
    one_color!("from-hsl", |c: &Rgb| d10::Hsl { data: c.data }.to_rgb());
    one_color!("hsv", |c: &Rgb| Rgb { data: c.to_hsv().data });
    one_color!("from-hsv", |c: &Rgb| d10::Hsv { data: c.data }.to_rgb());
    one_color!("yuv", |c: &Rgb| Rgb { data: c.to_yuv().data });
    one_color!("from-yuv", |c: &Rgb| d10::Yuv { data: c.data }.to_rgb());
    one_color!("xyz", |c: &Rgb| Rgb { data: c.to_xyz().data });
    one_color!("from-xyz", |c: &Rgb| d10::Xyz { data: c.data }.to_rgb());
    one_color!("lab", |c: &Rgb| Rgb { data: c.to_lab::<d10::illuminant::D65, d10::observer::O2>().data });
    one_color!("from-lab", |c: &Rgb| d10::Lab::<d10::illuminant::D65, d10::observer::O2>::new_from_fn(|i| c.data[i]).to_rgb());
    one_color!("lch", |c: &Rgb| Rgb { data: c.to_lch::<d10::illuminant::D65, d10::observer::O2>().data });
    one_color!("gray", |c: &Rgb| c.to_gray());
    one_color!("gray-lightness", |c: &Rgb| c.to_gray_with_intensity(Intensity::Lightness));
    one_color!("gamma", |c: &Rgb| c.with_gamma(1.7));
    one_color!("level", |c: &Rgb| c.with_level(0.1, 0.9, 1.3));
    one_color!("saturation", |c: &Rgb| c.with_saturation(1.4));
    one_color!("lightness", |c: &Rgb| c.with_lightness(1.2));
    one_color!("hue", |c: &Rgb| c.with_hue_rotate(33.0));
    one_color!("vibrance", |c: &Rgb| c.with_vibrance(0.4));
    one_color!("modulate", |c: &Rgb| c.modulate(33.0, 1.2, 0.9));
    one_color!("contrast", |c: &Rgb| c.with_contrast(1.2));
    one_color!("sepia", |c: &Rgb| c.with_sepia());
    one_color!("difference", |c: &Rgb| c.difference(&Rgb::new(0.4, 0.4, 0.4)));
    for op in BLENDS {
        for first in [false, true] {
            let other = PixelBuffer::new_with_color(1, 1, Rgb { data: [0.6, 0.3, 0.1, 0.7] });
            let f: Op = Box::new(move |b| if first { ops::blend_image(b, &other, op.parse().unwrap(), 0.6) } else { ops::blend_image(&other, b, op.parse().unwrap(), 0.6) });
            group(&format!("near-color-{}{}", op, first), near.clone(), vec![("".to_string(), f)]);
        }
    }
    {
        let f: Op = Box::new(|b| ops::apply_palette(&distinct_buf2(9, 7, 5), b));
        group("near-color-palette", near.clone(), vec![("".to_string(), f)]);
        let f: Op = Box::new(|b| ops::rotate(&distinct_buf2(9, 7, 5), 30.0, b.data()[0], FilterMode::Bilinear));
        group("near-color-background", near.clone(), vec![("".to_string(), f)]);
    }
    // ... parameters that differ by little, ...
    type P = (&'static str, f32, fn(&PixelBuffer<Rgb>, f32) -> PixelBuffer<Rgb>);
    let params: Vec<P> = vec![
        ("blur", 1.3, |b, v| ops::gaussian_blur(b, 2, Some(v))),
        ("unsharp-sigma", 1.3, |b, v| ops::unsharp(b, 2, 0.7, Some(v))),
        ("unsharp-factor", 0.7, |b, v| ops::unsharp(b, 2, v, None)),
        ("kernel", 0.8, |b, v| b.apply_kernel_dyn(&d10::KernelDyn::new_gaussian(5, v))),
        ("static-kernel", 0.8, |b, v| b.apply_kernel(&d10::Kernel::<3>::new([[v, 0.0, 0.1], [0.2, 0.1, 0.0], [0.0, 0.1, 0.05]]))),
        ("rotate-bilinear", 12.0, |b, v| ops::rotate(b, v, Rgb::NONE, FilterMode::Bilinear)),
        ("rotate-bicubic", 12.0, |b, v| ops::rotate(b, v, Rgb::NONE, FilterMode::Bicubic)),
        ("rotate-lanczos", 12.0, |b, v| ops::rotate(b, v, Rgb::NONE, FilterMode::Lanczos3)),
        ("rotate-zero", 0.0, |b, v| ops::rotate(b, v, Rgb::NONE, FilterMode::Bilinear)),
        ("balance", 0.5, |b, v| ops::balance(b, "rgb".parse().unwrap(), v)),
        ("stretch", 0.5, |b, v| ops::stretch_contrast(b, v)),
        ("optsat", 0.3, |b, v| ops::optimize_saturation(b, v, "hsl".parse().unwrap())),
        ("optlight", 0.3, |b, v| ops::optimize_lightness(b, v)),
        ("opttemp", 0.6, |b, v| ops::optimize_color_temperature(b, v, 0.1)),
        ("opttemp-tint", 0.3, |b, v| ops::optimize_color_temperature(b, 0.6, v)),
        ("temp-from", 4321.0, |b, v| ops::change_color_temperature(b, v * 1000.0 - 4316679.0, 7000.0, 0.0)),
        ("temp-tint", 0.3, |b, v| ops::change_color_temperature(b, 4000.0, 7000.0, v)),
        ("despeckle", 0.3, |b, v| ops::despeckle(b, v, 4)),
        ("random", 0.3, |b, v| ops::random_noise(b, v)),
        ("salt", 0.3, |b, v| ops::salt_n_pepper_noise(b, v)),
        ("rgbnoise", 0.3, |b, v| ops::rgb_noise(b, v)),
        ("gaussnoise", 0.3, |b, v| ops::gaussian_noise(b, v)),
        ("gamma", 1.5, |b, v| b.map_colors(|c| c.with_gamma(v))),
        ("brightness", 0.2, |b, v| b.map_colors(|c| c.with_brightness(v))),
        ("contrast", 0.7, |b, v| b.map_colors(|c| c.with_contrast(v))),
        ("saturation", 0.7, |b, v| b.map_colors(|c| c.with_saturation(v))),
        ("lightness", 0.7, |b, v| b.map_colors(|c| c.with_lightness(v))),
        ("hue", 40.0, |b, v| b.map_colors(|c| c.with_hue_rotate(v))),
        ("vibrance", 0.4, |b, v| b.map_colors(|c| c.with_vibrance(v))),
        ("level-black", 0.1, |b, v| b.map_colors(|c| c.with_level(v, 0.9, 1.2))),
        ("level-white", 0.7, |b, v| b.map_colors(|c| c.with_level(0.1, v, 1.2))),
        ("level-gamma", 1.3, |b, v| b.map_colors(|c| c.with_level(0.1, 0.9, v))),
    ];
    const STEPS: [f32; 9] = [0.0, 1e-6, 2e-5, 4e-4, 4e-3, 0.04, 0.4, -2e-5, -0.4];
    for (n, v, f) in params {
        let l: Vec<(String, Op)> = STEPS.iter().map(|d| (format!("{}", d), Box::new(move |b: &PixelBuffer<Rgb>| f(b, v + d)) as Op)).collect();
        group(&format!("near-param-{}", n), one(), l);
    }
    {
        // both temperatures of a call, each of them close to either of the call before
        let temps = [4321.0f32, 4322.0, 4320.0, 4324.0, 4329.0, 4420.0, 7000.0, 7001.0, 12000.0, 999.0];
        let l: Vec<(String, Op)> = temps.into_iter().flat_map(|x| temps.into_iter().map(move |y| (format!("{}-{}", x, y), Box::new(move |b: &PixelBuffer<Rgb>| ops::change_color_temperature(b, x, y, 0.0)) as Op))).collect();
        group("near-param-temps", one(), l);
        // two parameters of the same kind of a call
        let v = [0.1f32, 0.1004, 0.11, 0.3, 0.9, 0.8996];
        let l: Vec<(String, Op)> = v.into_iter().flat_map(|x| v.into_iter().map(move |y| (format!("{}-{}", x, y), Box::new(move |b: &PixelBuffer<Rgb>| b.map_colors(|c| c.with_level(x, y, 1.1))) as Op))).collect();
        group("near-param-levels", one(), l);
        let v = [0.9f32, 0.9004, 1.0, 1.1, 1.5, -0.3];
        let l: Vec<(String, Op)> = v.into_iter().flat_map(|x| v.into_iter().map(move |y| (format!("{}-{}", x, y), Box::new(move |b: &PixelBuffer<Rgb>| b.map_colors(|c| c.modulate(x * 60.0, y, x))) as Op))).collect();
        group("near-param-modulate", one(), l);
    }
    for op in BLENDS {
        let l: Vec<(String, Op)> = STEPS.iter().map(|d| (format!("{}", d), Box::new(move |b: &PixelBuffer<Rgb>| ops::blend_image(b, &distinct_buf2(9, 7, 40), op.parse().unwrap(), 0.5 + d)) as Op)).collect();
        group(&format!("near-param-{}", op), one(), l);
    }
    // ... and images that differ in one pixel, in its alpha, in the order of the pixels or in the shape only
    let mut similar = vec![];
    {
        let b = distinct_buf2(9, 7, 5);
        let edit = |i: usize, k: usize, d: f32| {
            let mut v = b.data().to_vec();
            v[i].data[k] = if v[i].data[k] > 0.5 { v[i].data[k] - d } else { v[i].data[k] + d };
            PixelBuffer::new_from_raw(9, 7, v)
        };
        similar.push(b.clone());
        for i in [0usize, 1, 31, 61, 62] {
            similar.push(edit(i, i % 3, 0.3));
            similar.push(edit(i, 3, 0.3));
        }
        similar.push(edit(31, 0, 2e-5));
        similar.push(edit(40, 1, 1e-3));
        let mut v = b.data().to_vec();
        v.swap(5, 50);
        similar.push(PixelBuffer::new_from_raw(9, 7, v));
        similar.push(ops::rotate180(&b));
        for (w, h) in [(7u32, 9u32), (21, 3), (3, 21), (63, 1), (1, 63)] {
            similar.push(PixelBuffer::new_from_raw(w, h, b.data().to_vec()));
        }
    }
    let whole: Vec<(&str, fn(&PixelBuffer<Rgb>) -> PixelBuffer<Rgb>)> = vec![
        ("blur", |b| ops::gaussian_blur(b, 2, None)),
        ("unsharp", |b| ops::unsharp(b, 2, 0.7, None)),
        ("kernel", |b| b.apply_kernel_dyn(&d10::KernelDyn::new_gaussian(5, 0.8))),
        ("rotate", |b| ops::rotate(b, 30.0, Rgb::RED, FilterMode::Bicubic)),
        ("rotate90", |b| ops::rotate90(b)),
        ("flip", |b| ops::flip_vertical(b)),
        ("crop", |b| ops::crop(b, 1, 0, 5, 5)),
        ("resize-nearest", |b| ops::resize(b, 5, 4, FilterMode::Nearest)),
        ("resize-bilinear", |b| ops::resize(b, 5, 4, FilterMode::Bilinear)),
        ("resize-bicubic", |b| ops::resize(b, 12, 9, FilterMode::Bicubic)),
        ("resize-lanczos", |b| ops::resize(b, 5, 4, FilterMode::Lanczos3)),
        ("resize-auto", |b| ops::resize(b, 5, 9, FilterMode::Auto)),
        ("balance", |b| ops::balance(b, "rgb".parse().unwrap(), 30.0)),
        ("balance-lch", |b| ops::balance(b, "lch".parse().unwrap(), 30.0)),
        ("equalize", |b| ops::equalize(b, "rgb".parse().unwrap())),
        ("equalize-light", |b| ops::equalize(b, "lightness".parse().unwrap())),
        ("stretch", |b| ops::stretch_contrast(b, 30.0)),
        ("optsat", |b| ops::optimize_saturation(b, 0.4, "hsl".parse().unwrap())),
        ("optlight", |b| ops::optimize_lightness(b, 0.4)),
        ("opttemp", |b| ops::optimize_color_temperature(b, 0.8, 0.1)),
        ("temp", |b| ops::change_color_temperature(b, 4000.0, 7000.0, 0.1)),
        ("despeckle", |b| ops::despeckle(b, 0.4, 5)),
        ("snn", |b| ops::symmetric_nearest_neighbor(b, 2, true)),
        ("sobel", |b| ops::edge_detection(b, EdgeDetection::Sobel)),
        ("drawing", |b| ops::drawing(b, 2, DrawingMode::Colored)),
        ("jpeg", |b| ops::jpeg_quality(b, 60, true)),
        ("interlace", |b| ops::interlace(b, 2)),
        ("palette", |b| ops::apply_palette(&distinct_buf2(4, 3, 9), b)),
        ("apply-palette", |b| ops::apply_palette(b, &distinct_buf2(2, 2, 9))),
        ("blend-first", |b| ops::blend_image(b, &distinct_buf2(9, 7, 40), BlendOp::Normal, 0.5)),
        ("blend-second", |b| ops::blend_image(&distinct_buf2(9, 7, 40), b, BlendOp::Normal, 0.5)),
        ("png", |b| bytes_buf(&encoded(b, &EncodingFormat::png_default()))),
        ("gif", |b| bytes_buf(&encoded(b, &EncodingFormat::gif_default()))),
        ("jpegfile", |b| bytes_buf(&encoded(b, &EncodingFormat::jpeg_default()))),
        ("webp", |b| bytes_buf(&encoded(b, &EncodingFormat::webp_default()))),
        ("bmp", |b| bytes_buf(&encoded(b, &EncodingFormat::bmp_default()))),
        ("ico", |b| bytes_buf(&encoded(b, &EncodingFormat::ico_default()))),
    ];
    for (n, f) in whole {
        group(&format!("near-image-{}", n), similar.clone(), vec![("".to_string(), Box::new(f) as Op)]);
    }
}

/// Bytes as an image, to use them as a result.
fn bytes_buf(v: &[u8]) -> PixelBuffer<Rgb> {
    PixelBuffer::new_from_raw(v.len() as u32, 1, v.iter().map(|b| Rgb { data: [*b as f32, 0.0, 0.0, 1.0] }).collect())
}

fn encoded(b: &PixelBuffer<Rgb>, f: &EncodingFormat) -> Vec<u8> {
    let mut o = vec![];
    d10_codecs::encode(&mut o, b, f.clone()).unwrap();
    o
}

/// Files for the decoders, written by the process that runs the check and read by the calls.
static HIST_CHILD: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn hist_file(name: &str, mk: impl FnOnce() -> Vec<u8>) -> String {
    let dir = format!("{}/hist", scratch());
    let p = format!("{}/{}", dir, name);
    if !HIST_CHILD.load(Ordering::SeqCst) {
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(&p, mk()).unwrap();
    }
    p
}

fn main_alphabet() -> Vec<Item> {
        let mut v: Vec<Item> = vec![];
        for k in 0..3 {
            for m in methods() {
                let b = base(k);
                // the second and third image only for one parameter of every method
                v.push(Item {
                    name: format!("{}@{}", m.name, k),
                    run: Box::new(move || {
                        script_on();
                        let r = if k == 1 { (m.bf)(&b) } else { in_slot(&b, |s| (m.bf)(s)) };
                        script::clear();
                        hash_of(&bits(&r))
                    }),
                });
            }
        }
        for k in [0usize, 2, 3] {
            for (n, f) in formats_small() {
                let b = base(k);
                let enc = hist_file(&format!("{}@{}", n, k), || encoded(&b, &f));
                let g = f.clone();
                v.push(Item {
                    name: format!("encode-{}@{}", n, k),
                    run: Box::new(move || {
                        let mut o = vec![];
                        d10_codecs::encode(&mut o, &b, g.clone()).unwrap();
                        hash_of(&o)
                    }),
                });
                v.push(Item {
                    name: format!("decode-{}@{}", n, k),
                    run: Box::new(move || hash_of(&bits(&d10_codecs::decode_buffer(&std::fs::read(&enc).unwrap()).unwrap().buffer))),
                });
            }
        }
        v.push(Item { name: "decode-damaged".into(), run: Box::new(|| hash_of(&d10_codecs::decode_buffer(&[0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A, 1, 2, 3]).is_err())) });
        v.push(Item { name: "decode-unknown".into(), run: Box::new(|| hash_of(&d10_codecs::decode_buffer(b"hello world, hello").is_err())) });
        macro_rules! conv {
            ($n:expr, $f:expr) => {
                for k in 0..2usize {
                    let b = base(k);
                    v.push(Item {
                        name: format!("conv-{}@{}", $n, k),
                        run: Box::new(move || {
                            let mut o: Vec<u32> = vec![];
                            for c in b.data() {
                                let f = $f;
                                let d = f(c);
                                o.extend(d.data.iter().map(|f| f.to_bits()));
                                o.extend(d.to_rgb().data.iter().map(|f| f.to_bits()));
                            }
                            hash_of(&o)
                        }),
                    });
                }
            };
        }
        conv!("srgb", |c: &Rgb| c.to_srgb());
        conv!("hsl", |c: &Rgb| c.to_hsl());
        conv!("hsv", |c: &Rgb| c.to_hsv());
        conv!("yuv", |c: &Rgb| c.to_yuv());
        conv!("xyz", |c: &Rgb| c.to_xyz());
        conv!("lab", |c: &Rgb| c.to_lab::<d10::illuminant::D65, d10::observer::O2>());
        conv!("lab50", |c: &Rgb| c.to_lab::<d10::illuminant::D50, d10::observer::O2>());
        conv!("lab10", |c: &Rgb| c.to_lab::<d10::illuminant::D65, d10::observer::O10>());
        conv!("lch", |c: &Rgb| c.to_lch::<d10::illuminant::D65, d10::observer::O2>());
        conv!("lch50", |c: &Rgb| c.to_lch::<d10::illuminant::D50, d10::observer::O10>());
        for (kn, n) in [(3u32, "k3"), (5, "k5"), (7, "k7")] {
            for s in [0.6f32, 1.4] {
                let b = base(3);
                v.push(Item {
                    name: format!("kernel-{}-{}", n, s),
                    run: Box::new(move || {
                        let k = d10::KernelDyn::new_gaussian(kn, s);
                        hash_of(&bits(&b.apply_kernel_dyn(&k)))
                    }),
                });
            }
        }
        v
}

/// `d10mc hist-child`: reads lines of call numbers, answers with a line of result hashes each.
pub fn hist_child() -> i32 {
    install_panic_hook();
    HIST_CHILD.store(true, Ordering::SeqCst);
    let a = alphabet();
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for w in text.split_whitespace() {
        let (w, thread) = match w.strip_prefix('t') {
            Some(w) => (w, true),
            None => (w, false),
        };
        let i: usize = w.parse().unwrap();
        let f = || match guard(|| (a[i].run)()) {
            Ok(h) => format!("{:x}", h),
            Err(e) => format!("panic:{}", e.replace(char::is_whitespace, "_")),
        };
        let r = if thread { std::thread::scope(|s| s.spawn(f).join().unwrap()) } else { f() };
        writeln!(out, "{}", r).unwrap();
    }
    out.flush().unwrap();
    0
}

fn history(steps: &[String]) -> Result<Vec<String>, String> {
    use std::process::{Command, Stdio};
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .arg("hist-child")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("INFRA {}", e))?;
    let text = steps.join("\n");
    let mut si = ch.stdin.take().unwrap();
    let h = std::thread::spawn(move || {
        let _ = si.write_all(text.as_bytes());
    });
    let o = ch.wait_with_output().map_err(|e| e.to_string())?;
    let _ = h.join();
    let v: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect();
    if !o.status.success() || v.len() != steps.len() {
        return Err(format!("the process ended with {:?} after {} of {} steps", o.status, v.len(), steps.len()));
    }
    Ok(v)
}

fn check_hist(c: &Case, spec: &[String], seq: &[(usize, bool)]) -> Res {
    let a = alphabet();
    let steps: Vec<String> = seq.iter().map(|(i, t)| format!("{}{}", if *t { "t" } else { "" }, i)).collect();
    let r = history(&steps)?;
    for (p, (got, (i, t))) in r.iter().zip(seq).enumerate() {
        let prev: Vec<&str> = seq[p.saturating_sub(3)..p].iter().map(|(k, _)| a[*k].name.as_str()).collect();
        ensure!(*got == spec[*i], "step {}: {}{} gives a different result after {:?} than in a fresh process{}", p, a[*i].name, if *t { " on a new thread" } else { "" }, prev, if got.starts_with("panic") { got.as_str() } else { "" });
    }
    c.transitions(seq.len() as u64);
    c.eval_n(seq.len() as u64);
    c.obs(true, &r);
    Ok(())
}

/// A writer or reader that performs a call of the alphabet at one of its operations.
struct Hook<'a> {
    at: usize,
    n: Cell<usize>,
    call: &'a dyn Fn(),
}
impl<'a> Hook<'a> {
    fn hit(&self) {
        let k = self.n.get();
        self.n.set(k + 1);
        if k == self.at {
            (self.call)();
        }
    }
}
struct HookW<'a>(Vec<u8>, &'a Hook<'a>);
impl<'a> Write for HookW<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1.hit();
        let n = b.len().min(64);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.1.hit();
        Ok(())
    }
}

type Outer = (String, Box<dyn Fn(&Hook) -> u64 + Sync + Send>);
fn outers() -> Vec<Outer> {
    let mut v: Vec<Outer> = vec![];
    let f = |c: &Rgb| Rgb { data: [c.data[2], c.data[0], c.data[1], c.data[3]] };
    v.push(("map_colors".into(), Box::new(move |h| hash_of(&bits(&base(0).map_colors(|c| { h.hit(); f(c) }))))));
    v.push(("map_colors_enumerated".into(), Box::new(move |h| hash_of(&bits(&base(0).map_colors_enumerated(|_, _, c| { h.hit(); f(c) }))))));
    v.push(("try_map_colors".into(), Box::new(move |h| hash_of(&bits(&base(0).try_map_colors(|c| { h.hit(); Ok::<_, ()>(f(c)) }).unwrap())))));
    v.push(("mod_colors".into(), Box::new(move |h| { let mut b = base(0); b.mod_colors(|c| { h.hit(); f(c) }); hash_of(&bits(&b)) })));
    v.push(("mod_colors_enumerated".into(), Box::new(move |h| { let mut b = base(0); b.mod_colors_enumerated(|_, _, c| { h.hit(); f(c) }); hash_of(&bits(&b)) })));
    v.push(("compose".into(), Box::new(move |h| hash_of(&bits(&ops::compose([&base(0), &base(1)], Rgb::RED, |_, _, [a, b]| { h.hit(); Rgb { data: [a.data[0], b.data[1], a.data[2], b.data[3]] } }))))));
    v.push(("compose_slice".into(), Box::new(move |h| hash_of(&bits(&ops::compose_slice(&[&base(0), &base(1)], Rgb::RED, |_, _, s| { h.hit(); Rgb { data: [s[0].data[0], s[1].data[1], s[0].data[2], s[1].data[3]] } }))))));
    for (n, fm) in formats_small() {
        v.push((format!("encode-{}", n), Box::new(move |h| {
            let mut w = HookW(vec![], h);
            d10_codecs::encode(&mut w, &base(3), fm.clone()).unwrap();
            hash_of(&w.0)
        })));
    }
    v
}

fn nested_case(c: &Case, spec: &[String], o: &Outer, inner: &[usize], maxpos: usize) -> Res {
    let a = alphabet();
    let none = || {};
    let h0 = Hook { at: usize::MAX, n: Cell::new(0), call: &none };
    let want = (o.1)(&h0);
    let n = h0.n.get();
    // every position, or an even selection with both ends when there are many
    let pos: Vec<usize> = if n <= maxpos { (0..n).collect() } else { (0..maxpos).map(|i| i * (n - 1) / (maxpos - 1)).collect() };
    for p in pos {
        for &i in inner {
            let res = RefCell::new(String::new());
            let call = || *res.borrow_mut() = format!("{:x}", (a[i].run)());
            let h = Hook { at: p, n: Cell::new(0), call: &call };
            let got = guard(|| (o.1)(&h)).map_err(|e| format!("{} inside {} at callback {}: panic: {}", a[i].name, o.0, p, e))?;
            ensure!(got == want, "{} gives another result when {} runs inside callback {}", o.0, a[i].name, p);
            ensure!(*res.borrow() == spec[i], "{} gives another result inside callback {} of {}", a[i].name, p, o.0);
            c.obs(true, &(p, i));
            c.traces(1);
        }
    }
    Ok(())
}

/// The result of every call as the first one of its process, found once per run.
fn specs(ctx: &'static Ctx) -> Vec<String> {
    let n = alphabet().len();
    let out: Vec<OnceLock<String>> = (0..n).map(|_| OnceLock::new()).collect();
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n {
                    break;
                }
                let r = match history(&[i.to_string()]) {
                    Ok(v) => v[0].clone(),
                    Err(e) => format!("panic:{}", e),
                };
                if r.starts_with("panic") {
                    ctx.fail(&format!("fresh/{}", alphabet()[i].name), format!("the call fails in a fresh process: {}", r));
                }
                let _ = out[i].set(r);
            });
        }
    });
    out.into_iter().map(|o| o.into_inner().unwrap()).collect()
}

pub fn run24(ctx: &'static Ctx) {
    let a = alphabet();
    let all = a.len();
    let fams = &alphabet_and_families().1;
    let n = fams[0].1.start;
    let spec = specs(ctx);
    ctx.note("alphabet", all);
    // the families of similar calls are only combined inside
    let all = fams.iter().find(|f| f.0.starts_with("near-")).unwrap().1.start;
    ctx.note("families", fams.iter().map(|f| format!("{}:{}", f.0, f.1.len())).collect::<Vec<_>>().join(" "));
    // a reduced alphabet: one call per name without its parameters, on the first image
    let mut seen: HashMap<String, u32> = HashMap::new();
    let mut red: Vec<usize> = vec![];
    for (i, it) in a[..n].iter().enumerate() {
        let key: String = it.name.chars().take_while(|c| c.is_ascii_alphabetic() || *c == '_').collect();
        let e = seen.entry(key).or_default();
        if *e < 2 {
            *e += 1;
            red.push(i);
        }
    }
    ctx.note("reduced_alphabet", red.len());
    let mut jobs: Vec<Box<dyn Fn() + Sync>> = vec![];
    let (specr, redr) = (&spec, &red);
    // all pairs inside a family; quick: pairs of the main calls, the first one reduced; thorough: all pairs
    for (name, r) in fams {
        if name.starts_with("near-") {
            // every ordered pair in a single process
            jobs.push(Box::new(move || {
                ctx.case(&format!("family/{}", name), |c| {
                    let seq: Vec<(usize, bool)> = r.clone().flat_map(|i| r.clone().flat_map(move |j| [(i, false), (j, false)])).collect();
                    c.states(r.len() as u64);
                    check_hist(c, specr, &seq)
                });
            }));
            continue;
        }
        for i in r.clone() {
            jobs.push(Box::new(move || {
                ctx.case(&format!("family/{}/{}", name, a[i].name), |c| {
                    let seq: Vec<(usize, bool)> = r.clone().flat_map(|j| [(i, false), (j, false)]).collect();
                    c.states(r.len() as u64);
                    check_hist(c, specr, &seq)
                });
            }));
        }
    }
    let n = ctx.pick(n, all);
    for i in 0..n {
        jobs.push(Box::new(move || {
            if ctx.quick() && !redr.contains(&i) && i % 4 != 0 {
                return;
            }
            ctx.case(&format!("pairs/{}", a[i].name), |c| {
                let mut seq = vec![];
                for j in 0..n {
                    seq.push((i, false));
                    seq.push((j, false));
                }
                c.states(n as u64);
                check_hist(c, specr, &seq)
            });
        }));
    }
    jobs.push(Box::new(move || {
        for off in [1usize, 7] {
            ctx.case(&format!("threads/{}", off), |c| {
                let seq: Vec<(usize, bool)> = (0..n).flat_map(|i| [(i * off % n, true), ((i + 1) % n, false), (i, true)]).collect();
                check_hist(c, specr, &seq)
            });
        }
        ctx.case("reverse", |c| check_hist(c, specr, &(0..n).rev().map(|i| (i, false)).collect::<Vec<_>>()));
    }));
    if !ctx.quick() {
        for &x in redr {
            jobs.push(Box::new(move || {
                ctx.case(&format!("triples/{}", a[x].name), |c| {
                    let mut seq = vec![];
                    for &y in redr {
                        for &z in redr {
                            seq.extend([(x, false), (y, false), (z, false)]);
                        }
                    }
                    check_hist(c, specr, &seq)
                });
            }));
        }
    }
    for o in outers() {
        jobs.push(Box::new(move || {
            let big = o.0.starts_with("encode");
            let inner: Vec<usize> = if big && ctx.quick() { redr.iter().enumerate().filter(|(k, i)| k % 3 == 0 || a[**i].name.contains("code-")).map(|x| *x.1).collect() } else { redr.clone() };
            let inner: Vec<usize> = inner.into_iter().chain((0..n).filter(|i| big && a[*i].name.starts_with("encode") && a[*i].name.ends_with("@2"))).collect();
            ctx.case(&format!("nested/{}", o.0), |c| nested_case(c, specr, &o, &inner, if big { ctx.pick(6, 40) } else { ctx.pick(12, 40) }));
        }));
    }
    par(&jobs, |j| j());
}
