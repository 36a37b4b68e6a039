//! C02 lossless round trips and decoding, C03 encoder options and bounded loss, C04 decoder
//! robustness, C05 format detection.
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use d10::{Color, EncodingFormat as EF, Image, PixelBuffer, Rgb};
use d10_codecs::{decode_buffer, decode_file, encode, Format};
use std::io::{Cursor, Read, Seek, SeekFrom};

pub type Lv = [u32; 4];

pub fn enc(img: &PixelBuffer<Rgb>, f: &EF) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    encode(&mut v, img, f.clone()).map_err(|e| format!("encode: {}", e))?;
    Ok(v)
}
pub fn dec(b: &[u8]) -> Result<PixelBuffer<Rgb>, String> {
    decode_buffer(b).map(|d| d.buffer).map_err(|e| format!("decode: {}", e))
}

/// What a format stores, decoded by the codec library only: (width, height, max level, levels).
pub fn stored(f: &EF, b: &[u8]) -> Result<(u32, u32, u32, Vec<Lv>), String> {
    match f {
        EF::Png { .. } => raw_png(b),
        EF::Ico { .. } => {
            ensure!(b.len() > 22 && b[..6] == [0, 0, 1, 0, 1, 0], "bad ico header");
            let off = u32::from_le_bytes(b[18..22].try_into().unwrap()) as usize;
            let size = u32::from_le_bytes(b[14..18].try_into().unwrap()) as usize;
            ensure!(off + size <= b.len(), "ico directory beyond the file");
            raw_png(&b[off..off + size])
        }
        EF::Bmp { .. } => {
            use image::ImageDecoder;
            let d = image::codecs::bmp::BmpDecoder::new(Cursor::new(b)).map_err(|e| e.to_string())?;
            let (w, h) = d.dimensions();
            let ct = d.color_type();
            let mut raw = vec![0; d.total_bytes() as usize];
            d.read_image(&mut raw).map_err(|e| e.to_string())?;
            let n = ct.channel_count() as usize;
            Ok((w, h, 255, raw.chunks(n).map(|c| [c[0] as u32, c[1] as u32, c[2] as u32, if n == 4 { c[3] as u32 } else { 255 }]).collect()))
        }
        EF::Gif => {
            let mut o = gif::DecodeOptions::new();
            o.set_color_output(gif::ColorOutput::RGBA);
            let mut d = o.read_info(Cursor::new(b)).map_err(|e| e.to_string())?;
            let fr = d.read_next_frame().map_err(|e| e.to_string())?.ok_or("no frame")?;
            let r = (fr.width as u32, fr.height as u32, 255, fr.buffer.chunks(4).map(|c| [c[0] as u32, c[1] as u32, c[2] as u32, c[3] as u32]).collect());
            Ok(r)
        }
        EF::WebP { .. } => unsafe {
            let (mut w, mut h) = (0, 0);
            let p = libwebp_sys::WebPDecodeRGBA(b.as_ptr(), b.len(), &mut w, &mut h);
            ensure!(!p.is_null(), "libwebp cannot decode");
            let s = std::slice::from_raw_parts(p, (w * h * 4) as usize);
            let v = s.chunks(4).map(|c| [c[0] as u32, c[1] as u32, c[2] as u32, c[3] as u32]).collect();
            libwebp_sys::WebPFree(p as *mut _);
            Ok((w as u32, h as u32, 255, v))
        },
        EF::Jpeg { .. } => raw_jpeg(b),
    }
}

pub fn raw_jpeg(b: &[u8]) -> Result<(u32, u32, u32, Vec<Lv>), String> {
    let mut d = jpeg_decoder::Decoder::new(Cursor::new(b));
    let raw = d.decode().map_err(|e| e.to_string())?;
    let i = d.info().ok_or("no info")?;
    let v = match i.pixel_format {
        jpeg_decoder::PixelFormat::L8 => raw.iter().map(|v| [*v as u32, *v as u32, *v as u32, 255]).collect(),
        jpeg_decoder::PixelFormat::RGB24 => raw.chunks(3).map(|c| [c[0] as u32, c[1] as u32, c[2] as u32, 255]).collect(),
        jpeg_decoder::PixelFormat::CMYK32 => raw.chunks(4).map(|c| [c[0] as u32, c[1] as u32, c[2] as u32, c[3] as u32]).collect(),
        f => return Err(format!("pixel format {:?}", f)),
    };
    Ok((i.width as u32, i.height as u32, 255, v))
}

fn raw_png(b: &[u8]) -> Result<(u32, u32, u32, Vec<Lv>), String> {
    let mut d = png::Decoder::new(Cursor::new(b));
    d.set_transformations(png::Transformations::IDENTITY);
    let mut r = d.read_info().map_err(|e| e.to_string())?;
    let mut buf = vec![0; r.output_buffer_size()];
    let i = r.next_frame(&mut buf).map_err(|e| e.to_string())?;
    r.finish().map_err(|e| e.to_string())?;
    let (bytes, max) = match i.bit_depth {
        png::BitDepth::Eight => (1, 255),
        png::BitDepth::Sixteen => (2, 65535),
        d => return Err(format!("bit depth {:?}", d)),
    };
    let s: Vec<u32> = buf.chunks(bytes).map(|c| c.iter().fold(0, |a, b| a * 256 + *b as u32)).collect();
    let v = match i.color_type {
        png::ColorType::Grayscale => s.iter().map(|v| [*v, *v, *v, max]).collect(),
        png::ColorType::GrayscaleAlpha => s.chunks(2).map(|c| [c[0], c[0], c[0], c[1]]).collect(),
        png::ColorType::Rgb => s.chunks(3).map(|c| [c[0], c[1], c[2], max]).collect(),
        png::ColorType::Rgba => s.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect(),
        c => return Err(format!("colour type {:?}", c)),
    };
    Ok((i.width, i.height, max, v))
}

pub fn lin_px(l: &Lv, max: u32) -> [f64; 4] {
    let m = max as f64;
    [srgb_to_lin(l[0] as f64 / m), srgb_to_lin(l[1] as f64 / m), srgb_to_lin(l[2] as f64 / m), l[3] as f64 / m]
}
fn mk(l: &Lv, max: u32) -> Rgb {
    let p = lin_px(l, max);
    Rgb { data: [p[0] as f32, p[1] as f32, p[2] as f32, p[3] as f32] }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Caps {
    gray: bool,
    alpha: bool,
    max: u32,
}

/// lossless formats and what they can store
fn lossless() -> Vec<(String, EF, Caps)> {
    let mut v = vec![];
    for (i, (t, n)) in PNG_TYPES.iter().enumerate() {
        let caps = Caps { gray: i < 4, alpha: i % 2 == 1, max: if [2, 3, 6, 7].contains(&i) { 65535 } else { 255 } };
        for (c, nc) in PNG_COMP {
            for (f, nf) in PNG_FILT {
                v.push((format!("png-{}-{}-{}", n, nc, nf), png(*t, c, f), caps));
            }
        }
    }
    for (i, (t, n)) in BMP_TYPES.iter().enumerate() {
        v.push((format!("bmp-{}", n), EF::Bmp { color_type: *t }, Caps { gray: i < 2, alpha: i == 3, max: 255 }));
    }
    for (i, (t, n)) in ICO_TYPES.iter().enumerate() {
        v.push((format!("ico-{}", n), EF::Ico { color_type: *t }, Caps { gray: i < 2, alpha: i % 2 == 1, max: 255 }));
    }
    v.push(("webp-lossless".into(), EF::WebP { quality: 90, preset: d10::WebPPreset::Lossless }, Caps { gray: false, alpha: true, max: 255 }));
    v.push(("gif".into(), EF::Gif, Caps { gray: false, alpha: true, max: 255 }));
    v
}

/// What must be stored for the given source level (gray sources for gray types).
fn expect_lv(l: &Lv, caps: &Caps) -> Lv {
    [l[0], l[1], l[2], if caps.alpha { l[3] } else { caps.max }]
}

fn source_ok(name: &str, caps: &Caps, l: Lv, i: u32) -> Lv {
    let mut l = l;
    if caps.gray {
        l[1] = l[0];
        l[2] = l[0];
    }
    if name == "gif" {
        l[3] = if i % 5 == 3 { 0 } else { 255 };
        if l[3] == 0 {
            // colour of invisible pixels is not part of the image
        }
    }
    l
}

fn lossless_case(c: &Case, name: &str, f: &EF, caps: &Caps, w: u32, h: u32, src: &[Lv]) -> Res {
    let img = PixelBuffer::new_from_raw(w, h, src.iter().map(|l| mk(l, caps.max)).collect());
    let before = bits(&img);
    let out = enc(&img, f)?;
    ensure!(bits(&img) == before, "saving changed the image");
    let (sw, sh, max, st) = stored(f, &out)?;
    ensure!((sw, sh) == (w, h), "stored as {}x{}", sw, sh);
    ensure!(max == caps.max, "stored with {} levels", max);
    ensure!(st.len() == src.len(), "{} samples", st.len());
    let back = dec(&out)?;
    ensure!((back.width(), back.height()) == (w, h), "loads as {}x{}", back.width(), back.height());
    ensure!(back.data().len() == src.len(), "loads {} pixels", back.data().len());
    for (i, l) in src.iter().enumerate() {
        let e = expect_lv(l, caps);
        let invisible = name == "gif" && e[3] == 0;
        if !invisible {
            ensure!(st[i] == e, "pixel {} with levels {:?} is stored as {:?}", i, l, st[i]);
        } else {
            ensure!(st[i][3] == 0, "transparent pixel {} is stored with alpha {}", i, st[i][3]);
        }
        let want = lin_px(&st[i], max);
        let got = back.data()[i].data;
        ensure!(close_px(&got, &want, 2e-6), "pixel {} stored as {:?} loads as {:?} instead of {:?}", i, st[i], got, want);
    }
    let again = enc(&back, f)?;
    ensure!(again == out, "saving the loaded image again gives a different file");
    c.obs(true, &out);
    Ok(())
}

pub const RULE2: &str = "A case is (lossless format with options, image): every 8-bit level in every channel, every 16-bit level for the 16-bit PNG types, every shape up to 9x9 (12x12 thorough) plus long strips, off-lattice and out-of-range channel values, colours that are almost gray, luminance of a colour lattice for gray types; and files made by other writers for the decoders (hand-built PNG with chunks cut anywhere, every colour type, bit depth, palette, tRNS, interlacing; BMP with every header size, depth, mask, run length code and row order; GIF with local palettes, transparent index, interlacing, extensions and code sizes; ICO with BMP and PNG entries; JPEG with 1, 3 and 4 components and every sampling; WebP containers). Oracle: samples read back by the codec library alone, sRGB curve in f64. The longest sides of every format. One odd pixel (rare alpha, rare colour) at four positions in images up to 256x256. Non-trivial: file produced; outcomes hashed by file content.";
pub const ASSUME2: &[&str] = &["the png, gif, image, jpeg-decoder and libwebp libraries decode correctly", "RGB of fully transparent pixels is not compared for GIF"];

pub fn run2(ctx: &'static Ctx) {
    let all = lossless();
    let few: Vec<_> = all
        .iter()
        .filter(|(n, _, _)| !ctx.quick() || !n.starts_with("png") || n.ends_with("default-sub") || n.starts_with("png-rgba8"))
        .cloned()
        .collect();
    par(&all, |(name, f, caps)| {
        // every level in every channel
        ctx.case(&format!("levels/{}", name), |c| {
            let n = caps.max + 1;
            let (w, h) = if n == 256 { (16, 16) } else { (256, 256) };
            for rot in 0..if n == 256 { 4 } else { 1 } {
                let src: Vec<Lv> = (0..n)
                    .map(|v| {
                        let base = [v, (v * 7 + 3) % n, n - 1 - v, (v * 5 + 1) % n];
                        let mut l = [0; 4];
                        for k in 0..4 {
                            l[k] = base[(k + rot) % 4];
                        }
                        source_ok(name, caps, l, v)
                    })
                    .collect();
                lossless_case(c, name, f, caps, w, h, &src)?;
            }
            Ok(())
        });
        ctx.case(&format!("uniform/{}", name), |c| {
            for l in [[0, 0, 0, 0], [0, 0, 0, caps.max], [caps.max; 4], [1, 1, 1, caps.max], [caps.max - 1; 4], [caps.max / 2, 0, caps.max, 1]] {
                let l = source_ok(name, caps, l, 0);
                for (w, h) in [(1, 1), (2, 3), (16, 16)] {
                    lossless_case(c, name, f, caps, w, h, &vec![l; (w * h) as usize])?;
                }
            }
            Ok(())
        });
    });
    let m = ctx.pick(9, 12);
    let mut shapes: Vec<(u32, u32)> = vec![];
    for w in 1..=m {
        for h in 1..=m {
            shapes.push((w, h));
        }
    }
    shapes.extend([(17, 1), (1, 17), (33, 2), (2, 33), (255, 1), (256, 1), (1, 255), (1, 256), (31, 31), (64, 3), (129, 5), (100, 100), (256, 256)]);
    let items: Vec<_> = few.iter().flat_map(|f| shapes.iter().map(move |s| (f, *s))).collect();
    par(&items, |((name, f, caps), (w, h))| {
        let n = w * h;
        if name == "gif" && n > 255 {
            return;
        }
        ctx.case(&format!("shape/{}/{}x{}", name, w, h), |c| {
            let m = caps.max + 1;
            let src: Vec<Lv> = (0..n).map(|i| source_ok(name, caps, [(i * 97 + 13) % m, (i * 31 + i / 256 + 7) % m, (i * 59 + 101) % m, (i * 11 + 50) % m], i)).collect();
            lossless_case(c, name, f, caps, *w, *h, &src)
        });
    });

    // combinations of extreme, dark and neighbouring levels in all channels and alpha
    par(&few, |(name, f, caps)| {
        ctx.case(&format!("mixes/{}", name), |c| {
            let m = caps.max;
            let lv = if m == 255 { vec![0, 1, 2, 3, 5, 64, 127, 128, 200, 252, 253, 254, 255] } else { vec![0, 1, 2, 255, 256, 257, 512, 32767, 32768, 65280, 65534, 65535] };
            let al = [m, 0, 1, m / 2, m - 1];
            let mut src: Vec<Lv> = vec![];
            for r in &lv {
                for g in &lv {
                    for b in &lv {
                        for (i, a) in al.iter().enumerate() {
                            if !caps.alpha && *a != m || (name == "gif" && i > 0) || (caps.gray && (r != g && r != b)) {
                                continue;
                            }
                            let l = source_ok(name, caps, [*r, *g, *b, *a], 0);
                            src.push(if name == "gif" { [l[0], l[1], l[2], m] } else { l });
                        }
                    }
                }
            }
            let part = if name == "gif" { 250 } else { 60_000 };
            for px in src.chunks(part) {
                let w = (px.len() as f64).sqrt().ceil() as u32;
                let h = (px.len() as u32).div_ceil(w);
                let mut px = px.to_vec();
                px.resize((w * h) as usize, px[0]);
                lossless_case(c, name, f, caps, w, h, &px)?;
            }
            Ok(())
        });
    });

    // the longest sides the formats can have
    let mut long: Vec<(&(String, EF, Caps), u32)> = vec![];
    for f in &few {
        let n = &f.0;
        let all: &[u32] = if n.starts_with("png") { &[65536, 70001, 65535, 300_000] } else if n.starts_with("bmp") { &[65535, 32768] } else if n == "gif" { &[65535] } else if n.starts_with("webp") { &[16383, 16382, 8192] } else { &[256, 255] };
        let sides = if ctx.quick() { &all[..all.len().div_ceil(2)] } else { all };
        long.extend(sides.iter().map(|s| (f, *s)));
    }
    par(&long, |((name, f, caps), s)| {
        for (w, h) in [(*s, 1u32), (1, *s), (3, *s)] {
            if name == "gif" && w == 3 {
                continue;
            }
            ctx.case(&format!("long/{}/{}x{}", name, w, h), |c| {
                let m = caps.max + 1;
                let k = if name == "gif" { 200 } else { u32::MAX };
                let src: Vec<Lv> = (0..w * h).map(|i| { let i = i % k; source_ok(name, caps, [(i * 97 + 13) % m, (i % 9999 * 31 + i / 256 + 7) % m, (i % 9999 * 59 + 101) % m, (i % 9999 * 11 + 50) % m], i) }).collect();
                lossless_case(c, name, f, caps, w, h, &src)
            });
        }
    });
    for (w, h) in [(65536u32, 1u32), (1, 65536)] {
        ctx.case(&format!("long/bmp-rgba8/{}x{}", w, h), |c| {
            let src = PixelBuffer::new_from_raw(w, h, (0..65536u32).map(|i| mk(&[i % 256, i / 256, 7, 255], 255)).collect());
            let out = enc(&src, &EF::bmp_default())?;
            close(&dec(&out)?, &src, 2e-6)?;
            c.obs(true, &out);
            Ok(())
        });
    }

    // GIF: exactly 256 colours; several different invisible colours
    for (w, h) in [(16u32, 16u32), (255, 1), (1, 256), (64, 64), (3, 2)] {
        ctx.case(&format!("gif-palette/{}x{}", w, h), |c| {
            let caps = Caps { gray: false, alpha: true, max: 255 };
            let n = w * h;
            let src: Vec<Lv> = (0..n).map(|i| [(i % 16) * 17, ((i / 16) % 16) * 17, i % 256, 255]).collect();
            if n <= 256 {
                lossless_case(c, "gif", &EF::Gif, &caps, w, h, &src)?;
            }
            let src: Vec<Lv> = (0..n).map(|i| if i % 3 == 0 { [i % 64, 0, 3, 0] } else { [(i % 96) * 2, 0, 3, 255] }).collect();
            lossless_case(c, "gif", &EF::Gif, &caps, w, h, &src)?;
            let src: Vec<Lv> = (0..n).map(|i| if i % 2 == 0 { [9, 0, 3, 0] } else { [9, 0, 3, 255] }).collect();
            lossless_case(c, "gif", &EF::Gif, &caps, w, h, &src)?;
            // partially transparent pixels become opaque, never invisible
            let src: Vec<Lv> = (0..n).map(|i| [9, i % 100, 3, i % 256]).collect();
            let img = PixelBuffer::new_from_raw(w, h, src.iter().map(|l| mk(l, 255)).collect());
            let back = dec(&enc(&img, &EF::Gif)?)?;
            for (i, p) in back.data().iter().enumerate() {
                let want = if src[i][3] == 0 { 0.0 } else { 1.0 };
                if n <= 256 {
                    ensure!(p.alpha() == want, "pixel {} with alpha level {} loads with alpha {}", i, src[i][3], p.alpha());
                }
            }
            Ok(())
        });
    }

    // one pixel unlike all others, in small and large images
    let sizes = [(2u32, 2u32), (7, 9), (40, 40), (65, 65), (91, 90), (256, 20), (19, 256), (256, 256)];
    let items: Vec<_> = few.iter().flat_map(|f| sizes.iter().map(move |s| (f, *s))).collect();
    par(&items, |((name, f, caps), (w, h))| {
        ctx.case(&format!("odd/{}/{}x{}", name, w, h), |c| {
            let (n, m) = (w * h, caps.max);
            let odd: Vec<Lv> = vec![[m, 0, 0, m], [m / 2, m / 2, m / 2, m], [0, 0, 0, 0], [m, m, m, 0], [0, m, 0, 1], [3, 3, 3, m - 1], [0, 0, 0, m]];
            let base: Vec<Lv> = vec![[0, 0, 0, m], [m, m, m, m], [20, 20, 20, m], [20, 30, 40, m], [20, 30, 40, 0], [20, 20, 20, m / 2]];
            let fits = |l: &Lv| !(name == "gif" && l[3] != 0 && l[3] != m) && !(caps.gray && (l[0] != l[1] || l[1] != l[2]));
            for (oi, o) in odd.iter().enumerate() {
                for (bi, b) in base.iter().enumerate() {
                    if !fits(o) || !fits(b) || (n > 60_000 && ctx.quick() && (oi * 2 + bi) % 3 != 0) {
                        continue;
                    }
                    let all = [0, n / 2 + w / 3, n - 1, w - 1];
                    for (k, at) in all.iter().enumerate() {
                        if n > 2000 && k != (oi + bi) % 4 && (ctx.quick() || k != (oi + bi + 1) % 4) {
                            continue;
                        }
                        // few or many different values around it
                        let src: Vec<Lv> = (0..n).map(|i| if i == *at { *o } else if (oi + bi) % 2 == 0 || !fits(&[1, 2, 3, m]) { *b } else { [b[0].saturating_sub(i % 7), b[1].saturating_sub(i % 5), b[2], b[3]] }).collect();
                        lossless_case(c, name, f, caps, *w, *h, &src).map_err(|e| format!("{:?} at {} among {:?}: {}", o, at, b, e))?;
                    }
                }
            }
            Ok(())
        });
    });

    // values between and beyond the levels
    par(&few, |(name, f, caps)| {
        if name == "gif" {
            return;
        }
        ctx.case(&format!("nearest/{}", name), |c| {
            let m = caps.max as f64;
            let mut vals: Vec<f64> = vec![-1e30, -1.0, -1e-3, 0.0, 1.0, 1.0 + 1e-6, 1.5, 1e30];
            let n = if caps.max == 255 { 256 } else { 4096 };
            for i in 0..n {
                let k = if caps.max == 255 { i as f64 } else { (i as f64) * 16.0 + 3.0 };
                for d in [0.0, 0.2, 0.45, 0.55, 0.8] {
                    vals.push((k + d) / m);
                }
            }
            for ch in 0..4usize {
                if (ch == 3 && !caps.alpha) || (ch > 0 && ch < 3 && caps.gray) {
                    continue;
                }
                let px: Vec<Rgb> = vals
                    .iter()
                    .map(|v| {
                        let mut p = [0.25f32, 0.5, 0.75, 1.0];
                        let lin = if *v <= 0.0 || *v >= 1.0 { *v } else { srgb_to_lin(*v) } as f32;
                        if ch == 3 {
                            p[3] = *v as f32;
                        } else if caps.gray {
                            p = [lin, lin, lin, 1.0];
                        } else {
                            p[ch] = lin;
                        }
                        Rgb { data: p }
                    })
                    .collect();
                // keep rows short (ICO is limited to 256 pixels per side)
                let w = 64u32;
                let mut px = px;
                while px.len() % w as usize != 0 {
                    px.push(px[0]);
                }
                let h = px.len() as u32 / w;
                let img = PixelBuffer::new_from_raw(w, h, px);
                let (_, _, _, st) = stored(f, &enc(&img, f)?)?;
                for (i, v) in vals.iter().enumerate() {
                    let want = v.clamp(0.0, 1.0) * m;
                    let got = st[i][ch] as f64;
                    ensure!((got - want).abs() <= 0.502, "channel {} value {} (level {:.3}) is stored as {}", ch, v, want, got);
                }
                c.obs(true, &(ch, st));
            }
            Ok(())
        });
        // colours whose channels differ by less than or little more than the comparison tolerance
        ctx.case(&format!("neargray/{}", name), |c| {
            let e = 1.0f32 / 32768.0;
            let ds = [-3.0 * e, -0.9 * e, 0.0, 0.4 * e, 1.1 * e];
            let mut px = vec![];
            for base in [0.0f32, 2.0 * e, 0.001, 0.0031, 0.01, 0.05, 0.2, 0.5, 0.9, 1.0 - e, 1.0] {
                for r in ds {
                    for g in ds {
                        for b in ds {
                            px.push(Rgb { data: [(base + r).clamp(0.0, 1.0), (base + g).clamp(0.0, 1.0), (base + b).clamp(0.0, 1.0), 1.0] });
                        }
                    }
                }
            }
            let w = 55;
            let h = px.len() as u32 / w;
            let img = PixelBuffer::new_from_raw(w, h, px.clone());
            let (_, _, m, st) = stored(f, &enc(&img, f)?)?;
            for (i, p) in px.iter().enumerate() {
                let d = p.data.map(|v| v as f64);
                let y = d[0] * 0.212_656 + d[1] * 0.715_158 + d[2] * 0.072_186;
                for k in 0..3 {
                    let want = lin_to_srgb(if caps.gray { y } else { d[k] }) * m as f64;
                    ensure!((st[i][k] as f64 - want).abs() <= 0.502 + m as f64 * 2e-6, "channel {} of {:?} is stored as {} instead of {:.2}", k, p.data, st[i][k], want);
                }
                ensure!(st[i][3] == m, "{:?} is stored with alpha {}", p.data, st[i][3]);
            }
            c.obs(true, &st);
            Ok(())
        });
        if caps.gray {
            ctx.case(&format!("luma/{}", name), |c| {
                let k = 9u32;
                let src: Vec<Lv> = (0..k * k * k).map(|i| [(i % k) * caps.max / (k - 1), ((i / k) % k) * caps.max / (k - 1), (i / k / k) * caps.max / (k - 1), caps.max]).collect();
                let img = PixelBuffer::new_from_raw(k * k, k, src.iter().map(|l| mk(l, caps.max)).collect());
                let (_, _, m, st) = stored(f, &enc(&img, f)?)?;
                for (i, l) in src.iter().enumerate() {
                    let p = lin_px(l, caps.max);
                    let y = p[0] * 0.212_656 + p[1] * 0.715_158 + p[2] * 0.072_186;
                    let want = lin_to_srgb(y) * m as f64;
                    ensure!((st[i][0] as f64 - want).abs() <= 0.502 + m as f64 * 2e-6, "levels {:?} are stored as gray {} instead of {:.2}", l, st[i][0], want);
                    ensure!(st[i][0] == st[i][1] && st[i][1] == st[i][2], "gray type stores {:?}", st[i]);
                }
                c.obs(true, &st);
                Ok(())
            });
        }
    });

    decoders(ctx);
    crate::p_foreign::run(ctx);
}

// ---- hand built files -------------------------------------------------------------------------

fn crc(b: &[u8]) -> u32 {
    let mut c = 0xFFFF_FFFFu32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { 0xEDB8_8320 ^ (c >> 1) } else { c >> 1 };
        }
    }
    !c
}
pub fn chunk(out: &mut Vec<u8>, t: &[u8; 4], d: &[u8]) {
    out.extend((d.len() as u32).to_be_bytes());
    let mut b = t.to_vec();
    b.extend(d);
    out.extend(&b);
    out.extend(crc(&b).to_be_bytes());
}
pub fn zlib(d: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::fast());
    e.write_all(d).unwrap();
    e.finish().unwrap()
}

/// samples: per pixel list of channel levels (palette index for type 3)
#[allow(clippy::too_many_arguments)]
pub fn build_png(w: u32, h: u32, ct: u8, depth: u8, samples: &dyn Fn(u32, u32) -> Vec<u32>, plte: Option<&[u8]>, trns: Option<&[u8]>, interlace: bool) -> Vec<u8> {
    let mut out = b"\x89PNG\r\n\x1a\n".to_vec();
    let mut ihdr = vec![];
    ihdr.extend(w.to_be_bytes());
    ihdr.extend(h.to_be_bytes());
    ihdr.extend([depth, ct, 0, 0, interlace as u8]);
    chunk(&mut out, b"IHDR", &ihdr);
    if let Some(p) = plte {
        chunk(&mut out, b"PLTE", p);
    }
    if let Some(t) = trns {
        chunk(&mut out, b"tRNS", t);
    }
    let mut raw = vec![];
    let passes: Vec<(u32, u32, u32, u32)> = if interlace {
        vec![(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)]
    } else {
        vec![(0, 0, 1, 1)]
    };
    for (x0, y0, dx, dy) in passes {
        let mut y = y0;
        while y < h {
            if x0 < w {
                raw.push(0);
                let (mut acc, mut n) = (0u32, 0u32);
                let mut x = x0;
                while x < w {
                    for s in samples(x, y) {
                        match depth {
                            16 => raw.extend((s as u16).to_be_bytes()),
                            8 => raw.push(s as u8),
                            d => {
                                acc = (acc << d) | s;
                                n += d as u32;
                                if n == 8 {
                                    raw.push(acc as u8);
                                    acc = 0;
                                    n = 0;
                                }
                            }
                        }
                    }
                    x += dx;
                }
                if n > 0 {
                    raw.push((acc << (8 - n)) as u8);
                }
            }
            y += dy;
        }
    }
    chunk(&mut out, b"IDAT", &zlib(&raw));
    chunk(&mut out, b"IEND", &[]);
    out
}

pub fn check_pixels(b: &[u8], w: u32, h: u32, want: &dyn Fn(u32, u32) -> [f64; 4], tol: f64) -> Result<PixelBuffer<Rgb>, String> {
    let d = dec(b)?;
    ensure!((d.width(), d.height()) == (w, h), "decodes to {}x{}", d.width(), d.height());
    for y in 0..h {
        for x in 0..w {
            let (g, e) = (d.get_pixel(x, y).data, want(x, y));
            ensure!(close_px(&g, &e, tol), "pixel ({},{}) decodes to {:?} instead of {:?}", x, y, g, e);
        }
    }
    Ok(d)
}

fn decoders(ctx: &'static Ctx) {
    let mut items = vec![];
    for (ct, depths) in [(0u8, vec![1u8, 2, 4, 8, 16]), (2, vec![8, 16]), (3, vec![1, 2, 4, 8]), (4, vec![8, 16]), (6, vec![8, 16])] {
        for d in depths {
            for il in [false, true] {
                for trns in [false, true] {
                    if trns && ct >= 4 {
                        continue;
                    }
                    items.push((ct, d, il, trns));
                }
            }
        }
    }
    par(&items, |(ct, depth, il, trns)| {
        let (ct, depth, il, trns) = (*ct, *depth, *il, *trns);
        ctx.case(&format!("decode-png/t{}d{}{}{}", ct, depth, if il { "i" } else { "" }, if trns { "t" } else { "" }), |c| {
            let max = (1u32 << depth) - 1;
            let mut shapes = vec![];
            let m = ctx.pick(6, 11);
            for w in 1..=m {
                for h in 1..=m {
                    shapes.push((w, h));
                }
            }
            shapes.extend([(16, 16), (9, 3), (3, 9), (256, 2)]);
            for (w, h) in shapes {
                let val = move |x: u32, y: u32, k: u32| -> u32 {
                    let i = x + y * w;
                    if depth == 16 { (i * 257 + k * 7919 + i * 13) % (max + 1) } else { (i + k * 85 + i * k) % (max + 1) }
                };
                let chans = match ct { 0 | 3 => 1, 2 => 3, 4 => 2, _ => 4 };
                let plte: Vec<u8> = (0..=max.min(255)).flat_map(|i| [(i * 3 % 256) as u8, (255 - i) as u8, (i * 7 % 256) as u8]).collect();
                let t3: Vec<u8> = (0..=(max.min(255) / 2)).map(|i| (i * 37 % 256) as u8).collect();
                // transparent key: the sample at pixel (0,0)
                let key: Vec<u32> = (0..chans).map(|k| val(0, 0, k)).collect();
                let tkey: Vec<u8> = key.iter().flat_map(|k| (*k as u16).to_be_bytes()).collect();
                let t = if !trns { None } else if ct == 3 { Some(&t3[..]) } else { Some(&tkey[..]) };
                let samples = move |x: u32, y: u32| (0..chans).map(|k| val(x, y, k)).collect::<Vec<_>>();
                let file = build_png(w, h, ct, depth, &samples, if ct == 3 { Some(&plte) } else { None }, t, il);
                let want = |x: u32, y: u32| -> [f64; 4] {
                    let s = samples(x, y);
                    match ct {
                        0 | 4 => lin_px(&[s[0], s[0], s[0], if ct == 4 { s[1] } else if trns && s == key { 0 } else { max }], max),
                        2 | 6 => lin_px(&[s[0], s[1], s[2], if ct == 6 { s[3] } else if trns && s == key { 0 } else { max }], max),
                        _ => {
                            let i = s[0] as usize;
                            let a = if trns { t3.get(i).copied().unwrap_or(255) } else { 255 };
                            lin_px(&[plte[i * 3] as u32, plte[i * 3 + 1] as u32, plte[i * 3 + 2] as u32, a as u32], 255)
                        }
                    }
                };
                let d = check_pixels(&file, w, h, &want, 2e-6).map_err(|e| format!("{}x{}: {}", w, h, e))?;
                c.obs(true, &bits(&d));
            }
            Ok(())
        });
    });

    // BMP 24/32/8/4/1 bit, bottom-up and top-down
    for bpp in [1u16, 4, 8, 24, 32] {
        for top_down in [false, true] {
            ctx.case(&format!("decode-bmp/{}{}", bpp, if top_down { "-topdown" } else { "" }), |c| {
                for w in 1..=ctx.pick(9u32, 17) {
                    for h in 1..=4u32 {
                        let n = if bpp <= 8 { 1u32 << bpp } else { 0 };
                        let pal: Vec<[u8; 3]> = (0..n).map(|i| [(i * 5 % 256) as u8, (255 - i) as u8, (i * 11 % 256) as u8]).collect();
                        let px = move |x: u32, y: u32| -> u32 { (x * 7 + y * 29 + 1) % n.max(1) };
                        let rgb = move |x: u32, y: u32| [(x * 31 + 5) as u8, (y * 67 + 9) as u8, (x * y * 3 + 100) as u8];
                        let mut f = b"BM".to_vec();
                        let row = (w * bpp as u32).div_ceil(32) * 4;
                        let off = 14 + 40 + n * 4;
                        f.extend((off + row * h).to_le_bytes());
                        f.extend([0; 4]);
                        f.extend(off.to_le_bytes());
                        f.extend(40u32.to_le_bytes());
                        f.extend(w.to_le_bytes());
                        f.extend((if top_down { -(h as i32) } else { h as i32 }).to_le_bytes());
                        f.extend(1u16.to_le_bytes());
                        f.extend(bpp.to_le_bytes());
                        f.extend(0u32.to_le_bytes());
                        f.extend((row * h).to_le_bytes());
                        f.extend([0; 8]);
                        f.extend(n.to_le_bytes());
                        f.extend([0; 4]);
                        for p in &pal {
                            f.extend([p[2], p[1], p[0], 0]);
                        }
                        for r in 0..h {
                            let y = if top_down { r } else { h - 1 - r };
                            let mut line = vec![];
                            let (mut acc, mut bits_n) = (0u32, 0);
                            for x in 0..w {
                                match bpp {
                                    24 => { let p = rgb(x, y); line.extend([p[2], p[1], p[0]]) }
                                    32 => { let p = rgb(x, y); line.extend([p[2], p[1], p[0], 0]) }
                                    _ => {
                                        acc = (acc << bpp) | px(x, y);
                                        bits_n += bpp;
                                        if bits_n == 8 { line.push(acc as u8); acc = 0; bits_n = 0; }
                                    }
                                }
                            }
                            if bits_n > 0 { line.push((acc << (8 - bits_n)) as u8); }
                            line.resize(row as usize, 0);
                            f.extend(line);
                        }
                        let want = |x: u32, y: u32| {
                            let p = if bpp <= 8 { pal[px(x, y) as usize] } else { rgb(x, y) };
                            lin_px(&[p[0] as u32, p[1] as u32, p[2] as u32, 255], 255)
                        };
                        let d = check_pixels(&f, w, h, &want, 2e-6).map_err(|e| format!("{}x{}: {}", w, h, e))?;
                        c.obs(true, &bits(&d));
                    }
                }
                Ok(())
            });
        }
    }

    // GIF: first frame, interlaced and plain, with and without a transparent index
    for inter in [false, true] {
        for transparent in [None, Some(0u8), Some(3)] {
            for frames in [1, 2] {
                ctx.case(&format!("decode-gif/{}-{:?}-{}", inter, transparent, frames), |c| {
                    for (w, h) in [(1u16, 1u16), (2, 9), (5, 7), (16, 16), (3, 33)] {
                        let pal: Vec<u8> = (0..8u8).flat_map(|i| [i * 30, 255 - i * 20, i * 9 + 40]).collect();
                        let idx = |fr: u32, x: u32, y: u32| ((x * 3 + y * 5 + fr) % 8) as u8;
                        let mut out = vec![];
                        {
                            let mut e = gif::Encoder::new(&mut out, w, h, &pal).map_err(|e| e.to_string())?;
                            for fr in 0..frames {
                                let rows: Vec<u32> = if inter {
                                    let h = h as u32;
                                    (0..h).step_by(8).chain((4..h).step_by(8)).chain((2..h).step_by(4)).chain((1..h).step_by(2)).collect()
                                } else {
                                    (0..h as u32).collect()
                                };
                                let data: Vec<u8> = rows.iter().flat_map(|y| (0..w as u32).map(move |x| idx(fr, x, *y))).collect();
                                let f = gif::Frame { width: w, height: h, interlaced: inter, transparent, buffer: data.into(), ..Default::default() };
                                e.write_frame(&f).map_err(|e| e.to_string())?;
                            }
                        }
                        let want = |x: u32, y: u32| {
                            let i = idx(0, x, y);
                            let k = i as usize * 3;
                            lin_px(&[pal[k] as u32, pal[k + 1] as u32, pal[k + 2] as u32, if Some(i) == transparent { 0 } else { 255 }], 255)
                        };
                        let d = check_pixels(&out, w as u32, h as u32, &want, 2e-6).map_err(|e| format!("{}x{}: {}", w, h, e))?;
                        c.obs(true, &bits(&d));
                    }
                    Ok(())
                });
            }
        }
    }

    // JPEG: gray, RGB, CMYK
    for (name, ct, n) in [("luma", jpeg_encoder::ColorType::Luma, 1usize), ("rgb", jpeg_encoder::ColorType::Rgb, 3), ("cmyk", jpeg_encoder::ColorType::Cmyk, 4), ("ycck", jpeg_encoder::ColorType::CmykAsYcck, 4)] {
        for prog in [false, true] {
            // one block for each mix of levels
            ctx.case(&format!("decode-jpeg-mixes/{}{}", name, if prog { "-prog" } else { "" }), |c| {
                let lv: Vec<u8> = match n {
                    1 => (0..=255).collect(),
                    3 => vec![0, 1, 2, 3, 5, 9, 64, 127, 128, 200, 251, 254, 255],
                    _ => vec![0, 1, 3, 127, 200, 254, 255],
                };
                let blocks = lv.len().pow(n as u32);
                let across = (blocks as f64).sqrt().ceil() as usize;
                let (w, h) = (across * 8, blocks.div_ceil(across) * 8);
                let data: Vec<u8> = (0..w * h)
                    .flat_map(|i| {
                        let b = (i % w / 8 + i / w / 8 * across) % blocks;
                        (0..n).map(|k| lv[b / lv.len().pow(k as u32) % lv.len()]).collect::<Vec<u8>>()
                    })
                    .collect();
                let mut out = vec![];
                let mut e = jpeg_encoder::Encoder::new(&mut out, 100);
                e.set_progressive(prog);
                e.set_sampling_factor(jpeg_encoder::SamplingFactor::F_1_1);
                e.encode(&data, w as u16, h as u16, ct).map_err(|e| format!("{:?}", e))?;
                let (_, _, _, raw) = raw_jpeg(&out)?;
                let want = |x: u32, y: u32| {
                    let p = raw[(x + y * w as u32) as usize];
                    if n == 4 {
                        let f = |k: usize| srgb_to_lin((255 - p[k]) as f64 * (255 - p[3]) as f64 / 65025.0);
                        [f(0), f(1), f(2), 1.0]
                    } else {
                        lin_px(&[p[0], p[1], p[2], 255], 255)
                    }
                };
                let d = check_pixels(&out, w as u32, h as u32, &want, 3e-6)?;
                c.obs(true, &bits(&d));
                Ok(())
            });
            ctx.case(&format!("decode-jpeg/{}{}", name, if prog { "-prog" } else { "" }), |c| {
                for (w, h) in [(1u16, 1u16), (8, 8), (17, 9), (3, 20), (40, 33)] {
                    for pat in 0..4 {
                        let data: Vec<u8> = (0..w as usize * h as usize)
                            .flat_map(|i| {
                                let (x, y) = (i % w as usize, i / w as usize);
                                (0..n).map(move |k| match pat {
                                    0 => 0,
                                    1 => 255,
                                    2 => (x * 6 + k * 40) as u8,
                                    _ => ((x / 8 + y / 8 + k) * 51) as u8,
                                })
                            })
                            .collect();
                        let mut out = vec![];
                        let mut e = jpeg_encoder::Encoder::new(&mut out, 90);
                        e.set_progressive(prog);
                        e.encode(&data, w, h, ct).map_err(|e| format!("{:?}", e))?;
                        let (_, _, _, raw) = raw_jpeg(&out)?;
                        let want = |x: u32, y: u32| {
                            let p = raw[(x + y * w as u32) as usize];
                            if n == 4 {
                                let f = |k: usize| srgb_to_lin((255 - p[k]) as f64 * (255 - p[3]) as f64 / 65025.0);
                                [f(0), f(1), f(2), 1.0]
                            } else {
                                lin_px(&[p[0], p[1], p[2], 255], 255)
                            }
                        };
                        let d = check_pixels(&out, w as u32, h as u32, &want, 3e-6).map_err(|e| format!("{}x{}: {}", w, h, e))?;
                        c.obs(true, &bits(&d));
                    }
                }
                Ok(())
            });
        }
    }
}

// ---- C03 --------------------------------------------------------------------------------------

pub const RULE3: &str = "A case is (format with options, image) over the full product of encoder options. Oracle: container headers (PNG colour type, depth and row filters, JPEG frame type, components, sampling, quantisation and Huffman tables, WebP bitstream kind) against what was asked, and decoded pixels against the source within a bound given by the quality. Every option also on 15 classes of image (opaque, transparent, gray, two-coloured, one row, ...). Non-trivial: file produced; outcomes hashed by content.";
pub const ASSUME3: &[&str] = &["the loss bound is asserted for flat and quadrant images only; elsewhere JPEG/WebP loss is unbounded by design", "reference quantisation tables come from the jpeg-encoder library at the same quality"];

#[derive(Debug, PartialEq)]
struct JpegHead {
    sof: u8,
    comps: Vec<(u8, u8)>,
    dqt: Vec<Vec<u8>>,
    dht: Vec<Vec<u8>>,
    scans: usize,
}

fn jpeg_head(b: &[u8]) -> Result<JpegHead, String> {
    let mut h = JpegHead { sof: 0, comps: vec![], dqt: vec![], dht: vec![], scans: 0 };
    let mut i = 2;
    while i + 4 <= b.len() {
        if b[i] != 0xFF || b[i + 1] == 0 || (0xD0..=0xD7).contains(&b[i + 1]) {
            i += 1;
            continue;
        }
        let m = b[i + 1];
        if m == 0xD9 {
            break;
        }
        let len = u16::from_be_bytes([b[i + 2], b[i + 3]]) as usize;
        let d = &b[i + 4..(i + 2 + len).min(b.len())];
        match m {
            0xC0..=0xC2 => {
                h.sof = m;
                for k in 0..d[5] as usize {
                    h.comps.push((d[7 + k * 3] >> 4, d[7 + k * 3] & 15));
                }
            }
            0xDB => h.dqt.push(d.to_vec()),
            0xC4 => h.dht.push(d.to_vec()),
            0xDA => h.scans += 1,
            _ => {}
        }
        i += 2 + len;
    }
    ensure!(h.sof != 0, "no frame header");
    Ok(h)
}

fn ref_jpeg(q: u8, prog: bool, sf: Option<jpeg_encoder::SamplingFactor>, gray: bool, opt: bool) -> Result<JpegHead, String> {
    let mut out = vec![];
    let mut e = jpeg_encoder::Encoder::new(&mut out, q);
    if let Some(s) = sf {
        e.set_sampling_factor(s);
    }
    e.set_progressive(prog);
    e.set_optimized_huffman_tables(opt);
    let n = if gray { 1 } else { 3 };
    let data = vec![128u8; 16 * 16 * n];
    e.encode(&data, 16, 16, if gray { jpeg_encoder::ColorType::Luma } else { jpeg_encoder::ColorType::Rgb }).map_err(|e| format!("{:?}", e))?;
    jpeg_head(&out)
}

fn png_filters(b: &[u8], row: usize) -> Result<Vec<u8>, String> {
    let mut i = 8;
    let mut z = vec![];
    while i + 12 <= b.len() {
        let len = u32::from_be_bytes(b[i..i + 4].try_into().unwrap()) as usize;
        if &b[i + 4..i + 8] == b"IDAT" {
            z.extend(&b[i + 8..i + 8 + len]);
        }
        i += 12 + len;
    }
    let mut raw = vec![];
    flate2::read::ZlibDecoder::new(&z[..]).read_to_end(&mut raw).map_err(|e| e.to_string())?;
    Ok(raw.chunks(row + 1).map(|r| r[0]).collect())
}

fn quadrants(w: u32, h: u32) -> PixelBuffer<Rgb> {
    buf(w, h, |x, y| match (x * 2 >= w, y * 2 >= h) {
        (false, false) => px8(200, 40, 40, 255),
        (true, false) => px8(40, 190, 60, 255),
        (false, true) => px8(50, 60, 210, 255),
        _ => px8(230, 220, 90, 255),
    })
}

fn luma_lv(p: &[f64]) -> f64 {
    p[0] * 0.299 + p[1] * 0.587 + p[2] * 0.114
}

pub fn run3(ctx: &'static Ctx) {
    // PNG
    let mut items = vec![];
    for (ti, (t, n)) in PNG_TYPES.iter().enumerate() {
        for (c, nc) in PNG_COMP {
            for (fi, (f, nf)) in PNG_FILT.iter().enumerate() {
                items.push((ti, *t, format!("png-{}-{}-{}", n, nc, nf), c, fi, *f));
            }
        }
    }
    par(&items, |(ti, t, name, comp, fi, filt)| {
        ctx.case(&format!("options/{}", name), |c| {
            let img = photo(37, 23);
            let out = enc(&img, &png(*t, *comp, *filt))?;
            let (depth, ct) = [(8, 0), (8, 4), (16, 0), (16, 4), (8, 2), (8, 6), (16, 2), (16, 6)][*ti];
            ensure!(out[24] == depth, "bit depth {} instead of {}", out[24], depth);
            ensure!(out[25] == ct, "colour type {} instead of {}", out[25], ct);
            let ch = [1, 2, 1, 2, 3, 4, 3, 4][*ti];
            let filters = png_filters(&out, 37 * ch * depth as usize / 8)?;
            ensure!(filters.len() == 23, "{} rows", filters.len());
            if !matches!(comp, d10::PngCompression::Fast) || filters.iter().all(|f| *f as usize == *fi) {
                ensure!(filters.iter().all(|f| *f as usize == *fi), "row filters {:?} instead of {}", filters, fi);
            }
            c.obs(true, &out);
            Ok(())
        });
    });
    ctx.case("png-compression-order", |c| {
        for (fi, (filt, _)) in PNG_FILT.iter().enumerate() {
            let img = buf(200, 150, |x, y| px8(((x / 7) * (y / 5)) as u8, (x ^ y) as u8, (x * x / 50) as u8, 255));
            let s: Vec<usize> = PNG_COMP.iter().map(|(c, _)| enc(&img, &png(d10::PngColorType::Rgba8, *c, *filt)).map(|v| v.len())).collect::<Result<_, _>>()?;
            // reference sizes from the png library
            let mut want = vec![];
            for comp in [png::Compression::Default, png::Compression::Fast, png::Compression::Best] {
                let mut out = vec![];
                let mut e = png::Encoder::new(&mut out, 200, 150);
                e.set_color(png::ColorType::Rgba);
                e.set_depth(png::BitDepth::Eight);
                e.set_compression(comp);
                e.set_filter([png::FilterType::NoFilter, png::FilterType::Sub, png::FilterType::Up, png::FilterType::Avg, png::FilterType::Paeth][fi]);
                let raw: Vec<u8> = img.data().iter().flat_map(|p| levels(p, 255.0).map(|v| v.round() as u8)).collect();
                let mut w = e.write_header().map_err(|e| e.to_string())?;
                w.write_image_data(&raw).map_err(|e| e.to_string())?;
                w.finish().map_err(|e| e.to_string())?;
                want.push(out.len());
            }
            c.obs(true, &s);
            for i in 0..3 {
                for j in 0..3 {
                    ensure!((want[i] as i64 - want[j] as i64).signum() == (s[i] as i64 - s[j] as i64).signum() || (want[i] as i64 - want[j] as i64).abs() < 64, "sizes by compression {:?}, the png library gives {:?}", s, want);
                }
            }
        }
        Ok(())
    });

    // JPEG header
    let mut items = vec![];
    let mut sfs: Vec<Option<usize>> = vec![None];
    sfs.extend((0..SAMPLING.len()).map(Some));
    for q in 0..=255u16 {
        let q = q as u8;
        let full = !ctx.quick() || [0, 1, 49, 50, 85, 89, 90, 91, 100, 101, 255].contains(&q);
        for sf in if full { sfs.clone() } else { vec![None] } {
            for b in 0..8 {
                if !full && b != (q as usize % 8) {
                    continue;
                }
                items.push((q, sf, b & 1 != 0, b & 2 != 0, b & 4 != 0));
            }
        }
    }
    par(&items, |(q, sf, prog, gray, opt)| {
        let (q, prog, gray, opt) = (*q, *prog, *gray, *opt);
        let n = sf.map(|i| SAMPLING[i].1).unwrap_or("auto");
        ctx.case(&format!("options/jpeg-q{}-{}-p{}g{}o{}", q, n, prog as u8, gray as u8, opt as u8), |c| {
            let img = photo(21, 17);
            let out = enc(&img, &jpeg(q, prog, sf.map(|i| SAMPLING[i].0), gray, opt))?;
            let h = jpeg_head(&out)?;
            c.obs(true, &out);
            let eq = q.clamp(1, 100);
            ensure!((h.sof == 0xC2) == prog, "progressive={} gives frame type {:x}", prog, h.sof);
            ensure!(h.comps.len() == if gray { 1 } else { 3 }, "{} components", h.comps.len());
            let lib = sf.map(|i| jpeg_encoder::SamplingFactor::from_factors(SAMPLING[i].2 .0, SAMPLING[i].2 .1).unwrap());
            let r = ref_jpeg(eq, prog, lib, gray, opt)?;
            ensure!(h.dqt == r.dqt, "quantisation tables are not those of quality {}", eq);
            if !gray {
                let ratio = (h.comps[0].0 / h.comps[1].0, h.comps[0].1 / h.comps[1].1);
                if let Some(i) = sf {
                    ensure!(ratio == SAMPLING[*i].2, "sampling {:?} instead of {:?}", ratio, SAMPLING[*i].2);
                }
                ensure!(h.comps == r.comps, "component sampling {:?} instead of {:?}", h.comps, r.comps);
            }
            let std = ref_jpeg(eq, false, lib, gray, false)?.dht;
            if !prog {
                ensure!((h.dht != std) == opt, "optimize_huffman_tables={} but tables are {}standard", opt, if h.dht == std { "" } else { "not " });
            }
            ensure!(!prog || h.scans > 1, "progressive with {} scans", h.scans);
            let d = dec(&out)?;
            well_formed(&d)?;
            ensure!((d.width(), d.height()) == (21, 17), "{}x{}", d.width(), d.height());
            ensure!(d.data().iter().all(|p| p.alpha() == 1.0), "jpeg pixels must be opaque");
            if gray {
                ensure!(d.data().iter().all(|p| p.data[0] == p.data[1] && p.data[1] == p.data[2]), "gray jpeg decodes to colours");
            }
            Ok(())
        });
    });

    // WebP stream kind and libwebp reference
    let mut items = vec![];
    for (p, n) in WEBP {
        for q in 0..=ctx.pick(20u8, 51) {
            items.push((p, n, q.saturating_mul(if ctx.quick() { 13 } else { 5 })));
        }
    }
    par(&items, |(p, n, q)| {
        ctx.case(&format!("options/webp-{}-q{}", n, q), |c| {
            for alpha in [false, true] {
                // a quarter level above each level, so that rounding down and to the nearest agree
                let q4 = |l: u8| srgb_to_lin((l.min(254) as f64 + 0.25) / 255.0) as f32;
                let img = buf(37, 23, |x, y| Rgb {
                    data: [q4((x * 5) as u8), q4((y * 9) as u8), q4((x * y) as u8), if alpha && x > 0 { (255.25 - (x * 3) as f32) / 255.0 } else { 1.0 }],
                });
                let out = enc(&img, &EF::WebP { quality: *q, preset: *p })?;
                c.obs(true, &out);
                let kinds: Vec<&[u8]> = {
                    let mut v = vec![];
                    let mut i = 12;
                    while i + 8 <= out.len() {
                        v.push(&out[i..i + 4]);
                        let l = u32::from_le_bytes(out[i + 4..i + 8].try_into().unwrap()) as usize;
                        i += 8 + l + (l & 1);
                    }
                    v
                };
                ensure!(kinds.contains(&&b"VP8L"[..]) == (*n == "lossless"), "chunks {:?}", kinds.iter().map(|k| String::from_utf8_lossy(k).into_owned()).collect::<Vec<_>>());
                ensure!(kinds.contains(&&b"VP8 "[..]) == (*n != "lossless"), "chunks {:?}", kinds.iter().map(|k| String::from_utf8_lossy(k).into_owned()).collect::<Vec<_>>());
                if *n != "lossless" {
                    let r = ref_webp(&img, *p, (*q).min(100) as f32)?;
                    ensure!(r == out, "{} bytes; libwebp gives {} bytes for this preset and quality", out.len(), r.len());
                }
                let d = dec(&out)?;
                well_formed(&d)?;
                for (i, (a, b)) in img.data().iter().zip(d.data()).enumerate() {
                    ensure!((a.alpha() - b.alpha()).abs() < 0.5 / 255.0, "pixel {}: alpha {} became {}", i, a.alpha(), b.alpha());
                }
            }
            Ok(())
        });
    });

    // every option on every kind of image: what is written depends on the options, not on the image
    let classes: Vec<(&'static str, PixelBuffer<Rgb>)> = {
        let f = |n: &'static str, w: u32, h: u32, p: fn(u32, u32) -> Rgb| (n, buf(w, h, p));
        vec![
            f("opaque", 19, 11, |x, y| px8((x * 13) as u8, (y * 23) as u8, (x * y) as u8, 255)),
            f("transparent", 19, 11, |x, y| px8((x * 13) as u8, (y * 23) as u8, (x * y) as u8, (x * 9 + y * 3 + 1) as u8)),
            f("one-transparent", 19, 11, |x, y| px8((x * 13) as u8, (y * 23) as u8, (x * y) as u8, if (x, y) == (18, 10) { 254 } else { 255 })),
            f("gray", 19, 11, |x, y| px8((x * 9 + y * 5) as u8, (x * 9 + y * 5) as u8, (x * 9 + y * 5) as u8, 255)),
            f("gray-transparent", 19, 11, |x, y| px8((x * 9 + y * 5) as u8, (x * 9 + y * 5) as u8, (x * 9 + y * 5) as u8, (y * 20 + 1) as u8)),
            f("almost-gray", 19, 11, |x, y| px8((x * 9) as u8, (x * 9) as u8, if (x, y) == (0, 0) { 9 } else { (x * 9) as u8 }, 255)),
            f("one-colour", 12, 12, |_, _| px8(200, 30, 70, 255)),
            f("two-colours", 16, 5, |x, _| if x % 2 == 0 { px8(0, 0, 0, 255) } else { px8(255, 255, 255, 255) }),
            f("pixel", 1, 1, |_, _| px8(1, 2, 3, 255)),
            f("pixel-transparent", 1, 1, |_, _| px8(1, 2, 3, 4)),
            f("row", 40, 1, |x, _| px8((x * 6) as u8, 255 - (x * 6) as u8, 7, 255)),
            f("column", 1, 40, |_, y| px8((y * 6) as u8, 255 - (y * 6) as u8, 7, 200)),
            f("wide", 300, 2, |x, y| px8(x as u8, (x / 2) as u8, (y * 99) as u8, 255)),
            f("large", 150, 130, |x, y| px8((x * y) as u8, (x * 3) as u8, (y * 2) as u8, 255)),
            f("gray-large", 150, 130, |x, y| { let v = (x * 3 + y * 5) as u8; px8(v, v, v, 255) }),
            f("gray-transparent-large", 130, 40, |x, y| { let v = (x * 3 + y * 5) as u8; px8(v, v, v, (x + y) as u8) }),
            f("transparent-large", 90, 70, |x, y| px8((x * y) as u8, (x * 3) as u8, (y * 2) as u8, (x * 2 + y) as u8)),
            f("last-transparent-large", 90, 70, |x, y| px8((x * y) as u8, (x * 3) as u8, (y * 2) as u8, if (x, y) == (89, 69) { 0 } else { 255 })),
            f("last-coloured-large", 90, 70, |x, y| { let v = (x * 3 + y * 5) as u8; px8(v, v, if (x, y) == (89, 69) { v ^ 64 } else { v }, 255) }),
            f("black-large", 90, 70, |_, _| px8(0, 0, 0, 255)),
            f("white-large", 90, 70, |_, _| px8(255, 255, 255, 255)),
            f("invisible-large", 90, 70, |_, _| px8(0, 0, 0, 0)),
            f("two-colours-large", 200, 120, |x, y| if (x + y) % 3 == 0 { px8(0, 0, 0, 255) } else { px8(255, 255, 255, 255) }),
            f("clipped", 7, 5, |x, y| Rgb { data: [x as f32 - 2.0, y as f32 * 0.5 - 0.5, 1.5, 1.0 + x as f32] }),
        ]
    };
    let mut items = vec![];
    for (k, _) in classes.iter().enumerate() {
        for (name, f) in formats_all() {
            items.push((k, name, f));
        }
    }
    par(&items, |(k, name, f)| {
        let (cn, img) = &classes[*k];
        ctx.case(&format!("kinds/{}/{}", cn, name), |c| {
            let (w, h) = (img.width(), img.height());
            if matches!(f, EF::Ico { .. }) && (w > 256 || h > 256) {
                ensure!(enc(img, f).is_err(), "an icon of {}x{} is written", w, h);
                return Ok(());
            }
            let out = enc(img, f)?;
            c.obs(true, &out);
            let lv8: Vec<[u8; 4]> = img.data().iter().map(|p| levels(p, 255.0).map(|v| (v + 1e-4).round().clamp(0.0, 255.0) as u8)).collect();
            match f {
                EF::Png { color_type, filter, .. } => {
                    let i = PNG_TYPES.iter().position(|(t, _)| *t as u8 == *color_type as u8).unwrap();
                    let (depth, ct) = [(8, 0), (8, 4), (16, 0), (16, 4), (8, 2), (8, 6), (16, 2), (16, 6)][i];
                    ensure!((out[24], out[25], out[28]) == (depth, ct, 0), "depth {} type {} interlace {}", out[24], out[25], out[28]);
                    let fi = PNG_FILT.iter().position(|(t, _)| *t as u8 == *filter as u8).unwrap();
                    let rows = png_filters(&out, w as usize * [1, 2, 1, 2, 3, 4, 3, 4][i] * depth as usize / 8)?;
                    ensure!(rows.len() == h as usize, "{} rows", rows.len());
                    // the library may store fast compressed images without filter
                    ensure!(name.contains("-fast-") || rows.iter().all(|f| *f as usize == fi), "row filters {:?}", rows);
                }
                EF::Bmp { color_type } => {
                    let i = BMP_TYPES.iter().position(|(t, _)| *t as u8 == *color_type as u8).unwrap();
                    let want = [8, 32, 24, 32][i];
                    let bpp = u16::from_le_bytes([out[28], out[29]]);
                    ensure!(bpp == want || i == 1, "{} bits per pixel instead of {}", bpp, want);
                }
                EF::Ico { .. } => {
                    ensure!(out[..6] == [0, 0, 1, 0, 1, 0], "directory {:?}", &out[..6]);
                    ensure!((out[6], out[7]) == (w as u8, h as u8), "entry says {}x{}", out[6], out[7]);
                }
                EF::Gif => ensure!(&out[..6] == b"GIF89a", "{:?}", &out[..6]),
                EF::Jpeg { quality, progressive, sampling_factor, grayscale, optimize_huffman_tables } => {
                    use jpeg_encoder::ColorType as T;
                    let mut want = vec![];
                    let mut e = jpeg_encoder::Encoder::new(&mut want, (*quality).clamp(1, 100));
                    if let Some(s) = sampling_factor {
                        let i = SAMPLING.iter().position(|x| x.0 == *s).unwrap();
                        e.set_sampling_factor(jpeg_encoder::SamplingFactor::from_factors(SAMPLING[i].2 .0, SAMPLING[i].2 .1).unwrap());
                    }
                    e.set_progressive(*progressive);
                    e.set_optimized_huffman_tables(*optimize_huffman_tables);
                    if *grayscale {
                        let is_gray = lv8.iter().all(|p| p[0] == p[1] && p[1] == p[2]);
                        if is_gray {
                            let d: Vec<u8> = lv8.iter().map(|p| p[0]).collect();
                            e.encode(&d, w as u16, h as u16, T::Luma).map_err(|e| e.to_string())?;
                            ensure!(out == want, "{} bytes, the encoder library gives {} bytes for these options", out.len(), want.len());
                        }
                    } else {
                        let d: Vec<u8> = lv8.iter().flat_map(|p| [p[0], p[1], p[2]]).collect();
                        e.encode(&d, w as u16, h as u16, T::Rgb).map_err(|e| e.to_string())?;
                        ensure!(out == want, "{} bytes, the encoder library gives {} bytes for these options", out.len(), want.len());
                    }
                    let head = jpeg_head(&out)?;
                    ensure!((head.sof == 0xC2) == *progressive && head.comps.len() == if *grayscale { 1 } else { 3 }, "frame {:x} with {} components", head.sof, head.comps.len());
                }
                EF::WebP { quality, preset } => {
                    let lossless = out.windows(4).any(|x| x == b"VP8L");
                    let lossy = out[12..].windows(4).any(|x| x == b"VP8 ");
                    let want = *preset == d10::WebPPreset::Lossless;
                    ensure!(lossless == want || !want && lossy, "lossless {} lossy {}", lossless, lossy);
                    let _ = quality;
                }
            }
            // what is stored: the colours in the channels of the type
            let stored_lv = stored(f, &out)?;
            ensure!((stored_lv.0, stored_lv.1) == (w, h), "stores {}x{}", stored_lv.0, stored_lv.1);
            if !f_is_lossy(f) && !matches!(f, EF::Gif) {
                let caps = if matches!(f, EF::WebP { .. }) { Caps { gray: false, alpha: true, max: 255 } } else { lossless().into_iter().find(|x| x.0 == *name || format!("{:?}", x.1) == format!("{:?}", f)).map(|x| x.2).ok_or("no caps")? };
                let m = stored_lv.2 as f64;
                for (i, (p, s)) in img.data().iter().zip(&stored_lv.3).enumerate() {
                    let q = levels(p, m);
                    if *cn == "transparent" || !caps.gray {
                        for k in 0..3 {
                            if caps.gray { continue; }
                            let want = q[k].clamp(0.0, m);
                            ensure!((want - s[k] as f64).abs() <= 0.51, "pixel {}: channel {} of {:?} is stored as {}", i, k, q, s[k]);
                        }
                    }
                    let want = if caps.alpha { q[3].clamp(0.0, m) } else { m };
                    ensure!((want - s[3] as f64).abs() <= 0.51, "pixel {}: alpha {} is stored as {}", i, want, s[3]);
                }
            }
            Ok(())
        });
    });

    // bounded loss and orientation
    let formats = formats_all();
    par(&formats, |(name, f)| {
        let gray = name.contains("g1o") || name.contains("png-l") || name.contains("bmp-l") || name.contains("ico-l");
        let (tol, flat_tol): (f64, f64) = match f {
            EF::Jpeg { quality, .. } => if *quality >= 85 { (14.0, 6.0) } else if *quality >= 50 { (40.0, 14.0) } else { (150.0, 110.0) },
            EF::WebP { quality, preset } if *preset != d10::WebPPreset::Lossless => if *quality >= 90 { (20.0, 8.0) } else if *quality >= 50 { (30.0, 12.0) } else { (60.0, 30.0) },
            _ => (1.0, 1.0),
        };
        let compare = |img: &PixelBuffer<Rgb>, d: &PixelBuffer<Rgb>, pts: &[(u32, u32)], tol: f64| -> Res {
            ensure!((d.width(), d.height()) == (img.width(), img.height()), "{}x{}", d.width(), d.height());
            for (x, y) in pts {
                let (mut a, mut b) = (levels(img.get_pixel(*x, *y), 255.0), levels(d.get_pixel(*x, *y), 255.0));
                if gray {
                    let g = levels(&img.get_pixel(*x, *y).to_gray(), 255.0)[0];
                    a = [g, g, g, a[3]];
                }
                if tol > 100.0 {
                    let (p, q) = (luma_lv(&a), luma_lv(&b));
                    a = [p; 4];
                    b = [q; 4];
                }
                for k in 0..3 {
                    ensure!((a[k] - b[k]).abs() <= tol, "pixel ({},{}) levels {:?} became {:?}", x, y, a, b);
                }
            }
            Ok(())
        };
        ctx.case(&format!("loss/{}", name), |c| {
            for (w, h) in [(64u32, 64u32), (40, 96), (97, 50)] {
                let img = quadrants(w, h);
                let d = dec(&enc(&img, f)?)?;
                c.obs(true, &bits(&d));
                let pts: Vec<_> = [(1, 1), (3, 1), (1, 3), (3, 3)].iter().map(|(x, y)| (w * x / 4, h * y / 4)).collect();
                compare(&img, &d, &pts, tol)?;
            }
            for k in 0..27u32 {
                let img = PixelBuffer::new_with_color(9, 5, px8((k % 3 * 127) as u8, (k / 3 % 3 * 127) as u8, (k / 9 * 127) as u8, 255));
                let d = dec(&enc(&img, f)?)?;
                compare(&img, &d, &[(0, 0), (8, 4), (4, 2)], flat_tol.max(if f_is_lossy(f) { 6.0 } else { 1.0 }))?;
            }
            Ok(())
        });
    });

    // simulated jpeg quality
    let qs: Vec<u8> = if ctx.quick() { vec![0, 1, 10, 50, 85, 89, 90, 100, 101, 255] } else { (0..=255).collect() };
    par(&qs, |q| {
        for keep in [false, true] {
            ctx.case(&format!("jpeg-quality/{}-{}", q, keep), |c| {
                for (w, h) in [(1u32, 1u32), (5, 3), (17, 9), (40, 30)] {
                    let img = photo(w, h);
                    let before = bits(&img);
                    let got = d10_ops::jpeg_quality(&img, *q, keep);
                    c.obs(true, &bits(&got));
                    ensure!(bits(&img) == before, "the source changed");
                    let mut want = dec(&enc(&img, &EF::jpeg_with_quality(*q))?)?;
                    let full = EF::Jpeg { quality: *q, progressive: false, sampling_factor: None, grayscale: false, optimize_huffman_tables: true };
                    same(&dec(&enc(&img, &full)?)?, &want)?;
                    for (a, b) in img.data().iter().zip(want.data_mut()) {
                        b.data[3] = if keep { a.data[3] } else { 1.0 };
                    }
                    same(&got, &want)?;
                }
                Ok(())
            });
        }
    });

    ctx.case("defaults", |c| {
        let img = photo(33, 20);
        for (a, b) in [
            (EF::jpeg_default(), jpeg(85, false, None, false, true)),
            (EF::jpeg_with_quality(30), jpeg(30, false, None, false, true)),
            (EF::png_default(), png(d10::PngColorType::Rgba8, d10::PngCompression::Default, d10::PngFilterType::Sub)),
            (EF::bmp_default(), EF::Bmp { color_type: d10::BmpColorType::Rgba8 }),
            (EF::ico_default(), EF::Ico { color_type: d10::IcoColorType::Rgba8 }),
            (EF::webp_default(), EF::WebP { quality: 90, preset: d10::WebPPreset::Default }),
            (EF::webp_with_quality(30), EF::WebP { quality: 30, preset: d10::WebPPreset::Default }),
            (EF::webp_with_preset(30, d10::WebPPreset::Photo), EF::WebP { quality: 30, preset: d10::WebPPreset::Photo }),
        ] {
            let (x, y) = (enc(&img, &a)?, enc(&img, &b)?);
            c.obs(true, &x);
            ensure!(x == y, "{:?} is not {:?}", a, b);
            ensure!(a.format() == b.format(), "format()");
        }
        Ok(())
    });
}

fn f_is_lossy(f: &EF) -> bool {
    match f {
        EF::Jpeg { .. } => true,
        EF::WebP { preset, .. } => *preset != d10::WebPPreset::Lossless,
        _ => false,
    }
}

extern "C" fn webp_write(data: *const u8, n: usize, pic: *const libwebp_sys::WebPPicture) -> std::os::raw::c_int {
    unsafe {
        let v = &mut *((*pic).custom_ptr as *mut Vec<u8>);
        v.extend_from_slice(std::slice::from_raw_parts(data, n));
    }
    1
}

fn ref_webp(img: &PixelBuffer<Rgb>, p: d10::WebPPreset, q: f32) -> Result<Vec<u8>, String> {
    use libwebp_sys::*;
    let preset = match p {
        d10::WebPPreset::Default => libwebp_sys::WebPPreset::WEBP_PRESET_DEFAULT,
        d10::WebPPreset::Picture => libwebp_sys::WebPPreset::WEBP_PRESET_PICTURE,
        d10::WebPPreset::Photo => libwebp_sys::WebPPreset::WEBP_PRESET_PHOTO,
        d10::WebPPreset::Drawing => libwebp_sys::WebPPreset::WEBP_PRESET_DRAWING,
        d10::WebPPreset::Icon => libwebp_sys::WebPPreset::WEBP_PRESET_ICON,
        _ => libwebp_sys::WebPPreset::WEBP_PRESET_TEXT,
    };
    unsafe {
        let config = WebPConfig::new_with_preset(preset, q).map_err(|_| "config")?;
        let mut pic = WebPPicture::new().map_err(|_| "picture")?;
        let mut out: Vec<u8> = vec![];
        let argb: Vec<u32> = img
            .data()
            .iter()
            .map(|p| {
                let l = levels(p, 255.0).map(|v| v.round() as u32);
                l[3] << 24 | l[0] << 16 | l[1] << 8 | l[2]
            })
            .collect();
        pic.use_argb = 1;
        pic.width = img.width() as i32;
        pic.height = img.height() as i32;
        pic.argb = argb.as_ptr() as *mut u32;
        pic.argb_stride = pic.width;
        pic.writer = Some(webp_write);
        pic.custom_ptr = &mut out as *mut _ as *mut std::ffi::c_void;
        let r = WebPEncode(&config, &mut pic);
        WebPPictureFree(&mut pic);
        ensure!(r != 0, "libwebp refused");
        Ok(out)
    }
}

// ---- C04 --------------------------------------------------------------------------------------

pub const RULE4: &str = "Seed files of every format and colour type; for each, every truncation and every single-byte change (8 bit flips and 8 special values quick, all 255 values thorough), pairs of header dimension fields over a boundary alphabet, all byte strings up to length 2 after every magic. Oracle: decode returns Ok with a consistent buffer (len = w*h, all values in 0..1) or Err; no panic, abort or hang. Non-trivial: every mutated decode; outcomes hashed by (case, position, outcome class).";
pub const ASSUME4: &[&str] = &["panics inside third-party decoders count as violations unless listed as known findings", "memory growth is bounded only by the sizes tried"];

fn outcome(b: &[u8]) -> Result<u8, String> {
    match guard(|| decode_buffer(b)) {
        Err(p) => Err(format!("panic: {}", p)),
        Ok(Err(_)) => Ok(0),
        Ok(Ok(d)) => {
            well_formed(&d.buffer)?;
            Ok(1)
        }
    }
}

fn seeds() -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    let img = photo(3, 2);
    for (n, f) in formats_small() {
        if let Ok(b) = enc(&img, &f) {
            v.push((n, b));
        }
    }
    let pal: Vec<u8> = (0..16u8).flat_map(|i| [i * 9, 255 - i, i]).collect();
    for (ct, d) in [(0u8, 1u8), (0, 2), (0, 4), (3, 1), (3, 2), (3, 4), (3, 8), (2, 16)] {
        let n = if ct == 2 { 3 } else { 1 };
        let m = (1u32 << d.min(4)) - 1;
        v.push((format!("png-t{}d{}i", ct, d), build_png(3, 3, ct, d, &|x, y| (0..n).map(|k| (x + y + k) % (m + 1)).collect(), if ct == 3 { Some(&pal) } else { None }, None, true)));
    }
    let mut cmyk = vec![];
    let _ = jpeg_encoder::Encoder::new(&mut cmyk, 80).encode(&[9u8; 4 * 9 * 3], 9, 3, jpeg_encoder::ColorType::Cmyk);
    v.push(("jpeg-cmyk".into(), cmyk));
    // ico with an embedded bmp
    let mut dib = vec![];
    dib.extend(40u32.to_le_bytes());
    dib.extend(2u32.to_le_bytes());
    dib.extend(4u32.to_le_bytes());
    dib.extend([1, 0, 32, 0]);
    dib.extend([0u8; 24]);
    dib.extend((0..16u8).map(|i| i * 13 + 20));
    dib.extend([0u8; 8]);
    let mut i = vec![0u8, 0, 1, 0, 1, 0, 2, 2, 0, 0, 1, 0, 32, 0];
    i.extend((dib.len() as u32).to_le_bytes());
    i.extend(22u32.to_le_bytes());
    i.extend(dib);
    v.push(("ico-bmp".into(), i));
    v
}

pub fn run4(ctx: &'static Ctx) {
    let seeds = seeds();
    let mut items = vec![];
    for (n, b) in &seeds {
        for block in 0..b.len().div_ceil(16) {
            items.push((n, b, block));
        }
    }
    par(&items, |(n, b, block)| {
        for i in block * 16..(block * 16 + 16).min(b.len()) {
            ctx.case(&format!("byte/{}/{}", n, i), |c| {
                let o = outcome(&b[..i])?;
                c.obs(true, &("cut", i, o));
                let mut m = b.to_vec();
                let old = m[i];
                let vals: Vec<u8> = if ctx.quick() {
                    let mut v: Vec<u8> = (0..8).map(|k| old ^ (1 << k)).collect();
                    v.extend([0, 255, 127, 128, 1, old.wrapping_add(1), old.wrapping_sub(1), !old]);
                    v.sort();
                    v.dedup();
                    v
                } else {
                    (0..=255).collect()
                };
                for v in vals {
                    if v == old {
                        continue;
                    }
                    m[i] = v;
                    let o = outcome(&m).map_err(|e| format!("byte {} = {:#04x}: {}", i, v, e))?;
                    c.obs(true, &(v, o));
                    // png: repair the checksum so that the change reaches the decoder proper
                    if n.starts_with("png") {
                        let mut r = m.clone();
                        fix_crcs(&mut r);
                        if r != m {
                            let o = outcome(&r).map_err(|e| format!("byte {} = {:#04x} with fixed checksum: {}", i, v, e))?;
                            c.obs(true, &(v, o, 1));
                        }
                    }
                }
                Ok(())
            });
        }
        if *block == 0 {
            ctx.case(&format!("seed/{}", n), |c| {
                let o = outcome(b)?;
                ensure!(o == 1, "the unmodified file does not decode");
                for extra in [1usize, 2, 100, 5000] {
                    let mut m = b.to_vec();
                    m.extend(vec![0x55; extra]);
                    let o = outcome(&m)?;
                    c.obs(true, &(extra, o));
                }
                Ok(())
            });
        }
    });

    // complete files whose sides are the largest the format can have
    use d10::EncodingFormat;
    use d10_codecs::JpegSamplingFactor;
    let jp = |progressive, f, grayscale, optimize| EncodingFormat::Jpeg { quality: 80, progressive, sampling_factor: f, grayscale, optimize_huffman_tables: optimize };
    let mut tall: Vec<(String, EncodingFormat, u32)> = vec![];
    for n in [65520u32, 65528, 65535] {
        for (progressive, optimize) in [(false, false), (false, true), (true, false), (true, true)] {
            tall.push((format!("jpeg-gray-p{}-o{}", progressive as u8, optimize as u8), jp(progressive, None, true, optimize), n));
            for (f, fname) in [(JpegSamplingFactor::F_1_1, "1x1"), (JpegSamplingFactor::F_2_2, "2x2"), (JpegSamplingFactor::F_1_2, "1x2")] {
                tall.push((format!("jpeg-{}-p{}-o{}", fname, progressive as u8, optimize as u8), jp(progressive, Some(f), false, optimize), n));
            }
        }
        tall.push(("gif".into(), EncodingFormat::Gif, n));
    }
    for n in [65535u32, 65536, 70001] {
        tall.push(("png".into(), EncodingFormat::png_default(), n));
        tall.push(("bmp".into(), EncodingFormat::bmp_default(), n));
    }
    tall.push(("webp".into(), EncodingFormat::webp_default(), 16383));
    tall.push(("ico".into(), EncodingFormat::ico_default(), 256));
    par(&tall, |(name, f, n)| {
        for (w, h) in [(1, *n), (*n, 1)] {
            ctx.case(&format!("tall/{}/{}x{}", name, w, h), |c| {
                let mut data = vec![];
                d10_codecs::encode(&mut data, &buf(w, h, |x, y| Rgb { data: [((x + y) % 5) as f32 / 4.0, (y % 3) as f32 / 2.0, 0.5, 1.0] }), f.clone()).map_err(|e| format!("encode: {}", e))?;
                let o = outcome(&data)?;
                c.obs(o == 1, &(name, w, h, o));
                Ok(())
            });
        }
    });

    // header dimensions
    let dims: [u32; 12] = [0, 1, 2, 255, 256, 65535, 65536, 0x7FFF, 0x8000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF];
    let mut todo = vec![];
    for (n, b) in &seeds {
        if !["png-rgba8", "png-l16", "bmp-rgba8", "bmp-rgb8", "gif", "jpeg", "jpeg-gray", "ico-rgba8", "webp-default", "webp-lossless"].contains(&n.as_str()) {
            continue;
        }
        for w in dims {
            for h in dims {
                // large allocations are legitimate for large declared sizes; keep them below 1 GB
                if n.starts_with("bmp") && w as u64 * h as u64 > 60_000_000 && w <= 65535 && h <= 65535 {
                    continue;
                }
                if n.starts_with("png") && (w as u64 * h as u64 > 200_000_000 && w as u64 * h as u64 <= u32::MAX as u64) {
                    continue;
                }
                todo.push((n, b, w, h));
            }
        }
    }
    let dims_case = |(n, b, w, h): &(&String, &Vec<u8>, u32, u32)| {
        let (w, h) = (*w, *h);
        ctx.case(&format!("dims/{}/{:#x}x{:#x}", n, w, h), |c| {
            let mut m = b.to_vec();
            match n.split('-').next().unwrap() {
                "png" => {
                    m[16..20].copy_from_slice(&w.to_be_bytes());
                    m[20..24].copy_from_slice(&h.to_be_bytes());
                    fix_crcs(&mut m);
                }
                "bmp" => {
                    m[18..22].copy_from_slice(&w.to_le_bytes());
                    m[22..26].copy_from_slice(&h.to_le_bytes());
                }
                "gif" => {
                    m[6..8].copy_from_slice(&(w as u16).to_le_bytes());
                    m[8..10].copy_from_slice(&(h as u16).to_le_bytes());
                }
                "ico" => {
                    m[6] = w as u8;
                    m[7] = h as u8;
                }
                "jpeg" => {
                    let i = (2..m.len() - 1).find(|i| m[*i] == 0xFF && m[*i + 1] == 0xC0).ok_or("no frame")?;
                    let s = |v: u32| (v.min(4096) as u16).to_be_bytes();
                    m[i + 5..i + 7].copy_from_slice(&s(h));
                    m[i + 7..i + 9].copy_from_slice(&s(w));
                }
                _ => {
                    if *n == "webp-lossless" {
                        let bits = (w & 0x3FFF) | ((h & 0x3FFF) << 14);
                        m[21..25].copy_from_slice(&bits.to_le_bytes());
                    }
                }
            }
            let o = outcome(&m)?;
            c.obs(true, &o);
            Ok(())
        });
    };
    // none of the sizes that pass declares more than 17 million pixels, so eight at a time fit into memory
    par(&todo, dims_case);

    // every short string after every magic
    let magics: [(&str, &[u8]); 8] = [
        ("none", b""), ("jpeg", &[0xFF, 0xD8, 0xFF]), ("png", b"\x89PNG\r\n\x1a\n"), ("gif87", b"GIF87a"), ("gif89", b"GIF89a"), ("bmp", b"BM"),
        ("ico", &[0, 0, 1, 0]), ("webp", b"RIFF\x10\0\0\0WEBP"),
    ];
    let firsts: Vec<_> = magics.iter().flat_map(|(n, m)| (0..=255u8).step_by(16).map(move |a| (n, m, a))).collect();
    par(&firsts, |(n, m, from)| {
        for a in *from..=*from + 15 {
            ctx.case(&format!("short/{}/{:02x}", n, a), |c| {
                let mut b = m.to_vec();
                if a == 0 {
                    outcome(&b)?;
                }
                b.push(a);
                let o = outcome(&b)?;
                c.obs(true, &o);
                b.push(0);
                let l = b.len() - 1;
                for x in 0..=255u8 {
                    b[l] = x;
                    let o = outcome(&b).map_err(|e| format!("then {:02x}: {}", x, e))?;
                    c.obs(true, &(x, o));
                }
                Ok(())
            });
        }
    });
}

fn fix_crcs(b: &mut [u8]) {
    let mut i = 8;
    while i + 12 <= b.len() {
        let len = u32::from_be_bytes(b[i..i + 4].try_into().unwrap()) as usize;
        if len > b.len() || i + 12 + len > b.len() {
            return;
        }
        let c = crc(&b[i + 4..i + 8 + len]);
        b[i + 8 + len..i + 12 + len].copy_from_slice(&c.to_be_bytes());
        i += 12 + len;
    }
}

// ---- C05 --------------------------------------------------------------------------------------

pub const RULE5: &str = "Environment model: a reader that hands out the header in every possible way (chunk sizes 1..12, an Interrupted before each read, every split point, an error at every call). Contents: every magic with every prefix length and every single-byte change of the magic; files: every content format under every extension; every extension of up to three (quick) or four (thorough) characters against the documented list. Non-trivial: all; outcomes hashed by (case, reader behaviour, result).";
pub const ASSUME5: &[&str] = &["signatures of the six formats as registered: JPEG FF D8 FF, PNG 8 bytes, GIF87a/GIF89a, BM, 00 00 01 00, RIFF....WEBP"];

struct R {
    data: Vec<u8>,
    pos: usize,
    sizes: Vec<usize>,
    k: usize,
    ints: bool,
    pend: bool,
    fail_at: Option<usize>,
    calls: usize,
}
impl Read for R {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.ints {
            self.pend = !self.pend;
            if self.pend {
                return Err(std::io::ErrorKind::Interrupted.into());
            }
        }
        if self.fail_at == Some(self.calls) {
            self.calls += 1;
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected"));
        }
        self.calls += 1;
        let want = *self.sizes.get(self.k).unwrap_or(self.sizes.last().unwrap_or(&usize::MAX));
        self.k += 1;
        let n = b.len().min(want).min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Seek for R {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        match p {
            SeekFrom::Start(n) => self.pos = (n as usize).min(self.data.len()),
            SeekFrom::Current(n) => self.pos = (self.pos as i64 + n) as usize,
            SeekFrom::End(n) => self.pos = (self.data.len() as i64 + n) as usize,
        }
        Ok(self.pos as u64)
    }
}

/// boring reference
fn sniff(b: &[u8]) -> Option<Format> {
    if b.starts_with(&[0xFF, 0xD8, 0xFF]) {
        Some(Format::Jpeg)
    } else if b.starts_with(b"\x89PNG\r\n\x1a\n") {
        Some(Format::Png)
    } else if b.starts_with(b"GIF87a") || b.starts_with(b"GIF89a") {
        Some(Format::Gif)
    } else if b.starts_with(b"BM") {
        Some(Format::Bmp)
    } else if b.starts_with(&[0, 0, 1, 0]) {
        Some(Format::Ico)
    } else if b.len() >= 12 && b.starts_with(b"RIFF") && &b[8..12] == b"WEBP" {
        Some(Format::WebP)
    } else {
        None
    }
}

fn detect(c: &Case, b: &[u8]) -> Res {
    let want = sniff(b);
    let mut modes: Vec<(Vec<usize>, bool)> = vec![(vec![usize::MAX], false), (vec![usize::MAX], true)];
    for n in 1..=12 {
        modes.push((vec![n], false));
        modes.push((vec![n], true));
        modes.push((vec![n, usize::MAX], false));
    }
    for (sizes, ints) in modes {
        let mut r = R { data: b.to_vec(), pos: 0, sizes: sizes.clone(), k: 0, ints, pend: false, fail_at: None, calls: 0 };
        let got = Format::from_reader(&mut r);
        c.obs(true, &(format!("{:?}", sizes), ints, format!("{:?}", got)));
        match (&got, &want) {
            (Ok(f), Some(w)) if f == w => {}
            (Err(d10::DecodingError::UnknownFormat), None) => {}
            _ => return Err(format!("reader delivering {:?} bytes (interrupts {}): {:?} instead of {:?} for {:02x?}", sizes, ints, got, want, &b[..b.len().min(14)])),
        }
        ensure!(r.pos == 0, "reader is left at {}", r.pos);
    }
    Ok(())
}

pub fn run5(ctx: &'static Ctx) {
    let img = photo(3, 2);
    let contents: Vec<(String, Vec<u8>)> = formats_small().into_iter().filter_map(|(n, f)| enc(&img, &f).ok().map(|b| (n, b))).collect();
    let mut magics: Vec<(String, Vec<u8>)> = contents.clone();
    let gif87 = {
        let mut b = contents.iter().find(|c| c.0 == "gif").map(|c| c.1.clone()).unwrap_or_default();
        if b.len() > 5 {
            b[4] = b'7';
        }
        b
    };
    magics.push(("gif87".into(), gif87));
    par(&magics, |(n, b)| {
        for len in 0..=b.len().min(16) {
            ctx.case(&format!("prefix/{}/{}", n, len), |c| detect(c, &b[..len]));
        }
        for i in 0..12.min(b.len()) {
            ctx.case(&format!("mutated/{}/{}", n, i), |c| {
                let mut m = b[..b.len().min(20)].to_vec();
                for v in 0..=255u8 {
                    m[i] = v;
                    if ctx.quick() && v % 16 != 0 && v != b[i] ^ 1 && v != b[i].wrapping_add(1) && !(v ^ b[i]).is_power_of_two() {
                        continue;
                    }
                    detect(c, &m)?;
                }
                Ok(())
            });
        }
        ctx.case(&format!("ioerror/{}", n), |c| {
            for at in 0..14 {
                for size in [1usize, 4, 12] {
                    let mut r = R { data: b.clone(), pos: 0, sizes: vec![size], k: 0, ints: false, pend: false, fail_at: Some(at), calls: 0 };
                    let got = Format::from_reader(&mut r);
                    c.obs(true, &(at, size, got.is_ok()));
                    let reached = r.calls > at;
                    match got {
                        Err(d10::DecodingError::IoError(_)) if reached => {}
                        Ok(f) if !reached && Some(f) == sniff(b) => {}
                        g => return Err(format!("error at read {} (reached {}): {:?}", at, reached, g)),
                    }
                }
            }
            Ok(())
        });
    });

    // files: content decides, not the name
    let exts = ["", "png", "jpg", "jpeg", "gif", "bmp", "ico", "webp", "txt", "PNG", "xyz"];
    let items: Vec<_> = contents.iter().flat_map(|c| exts.iter().map(move |e| (c, *e))).collect();
    par(&items, |((n, b), e)| {
        ctx.case(&format!("file/{}.{}", n, e), |c| {
            let p = if e.is_empty() { format!("{}/d-{}", scratch(), n) } else { format!("{}/d-{}.{}", scratch(), n, e) };
            std::fs::write(&p, b).map_err(|e| e.to_string())?;
            let r = decode_file(&p);
            let o = Image::open(&p);
            let _ = std::fs::remove_file(&p);
            let want = dec(b)?;
            c.obs(true, &bits(&want));
            same(&r.map_err(|e| format!("decode_file: {}", e))?.buffer, &want)?;
            same(o.map_err(|e| format!("Image::open: {}", e))?.buffer(), &want)?;
            same(Image::read_from_buffer(b).map_err(|e| e.to_string())?.buffer(), &want)
        });
    });
    for e in exts {
        for (k, junk) in [b"".to_vec(), b"x".to_vec(), b"hello world, this is no image".to_vec(), vec![0u8; 64], b"RIFF\x10\0\0\0WAVEfmt ".to_vec()].into_iter().enumerate() {
            ctx.case(&format!("junk/{}.{}", k, e), |c| {
                let p = if e.is_empty() { format!("{}/j-{}", scratch(), k) } else { format!("{}/j-{}.{}", scratch(), k, e) };
                std::fs::write(&p, &junk).map_err(|e| e.to_string())?;
                let r = decode_file(&p);
                let _ = std::fs::remove_file(&p);
                c.obs(true, &r.is_err());
                ensure!(r.is_err(), "junk decodes as an image");
                if Format::from_path(std::path::Path::new(&p)).is_none() {
                    ensure!(matches!(r, Err(d10::DecodingError::UnknownFormat)), "junk without a known extension is reported as {:?}", r.err());
                }
                ensure!(matches!(decode_buffer(&junk), Err(d10::DecodingError::UnknownFormat)), "junk buffer");
                let r = decode_file(format!("{}/missing.{}", scratch(), e));
                ensure!(matches!(r, Err(d10::DecodingError::IoError(_))), "missing file: {:?}", r.err());
                Ok(())
            });
        }
    }
    // every extension of up to three (quick) or four letters and digits, behind two kinds of stems
    let abc = b"abcdefghijklmnopqrstuvwxyz0123456789";
    let known = ["jpg", "jpeg", "png", "gif", "bmp", "ico", "webp"];
    let firsts: Vec<u8> = abc.to_vec();
    par(&firsts, |a| {
        ctx.case(&format!("extensions/{}", *a as char), |c| {
            let mut exts: Vec<String> = vec![(*a as char).to_string()];
            let mut from = 0;
            for _ in 1..ctx.pick(3, 4) {
                let to = exts.len();
                for i in from..to {
                    for b in abc {
                        exts.push(format!("{}{}", exts[i], *b as char));
                    }
                }
                from = to;
            }
            for known in known {
                // long extensions: everything appended to and inserted into a known one
                if known.as_bytes()[0] == *a {
                    for b in abc {
                        for i in 1..=known.len() {
                            exts.push(format!("{}{}{}", &known[..i], *b as char, &known[i..]));
                        }
                        for b2 in abc {
                            exts.push(format!("{}{}{}", known, *b as char, *b2 as char));
                        }
                    }
                    exts.push(known.to_string());
                }
            }
            exts.extend(["bak", "tmp", "part", "orig", "backup", "download", "crdownload", "tiff", "jfif", "jpe", "apng", "dib", "cur", "heic", "avif", "svgz"].iter().filter(|e| e.as_bytes()[0] == *a).map(|e| e.to_string()));
            for e in exts {
                for stem in ["a", "a.png", "b.jpeg"] {
                    let p = format!("{}.{}", stem, e);
                    let path = std::path::Path::new(&p);
                    let got = Format::from_path(path);
                    ensure!(got.is_some() == known.contains(&e.as_str()), "{:?} is taken for {:?}", p, got);
                    let ef = d10::EncodingFormat::from_path(path);
                    match got {
                        Some(f) => ensure!(matches!(&ef, Ok(x) if x.format() == f), "encoding format of {:?}: {:?}", p, ef),
                        None => ensure!(matches!(ef, Err(d10::EncodingError::BadFileExtension(_))), "encoding format of {:?}: {:?}", p, ef),
                    }
                }
                if known.contains(&e.as_str()) {
                    c.obs(true, &e);
                } else {
                    c.eval_n(3);
                }
            }
            Ok(())
        });
    });
    // names
    let known = [("jpg", Format::Jpeg), ("jpeg", Format::Jpeg), ("png", Format::Png), ("gif", Format::Gif), ("bmp", Format::Bmp), ("ico", Format::Ico), ("webp", Format::WebP)];
    for (ext, f) in known {
        ctx.case(&format!("name/{}", ext), |c| {
            for mask in 0..1u32 << ext.len() {
                let e: String = ext.chars().enumerate().map(|(i, ch)| if mask >> i & 1 == 1 { ch.to_ascii_uppercase() } else { ch }).collect();
                for stem in ["a", "a.b", "/x/y.gif/z", "a.png", ".hidden", "ünï", " ", "a.jpg.tar"] {
                    let p = format!("{}.{}", stem, e);
                    let got = Format::from_path(std::path::Path::new(&p));
                    c.obs(true, &(p.clone(), format!("{:?}", got)));
                    ensure!(got == Some(f), "{:?} -> {:?}", p, got);
                    let ef = d10::EncodingFormat::from_path(std::path::Path::new(&p));
                    ensure!(matches!(&ef, Ok(x) if x.format() == f), "encoding format of {:?}: {:?}", p, ef);
                }
            }
            for p in [ext.to_string(), format!(".{}", ext), format!("a.{} ", ext), format!("a.{}x", ext), format!("a.x{}", ext), format!("a.{}/b", ext), format!("a.{}.", ext)] {
                if Format::from_path(std::path::Path::new(&p)).is_some() {
                    return Err(format!("{:?} is taken for {:?}", p, Format::from_path(std::path::Path::new(&p))));
                }
                ensure!(matches!(d10::EncodingFormat::from_path(std::path::Path::new(&p)), Err(d10::EncodingError::BadFileExtension(_))), "encoding format of {:?}", p);
                c.obs(true, &p);
            }
            Ok(())
        });
    }
}
