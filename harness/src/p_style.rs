//! C17: palette, despeckle, nearest neighbour smoothing, drawing, simulated JPEG quality. C18: noise.
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::refcolor::*;
use d10::{ops, Color, EncodingFormat, Hsl, Intensity, PixelBuffer, Rgb, Srgb};
use d10_ops::DrawingMode;
use rand::script;
use std::collections::BTreeSet;

pub const RULE17: &str = "Palettes of every size up to 4 colours of an alphabet (in five colour types) times all alphabet colours; despeckle over every 3x3 on/off pattern (512), every amount 0..=10, several thresholds and every border position; symmetric nearest neighbour over every shape up to 6x6 (8x8 thorough), radius 0..=3 and both centre settings; the drawing pipeline over several image contents, shapes, radii and modes; simulated JPEG quality for every quality on several images. Every pixel compared with a reference; ties and values within 1e-4 of a threshold accept either side. Exact thresholds, images beyond 255 pixels per side, radii beyond the image. Non-trivial: the image changed.";
pub const ASSUME17: &[&str] = &["the drawing reference composes blur, sharpening and despeckling, which are checked on their own (C10, C17); drawing images with a value within 2e-4 of one of its thresholds are only checked for size, range and alpha"];
pub const RULE18: &str = "The random generator is scripted (the explorer owns every draw): for a one-pixel image the first draw runs through an even grid of its whole range and the second through a grid of 12 values, so that the share of each outcome is measured exactly and compared with the requested strength; for two pixels all draw sequences over an alphabet are executed and every combination of outcomes must occur; on images of every shape all scripts of the alphabet are run. Every outcome must be one the noise allows. The tails of the normal distribution are measured separately. In images of thousands of pixels no stretch of 128 outcomes occurs twice. Non-trivial: the image changed.";
pub const ASSUME18: &[&str] = &["random numbers come from rand::thread_rng (replaced by a scripted copy of rand 0.8); if the code draws from elsewhere only membership of the outcomes is checked", "uniform and normal distribution are compared within 0.5% and 2.5% of the cumulative distribution"];

fn alpha8() -> Vec<Rgb> {
    [
        [0.1f32, 0.3, 0.7, 1.0],
        [0.0, 0.0, 0.0, 1.0],
        [0.8, 0.45, 0.2, 0.5],
        [1.0, 1.0, 1.0, 1.0],
        [0.33, 0.33, 0.33, 1.0],
        [0.62, 0.9, 0.05, 0.25],
        [0.9, 0.15, 0.55, 1.0],
        [0.31, 0.35, 0.3, 0.75],
    ]
    .iter()
    .map(|d| Rgb { data: *d })
    .collect()
}
fn avg(c: &Rgb) -> f64 {
    (c.data[0] as f64 + c.data[1] as f64 + c.data[2] as f64) / 3.0
}
fn finite(b: &PixelBuffer<Rgb>) -> Res {
    for (i, p) in b.data().iter().enumerate() {
        ensure!(p.data.iter().all(|v| v.is_finite()), "pixel {} is {:?}", i, p.data);
    }
    Ok(())
}
fn lab(c: &Rgb) -> V {
    rgb_lab(&v4(&c.data), D65O2)
}

fn palette_case<C: Color + From<Rgb>>(c: &Case, pal: &[Rgb], kind: &str) -> Res {
    palette_on::<C>(c, &PixelBuffer::new_from_raw(4, 2, alpha8()), pal, (pal.len() as u32, 1), kind)
}
fn palette_on<C: Color + From<Rgb>>(c: &Case, src: &PixelBuffer<Rgb>, pal: &[Rgb], shape: (u32, u32), kind: &str) -> Res {
    let before = bits(src);
    let p: Vec<C> = pal.iter().map(|c| C::from(*c)).collect();
    let back: Vec<V> = p.iter().map(|c| { let r: Rgb = c.to_rgb(); v4(&r.data) }).collect();
    let palette = PixelBuffer::new_from_raw(shape.0, shape.1, p);
    let out = ops::apply_palette(src, &palette);
    let mut inp = src.clone();
    ops::apply_palette_in_place(&mut inp, &palette);
    ensure!((out.width(), out.height()) == (src.width(), src.height()), "size");
    ensure!(bits(src) == before, "source changed");
    for (s, o) in src.data().iter().zip(out.data()).chain(src.data().iter().zip(inp.data())) {
        let l = lab(s);
        let d: Vec<f64> = pal.iter().map(|p| { let q = lab(p); ((l[0] - q[0]).powi(2) + (l[1] - q[1]).powi(2) + (l[2] - q[2]).powi(2)).sqrt() }).collect();
        let m = d.iter().cloned().fold(f64::MAX, f64::min);
        // of equal colours (that differ in alpha) the first one counts
        let first = |i: usize| pal[..i].iter().all(|q| q.data[..3] != pal[i].data[..3]);
        let ok = d.iter().zip(&back).enumerate().any(|(i, (d, b))| *d <= m + 2e-4 && first(i) && near(&o.data, b, 2e-3));
        ensure!(ok, "{} palette {:?}: {:?} became {:?} (distances {:?})", kind, pal.iter().map(|c| c.data).collect::<Vec<_>>(), s.data, o.data, d);
    }
    c.obs(true, &(kind, bits(&out)));
    Ok(())
}

fn despeckle_ref(src: &PixelBuffer<Rgb>, x: i64, y: i64, thr: f64, amount: u64) -> Vec<V> {
    despeckle_with(src, x, y, thr, amount, &[0.0, 1e-6, -1e-6])
}
fn despeckle_with(src: &PixelBuffer<Rgb>, x: i64, y: i64, thr: f64, amount: u64, slack: &[f64]) -> Vec<V> {
    let w = src.width() as i64;
    let h = src.height() as i64;
    let at = |x: i64, y: i64| &src.data()[(x.clamp(0, w - 1) + y.clamp(0, h - 1) * w) as usize];
    let c = v4(&at(x, y).data);
    let mut out = vec![];
    for s in slack {
        let t = thr + s;
        let e = if avg(at(x, y)) < t {
            let mut n = 0;
            let mut sum = [0f64; 3];
            for j in -1..=1 {
                for i in -1..=1 {
                    let p = at(x + i, y + j);
                    if avg(p) < t {
                        n += 1;
                    } else {
                        for k in 0..3 {
                            sum[k] += p.data[k] as f64;
                        }
                    }
                }
            }
            if n <= amount && n < 9 {
                let m = (9 - n) as f64;
                [sum[0] / m, sum[1] / m, sum[2] / m, c[3]]
            } else {
                c
            }
        } else {
            c
        };
        out.push(e);
    }
    out
}

/// sums reachable by resolving every tie either way
fn snn_ref(src: &PixelBuffer<Rgb>, x: i64, y: i64, r: i64, center: bool) -> Option<Vec<V>> {
    let w = src.width() as i64;
    let h = src.height() as i64;
    let at = |x: i64, y: i64| v4(&src.data()[(x.clamp(0, w - 1) + y.clamp(0, h - 1) * w) as usize].data);
    let c = at(x, y);
    let mut sums = vec![[0f64; 4]];
    let mut n = 0.0;
    for q in 1..=r {
        for (dx, dy) in [(-1, -1), (0, -1), (1, -1), (-1, 0)] {
            let a = at(x + dx * q, y + dy * q);
            let b = at(x - dx * q, y - dy * q);
            let d = |p: &V| ((p[0] - c[0]).powi(2) + (p[1] - c[1]).powi(2) + (p[2] - c[2]).powi(2)).sqrt();
            let opts = if (d(&a) - d(&b)).abs() < 1e-6 && a != b { vec![a, b] } else if d(&a) < d(&b) { vec![a] } else { vec![b] };
            sums = sums.iter().flat_map(|s| opts.iter().map(move |o| [s[0] + o[0], s[1] + o[1], s[2] + o[2], s[3] + o[3]])).collect();
            if sums.len() > 4096 {
                return None;
            }
            n += 1.0;
        }
    }
    if center {
        n += 1.0;
        for s in sums.iter_mut() {
            for k in 0..4 {
                s[k] += c[k];
            }
        }
    }
    if n == 0.0 {
        return Some(vec![c]);
    }
    Some(sums.iter().map(|s| [s[0] / n, s[1] / n, s[2] / n, s[3] / n]).collect())
}

/// The line drawing before it is sharpened and despeckled; None when a value is close to a threshold.
fn drawing_ref(src: &PixelBuffer<Rgb>, radius: u32) -> Option<PixelBuffer<Rgb>> {
    let light = src.map_colors(|c| Rgb::new_with_alpha(c.data[0] * 0.8 + 0.2, c.data[1] * 0.8 + 0.2, c.data[2] * 0.8 + 0.2, c.data[3]));
    let b1 = ops::unsharp(&ops::gaussian_blur(&light, 1, None), 4, 4.0, Some(5.0)).map_colors(|c| c.with_contrast(1.05));
    let b2 = ops::gaussian_blur(&light, radius, None);
    let mut out = vec![];
    for (p, q) in b1.data().iter().zip(b2.data()) {
        let a: Vec<f64> = (0..3).map(|k| p.data[k] as f64).collect();
        let b: Vec<f64> = (0..3).map(|k| 1.0 - q.data[k] as f64).collect();
        let (g1, g2) = (a.iter().sum::<f64>() / 3.0, b.iter().sum::<f64>() / 3.0);
        let mut near_thr = (g1 - 0.05).abs() < 2e-4 || (g2 - 0.95).abs() < 2e-4;
        let mut diff = 1f64;
        let dodge = |v1: f64, v2: f64| (v1 / (1.0 - v2 + 0.01).min(1.0)).abs();
        if g1 > 0.05 || g2 < 0.95 {
            diff = diff.min(dodge(g1, g2));
        }
        for k in 0..3 {
            near_thr |= (a[k] - 0.8).abs() < 2e-4 || (b[k] - 0.2).abs() < 2e-4;
            if a[k] > 0.8 || b[k] < 0.2 {
                diff = diff.min(dodge(a[k], b[k]));
            }
        }
        near_thr |= (diff - 0.8).abs() < 2e-3;
        if near_thr {
            return None;
        }
        let v = if diff > 0.8 { 1.0 } else { ((diff - 0.5) * 1.2).max(0.0) } as f32;
        out.push(Rgb { data: [v, v, v, 1.0] });
    }
    let d = ops::unsharp(&PixelBuffer::new_from_raw(src.width(), src.height(), out), 2, 1.0, None);
    if d.data().iter().any(|c| (avg(c) - 0.15).abs() < 2e-3) {
        return None;
    }
    let (w, h) = (d.width(), d.height());
    Some(buf(w, h, |x, y| {
        let e = despeckle_ref(&d, x as i64, y as i64, 0.15, 1)[0];
        Rgb { data: e.map(|v| v as f32) }
    }))
}

fn smooth(w: u32, h: u32, k: u32) -> PixelBuffer<Rgb> {
    buf(w, h, |x, y| {
        let (fx, fy) = (x as f32 / w as f32, y as f32 / h as f32);
        let edge = if (x / 3 + y / 4 + k) % 3 == 0 { 0.35 } else { 0.0 };
        Rgb { data: [0.2 + 0.5 * fx + edge * 0.6, 0.3 + 0.4 * fy, (0.6 - 0.3 * fx + edge).min(1.0), if k == 1 { 0.5 } else { 1.0 }] }
    })
}

pub fn run17(ctx: &'static Ctx) {
    // palettes
    let a = alpha8();
    let mut pals = vec![];
    for n in 1..=ctx.pick(3, 4) {
        pals.extend(sequences(8, n));
    }
    par(&pals, |s| {
        ctx.case(&format!("palette/{}", s.iter().map(|i| i.to_string()).collect::<String>()), |c| {
            let pal: Vec<Rgb> = s.iter().enumerate().map(|(k, i)| a[*i].with_alpha([a[*i].data[3], 0.5, 0.25, 0.0][k])).collect();
            palette_case::<Rgb>(c, &pal, "rgb")?;
            palette_case::<Srgb>(c, &pal, "srgb")?;
            palette_case::<Hsl>(c, &pal, "hsl")?;
            palette_case::<d10::Xyz>(c, &pal, "xyz")?;
            palette_case::<d10::Lab<d10::illuminant::D65, d10::observer::O2>>(c, &pal, "lab")?;
            Ok(())
        });
    });
    // palettes of every shape, up to more colours than 8 bit can count; images larger than 8 bit
    par(&[(2u32, 1u32), (1, 2), (2, 2), (1, 8), (3, 5), (5, 3), (16, 16), (1, 257), (300, 1), (40, 30)], |&(w, h)| {
        for (iw, ih) in [(1u32, 1u32), (8, 2), (2, 9), (300, 1), (1, 300)] {
            if w * h * iw * ih > 90_000 && ctx.quick() {
                continue;
            }
            ctx.case(&format!("palette-shape/{}x{}/{}x{}", w, h, iw, ih), |c| {
                let pal: Vec<Rgb> = (0..w * h).map(|i| distinct_px(i * 7 + 3)).collect();
                palette_on::<Rgb>(c, &distinct_buf2(iw, ih, 1000), &pal, (w, h), "rgb")?;
                palette_on::<d10::Hsv>(c, &distinct_buf2(iw, ih, 1000), &pal, (w, h), "hsv")?;
                // a palette colour stays what it is, wherever it stands in the palette
                if iw * ih == 1 {
                    for i in (0..w * h).step_by(((w * h / 40) as usize).max(1)).chain([w * h - 1]) {
                        let one = PixelBuffer::new_from_raw(1, 1, vec![pal[i as usize]]);
                        palette_on::<Srgb>(c, &one, &pal, (w, h), "srgb")?;
                    }
                }
                Ok(())
            });
        }
    });
    // each pixel is replaced independent of its neighbours, where those are closer than colours can be told apart
    for (n, mut f) in [("apply", Box::new(|b: &PixelBuffer<Rgb>, p: &PixelBuffer<Rgb>| ops::apply_palette(b, p)) as Box<dyn FnMut(&PixelBuffer<Rgb>, &PixelBuffer<Rgb>) -> PixelBuffer<Rgb>>), ("in-place", Box::new(|b: &PixelBuffer<Rgb>, p: &PixelBuffer<Rgb>| { let mut b = b.clone(); ops::apply_palette_in_place(&mut b, p); b }))] {
        for levels in [2usize, 5, 20] {
            ctx.case(&format!("palette-order/{}/{}", n, levels), |c| {
                let pal = PixelBuffer::new_from_raw(levels as u32, 1, (0..levels).map(|i| { let v = 0.2 + 0.1 * i as f32 / (levels - 1) as f32; Rgb { data: [v, v, v, 1.0] } }).collect());
                for step in [2.9e-5f32, 1.7e-5, 6e-6] {
                    const N: usize = 4001;
                    let px: Vec<Rgb> = (0..N).map(|i| { let v = 0.2 + i as f32 * step; Rgb { data: [v, v, v, 1.0] } }).collect();
                    let order: Vec<usize> = (0..N).map(|i| i * 1237 % N).collect();
                    let a = f(&PixelBuffer::new_from_raw(N as u32, 1, px.clone()), &pal);
                    let b = f(&PixelBuffer::new_from_raw(N as u32, 1, order.iter().map(|i| px[*i]).collect()), &pal);
                    for (j, i) in order.iter().enumerate() {
                        ensure!(near(&a.data()[*i].data, &v4(&b.data()[j].data), 1e-4), "{:?} became {:?} between similar pixels and {:?} between others", px[*i].data, a.data()[*i].data, b.data()[j].data);
                    }
                    c.obs(true, &bits(&a));
                }
                Ok(())
            });
        }
    }
    ctx.case("palette/empty", |c| {
        let src = distinct_buf(3, 2);
        let out = ops::apply_palette(&src, &PixelBuffer::<Rgb>::new(0, 0));
        ensure!((out.width(), out.height()) == (3, 2), "size");
        finite(&out)?;
        c.obs(true, &bits(&out));
        Ok(())
    });
    // despeckle: every on/off pattern of a 3x3 image (all border positions) and of the centre of a 5x5 image
    let pats: Vec<u32> = (0..512).collect();
    par(&pats, |pat| {
        ctx.case(&format!("despeckle/{:09b}", pat), |c| {
            let cell = |i: u32| {
                let k = i as f32;
                if pat >> i & 1 == 1 { Rgb { data: [0.02 + k * 0.01, 0.05, 0.11 - k * 0.01, 1.0 - 0.1 * k] } } else { Rgb { data: [0.9 - k * 0.05, 0.3 + k * 0.04, 0.7, 1.0 - 0.1 * k] } }
            };
            let small = buf(3, 3, |x, y| cell(x + 3 * y));
            let large = buf(5, 5, |x, y| if x == 0 || y == 0 || x == 4 || y == 4 { Rgb { data: [0.8, 0.75, 0.6, 1.0] } } else { cell(x - 1 + 3 * (y - 1)) });
            let dark = buf(5, 5, |x, y| if x == 0 || y == 0 || x == 4 || y == 4 { Rgb { data: [0.05, 0.02, 0.06, 1.0] } } else { cell(x - 1 + 3 * (y - 1)) });
            for src in [&small, &large, &dark] {
                let before = bits(src);
                for thr in [0.0f32, 0.07, 0.15, 0.5, 1.1] {
                    for amount in 0..=10u8 {
                        let out = ops::despeckle(src, thr, amount);
                        ensure!((out.width(), out.height()) == (src.width(), src.height()), "size");
                        ensure!(bits(src) == before, "source changed");
                        for y in 0..src.height() {
                            for x in 0..src.width() {
                                let i = (x + y * src.width()) as usize;
                                let e = despeckle_ref(src, x as i64, y as i64, thr as f64, amount as u64);
                                ensure!(e.iter().any(|e| near(&out.data()[i].data, e, 1e-4)), "threshold {} amount {}: ({},{}) {:?} became {:?}, expected {:?}", thr, amount, x, y, src.data()[i].data, out.data()[i].data, e[0]);
                            }
                        }
                        c.obs(bits(&out) != before, &(thr.to_bits(), amount, bits(&out)));
                    }
                }
            }
            Ok(())
        });
    });
    // levels that are exactly the threshold: grays whose average has no rounding
    let exact: Vec<u32> = (0..512).collect();
    par(&exact, |pat| {
        ctx.case(&format!("despeckle-exact/{:09b}", pat), |c| {
            for (a, b) in [(0.25f32, 0.5f32), (0.5, 0.75), (0.0, 1.0), (0.0, 0.5)] {
                let src = buf(3, 3, |x, y| {
                    let i = x + 3 * y;
                    let v = if pat >> i & 1 == 1 { a } else { b };
                    Rgb { data: [v, v, v, 1.0 - i as f32 / 16.0] }
                });
                let before = bits(&src);
                for thr in [a, b, 0.5] {
                    for amount in [0u8, 1, 2, 4, 8, 9] {
                        let out = ops::despeckle(&src, thr, amount);
                        for y in 0..3 {
                            for x in 0..3 {
                                let i = (x + y * 3) as usize;
                                let e = despeckle_with(&src, x as i64, y as i64, thr as f64, amount as u64, &[0.0]);
                                ensure!(near(&out.data()[i].data, &e[0], 1e-4), "threshold {} amount {}: ({},{}) {:?} became {:?}, expected {:?}", thr, amount, x, y, src.data()[i].data, out.data()[i].data, e[0]);
                            }
                        }
                        c.obs(bits(&out) != before, &(a.to_bits(), thr.to_bits(), amount, bits(&out)));
                    }
                }
            }
            Ok(())
        });
    });
    // despeckle on larger images
    par(&[(300u32, 3u32), (3, 300), (1, 40), (40, 1), (2, 2), (1, 1), (64, 50)], |&(w, h)| {
        ctx.case(&format!("despeckle-large/{}x{}", w, h), |c| {
            let src = buf(w, h, |x, y| {
                let mut p = distinct_px(x + y * w);
                if (x * 5 + y * 3 + x * y) % 7 < 2 {
                    p = Rgb { data: [p.data[0] * 0.2, p.data[1] * 0.2, p.data[2] * 0.2, p.data[3]] };
                }
                p
            });
            let before = bits(&src);
            for thr in [0.12f32, 0.2, 0.45] {
                for amount in [0u8, 1, 2, 3, 4, 8, 9, 10, 127, 128, 255] {
                    let out = ops::despeckle(&src, thr, amount);
                    ensure!((out.width(), out.height()) == (w, h) && bits(&src) == before, "size or source changed");
                    for y in 0..h {
                        for x in 0..w {
                            let i = (x + y * w) as usize;
                            let e = despeckle_ref(&src, x as i64, y as i64, thr as f64, amount as u64);
                            ensure!(e.iter().any(|e| near(&out.data()[i].data, e, 1e-4)), "threshold {} amount {}: ({},{}) {:?} became {:?}, expected {:?}", thr, amount, x, y, src.data()[i].data, out.data()[i].data, e[0]);
                        }
                    }
                    c.obs(bits(&out) != before, &(thr.to_bits(), amount, bits(&out)));
                }
            }
            Ok(())
        });
    });
    par(&[(300u32, 2u32), (2, 300), (30, 20)], |&(w, h)| {
        for r in [1usize, 2, 3, 7, 9] {
            ctx.case(&format!("snn-large/{}x{}/{}", w, h, r), |c| {
                let src = distinct_buf(w, h);
                for center in [false, true] {
                    let out = ops::symmetric_nearest_neighbor(&src, r, center);
                    ensure!((out.width(), out.height()) == (w, h), "size");
                    for y in 0..h {
                        for x in 0..w {
                            let Some(e) = snn_ref(&src, x as i64, y as i64, r as i64, center) else { continue };
                            let o = out.data()[(x + y * w) as usize].data;
                            ensure!(e.iter().any(|e| near(&o, e, 1e-4)), "centre {}: ({},{}) became {:?}, expected {:?}", center, x, y, o, e[0]);
                        }
                    }
                    c.obs(true, &(center, bits(&out)));
                }
                Ok(())
            });
        }
    });
    // symmetric nearest neighbour
    let m = ctx.pick(6u32, 8);
    let mut shapes: Vec<(u32, u32)> = (1..=m).flat_map(|w| (1..=m).map(move |h| (w, h))).collect();
    shapes.extend([(1, 17), (17, 1), (9, 11)]);
    par(&shapes, |&(w, h)| {
        for (sn, src) in [("distinct", distinct_buf(w, h)), ("photo", photo(w, h)), ("edge", buf(w, h, |x, y| if (x + 2 * y) % 5 < 2 { Rgb { data: [0.125, 0.25, 0.5, 0.5] } } else { Rgb { data: [0.75, 0.5, 0.25, 1.0] } }))] {
            ctx.case(&format!("snn/{}/{}x{}", sn, w, h), |c| {
                let before = bits(&src);
                for r in 0..=ctx.pick(3usize, 5) {
                    for center in [false, true] {
                        let out = ops::symmetric_nearest_neighbor(&src, r, center);
                        ensure!((out.width(), out.height()) == (w, h), "size");
                        ensure!(bits(&src) == before, "source changed");
                        for y in 0..h {
                            for x in 0..w {
                                let i = (x + y * w) as usize;
                                let Some(e) = snn_ref(&src, x as i64, y as i64, r as i64, center) else { continue };
                                ensure!(e.iter().any(|e| near(&out.data()[i].data, e, 1e-4)), "radius {} centre {}: ({},{}) became {:?}, expected {:?}", r, center, x, y, out.data()[i].data, e[0]);
                            }
                        }
                        c.obs(bits(&out) != before, &(r, center, bits(&out)));
                    }
                }
                Ok(())
            });
        }
    });
    // drawing
    let mut jobs = vec![];
    for (w, h) in ctx.pick(vec![(1u32, 1u32), (5, 4), (9, 13), (16, 16), (300, 2)], vec![(1, 1), (2, 1), (1, 7), (5, 4), (9, 13), (16, 16), (24, 11), (40, 40), (300, 2), (3, 300)]) {
        for k in 0..6 {
            for r in ctx.pick(vec![1u32, 3, 8], vec![0, 1, 2, 3, 5, 8, 13]) {
                jobs.push((w, h, k, r));
            }
        }
    }
    // radii beyond the image
    for (w, h, r) in ctx.pick(vec![(24u32, 11u32, 17u32), (24, 11, 32), (7, 5, 64), (40, 9, 50)], vec![(24, 11, 17), (24, 11, 32), (7, 5, 64), (40, 9, 50), (60, 20, 33), (20, 60, 40), (5, 5, 129)]) {
        for k in [1, 3, 4, 5] {
            jobs.push((w, h, k, r));
        }
    }
    let compared = std::sync::atomic::AtomicUsize::new(0);
    par(&jobs, |&(w, h, k, r)| {
        let src = match k {
            0..=2 => smooth(w, h, k),
            3 => photo(w, h),
            4 => buf(w, h, |x, _| if x % 4 == 2 { Rgb { data: [0.1, 0.12, 0.15, 1.0] } } else { Rgb { data: [0.85, 0.8, 0.7, 0.75] } }),
            _ => buf(w, h, |x, y| if (x, y) == (w / 2, h / 2) { Rgb { data: [0.02, 0.05, 0.03, 1.0] } } else { Rgb { data: [0.93, 0.9, 0.96, 1.0] } }),
        };
        ctx.case(&format!("drawing/{}/{}x{}/r{}", k, w, h, r), |c| {
            let before = bits(&src);
            let expect = drawing_ref(&src, r);
            for (mode, mn) in [(DrawingMode::Gray, "gray"), (DrawingMode::Colored, "colored"), (DrawingMode::ReducedColors, "reduced")] {
                let out = ops::drawing(&src, r, mode);
                ensure!((out.width(), out.height()) == (w, h), "size");
                ensure!(bits(&src) == before, "source changed");
                well_formed(&out)?;
                if let Some(d) = &expect {
                    compared.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    let want: PixelBuffer<Rgb> = match mode {
                        DrawingMode::Gray => d.clone(),
                        DrawingMode::Colored => buf(w, h, |x, y| {
                            let i = (x + y * w) as usize;
                            let o = rgb_hsl(&v4(&src.data()[i].data));
                            let l = rgb_hsl(&v4(&d.data()[i].data))[2];
                            Rgb { data: hsl_rgb(&[o[0], o[1], o[2].min(l), o[3]]).map(|v| v as f32) }
                        }),
                        DrawingMode::ReducedColors => {
                            let red = src.map_colors(|c| {
                                let v = rgb_hsv(&v4(&c.data));
                                Rgb { data: hsv_rgb(&[v[0], v[1] * 0.5, ((v[2] * 6.5 + 0.2) / 4.5).min(1.0), v[3]]).map(|v| v as f32) }
                            });
                            let (b2, b3, b4) = (ops::gaussian_blur(&red, 2, None), ops::gaussian_blur(&src, 3, None), ops::gaussian_blur(&src, 4, None));
                            let o = buf(w, h, |x, y| {
                                let i = (x + y * w) as usize;
                                let hsv = |b: &PixelBuffer<Rgb>| rgb_hsv(&v4(&b.data()[i].data));
                                let v = [0.0, hsv(&b2)[1], hsv(d)[2], 1.0];
                                let v = rgb_hsv(&hsv_rgb(&v));
                                let v = rgb_hsv(&hsv_rgb(&[hsv(&b3)[0], v[1], v[2], 1.0]));
                                Rgb { data: hsv_rgb(&[v[0], v[1], v[2] * hsv(&b4)[2], 1.0]).map(|v| v as f32) }
                            });
                            ops::unsharp(&o, 3, 1.5, None).map_colors(|c| c.with_saturation(1.3).with_gamma(1.1).with_vibrance(0.3))
                        }
                    };
                    if mn == "reduced" {
                        // hue of nearly gray pixels is ill-conditioned: compare value and alpha there
                        for (i, (o, e)) in out.data().iter().zip(want.data()).enumerate() {
                            let m = |c: &Rgb| c.data[0].max(c.data[1]).max(c.data[2]);
                            ensure!((m(o) - m(e)).abs() < 5e-3, "{}: pixel {} is {:?}, expected {:?}", mn, i, o.data, e.data);
                            let s = rgb_hsv(&v4(&e.data))[1];
                            ensure!(s < 0.05 || m(e) < 0.05 || near(&o.data, &v4(&e.data), 1e-2), "{}: pixel {} is {:?}, expected {:?}", mn, i, o.data, e.data);
                        }
                    } else {
                        close(&out, &want, 2e-3).map_err(|e| format!("{}: {}", mn, e))?;
                    }
                    alpha_kept(&want, &out)?;
                }
                c.obs(bits(&out) != before, &(mn, bits(&out)));
            }
            Ok(())
        });
    });
    ctx.note("drawing_compared", compared.into_inner());
    // simulated JPEG quality is what saving as JPEG and loading gives
    let qs: Vec<u8> = (0..=255u8).filter(|q| !ctx.quick() || *q <= 101 || *q % 50 == 5).collect();
    par(&qs, |&q| {
        ctx.case(&format!("jpegq/{}", q), |c| {
            let mut srcs = vec![distinct_buf(1, 1), distinct_buf(9, 5), photo(17, 16), buf(8, 8, |x, y| if (x + y) % 2 == 0 { Rgb::WHITE } else { Rgb::NONE }), buf(5, 5, |x, y| Rgb { data: [(x + y) as f32 / 8.0, (x + y) as f32 / 8.0, (x + y) as f32 / 8.0, 1.0] })];
            if q % 25 == 0 || q == 255 {
                srcs.extend([distinct_buf(300, 2), distinct_buf(2, 300), photo(130, 70)]);
            }
            for src in srcs {
                let before = bits(&src);
                let mut data = vec![];
                d10_codecs::encode(&mut data, &src, EncodingFormat::jpeg_with_quality(q)).map_err(|e| format!("encode: {}", e))?;
                let want = d10_codecs::decode_buffer(&data).map_err(|e| format!("decode: {}", e))?.buffer;
                for keep in [false, true] {
                    let out = ops::jpeg_quality(&src, q, keep);
                    ensure!((out.width(), out.height()) == (src.width(), src.height()), "size");
                    ensure!(bits(&src) == before, "source changed");
                    for (i, (o, e)) in out.data().iter().zip(want.data()).enumerate() {
                        ensure!(o.data[..3] == e.data[..3], "quality {}: pixel {} is {:?}, a saved and loaded image has {:?}", q, i, o.data, e.data);
                        let a = if keep { src.data()[i].data[3] } else { 1.0 };
                        ensure!(o.data[3] == a, "quality {} preserve_alpha {}: alpha {} instead of {}", q, keep, o.data[3], a);
                    }
                    c.obs(true, &(keep, bits(&out)));
                }
            }
            Ok(())
        });
    });
    // sides that a JPEG file cannot have: each colour stays within the loss of the quality
    let sides: &[u32] = if ctx.quick() { &[65535, 65536, 70001] } else { &[65519, 65520, 65521, 65535, 65536, 65537, 70001, 131040, 131041, 200000] };
    par(sides, |&n| {
        for (w, h) in [(n, 1u32), (1, n), (n, 9), (9, n)] {
            if w.min(h) > 1 && ctx.quick() && n != 70001 {
                continue;
            }
            ctx.case(&format!("jpegq-long/{}x{}", w, h), |c| {
                // slow waves along both sides, alphas that differ
                let f = |v: f32| 0.5 + 0.4 * (v * 0.02).sin();
                let src = buf(w, h, |x, y| Srgb { data: [f(x as f32 + y as f32), f(x as f32 - 50.0 + 2.0 * y as f32), f(2.0 * x as f32 - y as f32), ((x + 3 * y) % 7) as f32 / 6.0] }.to_rgb());
                let before = bits(&src);
                for keep in [false, true] {
                    let out = ops::jpeg_quality(&src, 100, keep);
                    ensure!((out.width(), out.height(), out.data().len()) == (w, h, (w * h) as usize), "size {}x{}", out.width(), out.height());
                    ensure!(bits(&src) == before, "source changed");
                    for (i, (o, e)) in out.data().iter().zip(src.data()).enumerate() {
                        for k in 0..3 {
                            ensure!((o.data[k] - e.data[k]).abs() <= 0.08, "pixel {} is {:?} instead of {:?}", i, o.data, e.data);
                        }
                        let a = if keep { e.data[3] } else { 1.0 };
                        ensure!(o.data[3] == a, "preserve_alpha {}: alpha {} instead of {}", keep, o.data[3], a);
                    }
                    c.obs(true, &(keep, n));
                }
                Ok(())
            });
        }
    });
}

// ------------------------------------------------------------------------------------- C18

#[derive(Clone, Copy, Debug, PartialEq)]
enum N {
    Salt,
    RgbN,
    Random,
    Gauss,
}
const NOISES: [(N, &str); 4] = [(N::Salt, "salt_n_pepper"), (N::RgbN, "rgb"), (N::Random, "random"), (N::Gauss, "gaussian")];

fn run_noise(n: N, in_place: bool, src: &PixelBuffer<Rgb>, p: f32) -> PixelBuffer<Rgb> {
    if in_place {
        let mut b = src.clone();
        match n {
            N::Salt => ops::add_salt_n_pepper_noise(&mut b, p),
            N::RgbN => ops::add_rgb_noise(&mut b, p),
            N::Random => ops::add_random_noise(&mut b, p),
            N::Gauss => ops::add_gaussian_noise(&mut b, p),
        }
        b
    } else {
        match n {
            N::Salt => ops::salt_n_pepper_noise(src, p),
            N::RgbN => ops::rgb_noise(src, p),
            N::Random => ops::random_noise(src, p),
            N::Gauss => ops::gaussian_noise(src, p),
        }
    }
}
fn scripted(n: N, in_place: bool, src: &PixelBuffer<Rgb>, p: f32, s: Vec<u64>) -> (PixelBuffer<Rgb>, usize) {
    script::set(s);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_noise(n, in_place, src, p)));
    let used = script::clear();
    match r {
        Ok(b) => (b, used),
        Err(e) => std::panic::resume_unwind(e),
    }
}
/// class of the outcome of a pixel, None if the noise may not produce it
fn class(n: N, a: &Rgb, b: &Rgb, p: f32) -> Option<u8> {
    let same = |x: f32, y: f32| (x - y).abs() < 1e-6;
    let eq = |x: &Rgb, y: &Rgb| (0..4).all(|k| same(x.data[k], y.data[k]));
    match n {
        N::Salt => {
            if eq(a, b) { Some(0) } else if eq(b, &Rgb::BLACK) { Some(1) } else if eq(b, &Rgb::WHITE) { Some(2) } else { None }
        }
        N::RgbN => {
            if eq(a, b) {
                return Some(0);
            }
            (0..3).find(|k| eq(b, &{ let mut x = *a; x.data[*k] = 1.0; x })).map(|k| k as u8 + 1)
        }
        N::Random => {
            if !same(a.data[3], b.data[3]) {
                return None;
            }
            let ok = (0..3).all(|k| {
                let m = (1.0 - p) * a.data[k];
                let (lo, hi) = ((m - p.abs()).clamp(0.0, 1.0), (m + p.abs()).clamp(0.0, 1.0));
                (lo - 1e-6..=hi + 1e-6).contains(&b.data[k])
            });
            if ok { Some(if eq(a, b) { 0 } else { 1 }) } else { None }
        }
        N::Gauss => {
            if same(a.data[3], b.data[3]) && b.data.iter().all(|v| (0.0..=1.0).contains(v)) { Some(if eq(a, b) { 0 } else { 1 }) } else { None }
        }
    }
}

/// standard normal distribution function
fn phi(x: f64) -> f64 {
    // Abramowitz & Stegun 7.1.26, error below 1.5e-7
    let t = 1.0 / (1.0 + 0.3275911 * x.abs() / std::f64::consts::SQRT_2);
    let e = 1.0 - t * (0.254829592 + t * (-0.284496736 + t * (1.421413741 + t * (-1.453152027 + t * 1.061405429)))) * (-x * x / 2.0).exp();
    if x >= 0.0 { (1.0 + e) / 2.0 } else { (1.0 - e) / 2.0 }
}

pub fn run18(ctx: &'static Ctx) {
    let thrs: Vec<f32> = ctx.pick(vec![0.0, 0.01, 0.125, 0.25, 0.5], vec![0.0, 0.001, 0.01, 0.05, 0.125, 0.2, 0.25, 0.3, 0.4, 0.45, 0.5]);
    let grid = ctx.pick(2048u64, 16384);
    let reference = PixelBuffer::new_from_raw(1, 1, vec![Rgb { data: [0.3, 0.4, 0.6, 0.7] }]);
    let at = |i: u64, n: u64| ((2 * i as u128 + 1) * (1u128 << 63) / n as u128) as u64; // centre of cell i of n of the u64 range

    let jobs: Vec<(N, &str, bool)> = NOISES.iter().flat_map(|(n, s)| [(*n, *s, false), (*n, *s, true)]).collect();
    par(&jobs, |&(n, name, inp)| {
        // shares
        if matches!(n, N::Salt | N::RgbN) {
            let mut all = thrs.clone();
            all.extend([0.75f32, 0.9, 1.0]);
            let extremes: Vec<(String, [f32; 4])> = std::iter::once((String::new(), [0.3, 0.4, 0.6, 0.7]))
                .chain(sequences(3, 3).flat_map(|s| [1.0f32, 0.0].map(|a| {
                    let d: Vec<f32> = s.iter().map(|i| [0.0f32, 0.5, 1.0][*i]).collect();
                    (format!("/{:?}-{}", d, a), [d[0], d[1], d[2], a])
                })))
                .collect();
            for (t, (tag, data)) in all.into_iter().flat_map(|t| extremes.iter().map(move |e| (t, e))) {
                if !tag.is_empty() && !matches!(t, 0.125f32 | 0.5) {
                    continue;
                }
                let src1 = PixelBuffer::new_from_raw(1, 1, vec![Rgb { data: *data }]);
                let grid = if tag.is_empty() { grid } else { grid / 4 };
                ctx.case(&format!("{}/share/{}/{}{}", name, inp, t, tag), |c| {
                    let mut cnt = [0u64; 4];
                    let mut drawn = 0;
                    for i in 0..grid {
                        for j in 0..12 {
                            let script = std::iter::once(at(i, grid)).chain((0..8).map(|k| at((j + 5 * k) % 12, 12))).collect();
                            let (out, used) = scripted(n, inp, &src1, t, script);
                            drawn += used;
                            let k = class(n, &src1.data()[0], &out.data()[0], t);
                            ensure!(k.is_some(), "threshold {}: {:?} became {:?}", t, src1.data()[0].data, out.data()[0].data);
                            cnt[k.unwrap() as usize] += 1;
                            c.obs(k != Some(0), &(t.to_bits(), k));
                        }
                    }
                    // nothing drawn for any pixel: the script is not what decides
                    if drawn == 0 && scripted(n, inp, &reference, 0.3, vec![at(1, 3); 8]).1 == 0 {
                        return Ok(());
                    }
                    let tot = (grid * 12) as f64;
                    let share = |k: usize| cnt[k] as f64 / tot;
                    let tol = 2.0 / grid as f64 + 1e-9;
                    let t = t as f64;
                    let want: Vec<f64> = if n == N::Salt { vec![(1.0 - 2.0 * t).max(0.0), t, t.min(1.0 - t)] } else { vec![1.0 - t, t / 3.0, t / 3.0, t / 3.0] };
                    // a hit that leaves the pixel as it was counts as no hit
                    let px = src1.data()[0];
                    let mut want = want;
                    for k in 1..want.len() {
                        let hit = match (n, k) {
                            (N::Salt, 1) => Rgb::BLACK,
                            (N::Salt, _) => Rgb::WHITE,
                            _ => { let mut x = px; x.data[k - 1] = 1.0; x }
                        };
                        if hit.data == px.data {
                            want[0] += want[k];
                            want[k] = 0.0;
                        }
                    }
                    let merged = want[0] > 1.0 - t + 1e-9;
                    for (k, w) in want.iter().enumerate() {
                        // which channel is hit takes a varying number of draws, so that split is only nearly even
                        let tol = if n == N::RgbN && k > 0 { tol + 0.15 * w } else if n == N::RgbN && merged { tol + 0.15 * t } else { tol };
                        let ok = if *w == 0.0 { share(k) == 0.0 } else { (share(k) - w).abs() <= tol };
                        ensure!(ok, "strength {}: outcome {} has a share of {} instead of {}", t, k, share(k), w);
                    }
                    Ok(())
                });
            }
        } else {
            for (p, v) in [(0.25f32, 0.5f32), (0.5, 0.5), (1.0, 0.3), (0.1, 0.9), (0.05, 0.5), (1.5, 0.4), (2.0, 0.1), (3.0, 0.5), (50.0, 0.0)]
                .map(|(p, v)| (p, [v, v, v, 0.5f32]))
                .into_iter()
                .chain([[0.5f32, 0.5, 0.5, 0.0], [0.5, 0.5, 0.5, 1.0], [0.3, 0.4, 0.6, 0.0], [0.3, 0.4, 0.6, 1.0], [0.0, 0.0, 0.0, 1.0], [1.0, 1.0, 1.0, 1.0], [1.0, 0.0, 0.0, 1.0], [0.0, 0.5, 1.0, 0.5]].map(|d| (0.25, d)))
            {
                let tag = if p == 0.25 && v != [0.5; 4] { format!("{:?}", v) } else { v[0].to_string() };
                ctx.case(&format!("{}/dist/{}/{}/{}", name, inp, p, tag), |c| {
                    let src = PixelBuffer::new_from_raw(1, 1, vec![Rgb { data: v }]);
                    let mut outs = [vec![], vec![], vec![]];
                    let mut three = 0u64;
                    let mut total = 0u64;
                    let mut drawn = 0;
                    let (hi, lo) = if n == N::Gauss { (ctx.pick(256u64, 1024), 256u64) } else { (grid * 4, 1) };
                    for i in 0..hi {
                        for j in 0..lo {
                            // top bits and low byte run through their ranges
                            let d = (at(i, hi) & !0xff) | j;
                            let (out, used) = scripted(n, inp, &src, p, vec![d, d, d]);
                            total += 1;
                            three += (used == 3) as u64;
                            drawn += used;
                            let o = &out.data()[0];
                            ensure!(class(n, &src.data()[0], o, p).is_some(), "strength {}: {:?} became {:?}", p, src.data()[0].data, o.data);
                            for k in 0..3 {
                                outs[k].push(o.data[k]);
                            }
                            c.obs(true, &(o.data[0].to_bits(), o.data[1].to_bits()));
                        }
                    }
                    let never = drawn == 0 && scripted(n, inp, &reference, p, vec![at(1, 3); 3]).1 == 3;
                    if three * 10 < total * 9 && !never {
                        return Ok(()); // not one draw per channel: the grid says nothing about the distribution
                    }
                    for k in 0..3 {
                        let v = v[k];
                        for x in [0.0f64, 0.1, 0.25, 0.4, 0.45, 0.5, 0.55, 0.6, 0.75, 0.9, 0.99] {
                            let z = (x - (1.0 - p as f64) * v as f64) / p as f64;
                            let cdf = if n == N::Gauss { phi(z) } else { ((z + 1.0) / 2.0).clamp(0.0, 1.0) };
                            let below = outs[k].iter().filter(|o| **o as f64 <= x + 1e-6).count() as f64 / total as f64;
                            let tol = if n == N::Gauss { 0.025 } else { 0.005 };
                            ensure!((below - cdf).abs() < tol, "strength {}, value {}: a share of {} of channel {} is at most {}, expected {}", p, v, below, k, x, cdf);
                        }
                        if n == N::Gauss && p == 0.05 {
                            // a normal distribution has tails: offsets of 3.2 sigma occur among 65536 evenly spread draws
                            let z: Vec<f64> = outs[k].iter().map(|o| (*o as f64 - (1.0 - p as f64) * v as f64) / p as f64).collect();
                            let (mn, mx) = z.iter().fold((0f64, 0f64), |m, z| (m.0.min(*z), m.1.max(*z)));
                            ensure!(mn < -3.2 && mx > 3.2, "strength {}, value {}: offsets of channel {} only reach from {} to {} sigma", p, v, k, mn, mx);
                        }
                    }
                    Ok(())
                });
            }
            // the channels and the pixels are drawn independently of each other: every combination of
            // lower and higher channels occurs among the scripts
            for (w, h) in [(1u32, 1u32), (2, 1), (1, 2)] {
                ctx.case(&format!("{}/independent/{}/{}x{}", name, inp, w, h), |c| {
                    let m = w * h;
                    let src = PixelBuffer::new_from_raw(w, h, vec![Rgb { data: [0.5, 0.5, 0.5, 1.0] }; m as usize]);
                    let mut seen = BTreeSet::new();
                    let mut drawn = 0;
                    for (i, s) in sequences(8, 4).enumerate() {
                        let mut x = i as u64 + 1;
                        let d: Vec<u64> = s.iter().map(|i| at(*i as u64 + 4, 16) & !0xff | 0x80).chain((0..20).map(|_| {
                            // splitmix64
                            x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
                            let z = (x ^ x >> 30).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                            let z = (z ^ z >> 27).wrapping_mul(0x94D0_49BB_1331_11EB);
                            z ^ z >> 31
                        })).collect();
                        let (out, used) = scripted(n, inp, &src, 0.1, d);
                        drawn += used;
                        let pat: Vec<bool> = out.data().iter().flat_map(|p| p.data[..3].iter().map(|v| *v > 0.45).collect::<Vec<_>>()).collect();
                        seen.insert(pat);
                        c.obs(true, &bits(&out));
                    }
                    ensure!(drawn == 0 || seen.len() == 1 << (3 * m), "{} of {} combinations of lower and higher channels", seen.len(), 1 << (3 * m));
                    Ok(())
                });
            }
            // the channels are drawn independently of each other
            ctx.case(&format!("{}/channels/{}", name, inp), |c| {
                let src = PixelBuffer::new_from_raw(1, 1, vec![Rgb { data: [0.5, 0.5, 0.5, 1.0] }]);
                let mut seen = BTreeSet::new();
                let mut drawn = 0;
                for s in sequences(8, 3) {
                    let d: Vec<u64> = s.iter().map(|i| at(*i as u64 + 4, 16) & !0xff | 0x80).collect();
                    let (out, used) = scripted(n, inp, &src, 0.1, d);
                    drawn += used;
                    seen.insert(bits(&out));
                    c.obs(true, &bits(&out));
                }
                ensure!(drawn != 512 * 3 || seen.len() == 512, "512 different draws gave {} different pixels", seen.len());
                Ok(())
            });
        }
        // two pixels: every combination of outcomes occurs
        ctx.case(&format!("{}/pairs/{}", name, inp), |c| {
            for (w, h) in [(2u32, 1u32), (1, 2)] {
            let src = PixelBuffer::new_from_raw(w, h, vec![Rgb { data: [0.3, 0.4, 0.6, 0.7] }, Rgb { data: [0.1, 0.8, 0.2, 1.0] }]);
            if !matches!(n, N::Salt | N::RgbN) {
                return Ok(());
            }
            let mut seen = BTreeSet::new();
            let mut drawn = 0;
            for s in sequences(5, 4) {
                let (out, used) = scripted(n, inp, &src, 0.3, s.iter().map(|i| at(*i as u64, 5)).collect());
                drawn += used;
                let k: Vec<Option<u8>> = src.data().iter().zip(out.data()).map(|(a, b)| class(n, a, b, 0.3)).collect();
                ensure!(k.iter().all(|k| k.is_some()), "{:?}", out.data());
                seen.insert(k.clone());
                c.obs(true, &k);
            }
            let want = if n == N::Salt { 9 } else { 16 };
            ensure!(drawn == 0 || seen.len() == want, "{} of {} combinations of outcomes occur", seen.len(), want);
            }
            Ok(())
        });
        // a long history of draws on larger images: every pixel gets its own, and the share holds everywhere
        for (w, h) in [(300u32, 200u32), (3, 3000), (3000, 3)] {
            ctx.case(&format!("{}/large/{}/{}x{}", name, inp, w, h), |c| {
                let src = PixelBuffer::new_with_color(w, h, Rgb { data: [0.5, 0.4, 0.6, 0.7] });
                let total = (w * h) as usize;
                let mut s = 0u64;
                let script: Vec<u64> = (0..total * 8)
                    .map(|_| {
                        s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
                        let mut z = s;
                        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
                        z ^ (z >> 31)
                    })
                    .collect();
                let p = 0.25f32;
                let (out, used) = scripted(n, inp, &src, p, script);
                let k: Vec<Option<u8>> = src.data().iter().zip(out.data()).map(|(a, b)| class(n, a, b, p)).collect();
                ensure!(k.len() == total && k.iter().all(|k| k.is_some()), "an outcome the noise may not have");
                if used == 0 {
                    return Ok(());
                }
                let share = |f: &dyn Fn(u32, u32) -> bool| {
                    let (mut a, mut b) = (0.0, 0.0);
                    for (i, k) in k.iter().enumerate() {
                        if f(i as u32 % w, i as u32 / w) {
                            b += 1.0;
                            a += (*k != Some(0)) as u8 as f64;
                        }
                    }
                    (a / b, b)
                };
                let want: f64 = match n { N::Salt => 0.5, N::RgbN => 0.25, _ => 1.0 };
                let third = |v: u32, n: u32| (v as u64 * 3 / n as u64) as u32;
                for t in 0..3 {
                    for (sh, m) in [share(&|x, _| third(x, w) == t), share(&|_, y| third(y, h) == t), share(&|x, y| (x + y) % 3 == t)] {
                        // a channel hit that already is 1 does not show; 6 standard deviations
                        let dev = 6.0 * (want * (1.0 - want) / m).sqrt() + 1e-9;
                        let ok = if want == 1.0 { sh > 0.9 } else { (sh - want).abs() < dev };
                        ensure!(ok, "a share of {} of the pixels changed in a part of the image, expected {}", sh, want);
                    }
                }
                // no stretch of 128 pixels occurs twice
                if want < 1.0 {
                    let mut seen = BTreeSet::new();
                    for i in 0..total - 128 {
                        ensure!(seen.insert(hash_of(&&k[i..i + 128])), "the 128 pixels from {} repeat an earlier stretch", i);
                    }
                }
                if want == 1.0 {
                    let mut all: Vec<Vec<u32>> = out.data().iter().map(|p| p.data.iter().map(|v| v.to_bits()).collect()).collect();
                    all.sort();
                    all.dedup();
                    ensure!(all.len() * 100 > total * 99, "{} pixels have {} different values", total, all.len());
                }
                c.obs(true, &used);
                Ok(())
            });
        }
        // images of every shape, every script over an alphabet (repeated), strengths outside of 0..1 too
        for (w, h) in [(0u32, 0u32), (1, 1), (3, 2), (2, 5), (7, 1), (1, 9), (16, 16)] {
            ctx.case(&format!("{}/shape/{}/{}x{}", name, inp, w, h), |c| {
                let src = distinct_buf(w, h);
                let before = bits(&src);
                for p in [-1.0f32, 0.0, 0.1, 0.5, 1.0] {
                    for s in sequences(4, 4) {
                        let vals: Vec<u64> = s.iter().cycle().take((w * h * 4) as usize).map(|i| [0u64, u64::MAX, 1 << 63, 1 << 60][*i]).collect();
                        let (out, _) = scripted(n, inp, &src, p, vals);
                        ensure!((out.width(), out.height()) == (w, h), "size");
                        ensure!(bits(&src) == before, "source changed");
                        for (a, b) in src.data().iter().zip(out.data()) {
                            let k = class(n, a, b, p);
                            ensure!(k.is_some(), "strength {}: {:?} became {:?}", p, a.data, b.data);
                            let none = p == 0.0 || p < 0.0 && matches!(n, N::Salt | N::RgbN);
                            ensure!(!none || k == Some(0), "strength {}: {:?} became {:?}", p, a.data, b.data);
                        }
                        c.obs(bits(&out) != before, &(p.to_bits(), bits(&out)));
                    }
                }
                Ok(())
            });
        }
    });
    // other colour types keep their alpha, strength 0 changes nothing
    ctx.case("types", |c| {
        let src = distinct_buf(5, 4);
        macro_rules! ty {
            ($t:ty, $n:expr) => {{
                let b: PixelBuffer<$t> = src.map_colors(|c| <$t>::from(*c));
                for p in [0.0f32, 0.3] {
                    let mut i1 = b.clone();
                    let mut i2 = b.clone();
                    ops::add_gaussian_noise(&mut i1, p);
                    ops::add_random_noise(&mut i2, p);
                    for o in [ops::gaussian_noise(&b, p), ops::random_noise(&b, p), i1, i2] {
                        ensure!((o.width(), o.height()) == (5, 4), "{}: size", $n);
                        for (x, y) in b.data().iter().zip(o.data()) {
                            ensure!(x.alpha() == y.alpha(), "{}: alpha {} became {}", $n, x.alpha(), y.alpha());
                            ensure!(p > 0.0 || x.data().iter().zip(y.data()).all(|(a, b)| (a - b).abs() < 1e-6), "{}: strength 0 changed {:?} to {:?}", $n, x.data(), y.data());
                        }
                        c.obs(p > 0.0, &($n, p.to_bits()));
                    }
                }
            }};
        }
        ty!(Rgb, "rgb");
        ty!(Srgb, "srgb");
        ty!(Hsl, "hsl");
        ty!(d10::Hsv, "hsv");
        ty!(d10::Yuv, "yuv");
        ty!(d10::Xyz, "xyz");
        Ok(())
    });
    let _ = Intensity::Average;
}
