//! C11: composing, blending and interlacing images.
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::refcolor as rc;
use d10::ops;
use d10::ops::BlendOp;
use d10::{Color, Hsl, PixelBuffer, Rgb};
use std::str::FromStr;

pub const RULE: &str = "All pairs and triples of image shapes in the bound (the empty image included) through every compose entry point, with the callback failing at every position and never; all pairs of shapes through every blend operator; all ordered pairs of colours of a grid (with alpha) times intensities through every blend operator against an f64 reference; all shapes times offsets through interlace. Non-trivial: the result differs from the first image.";
pub const ASSUME: &[&str] = &["colour grid with 5 (quick) or 9 values per channel and 3 alpha values; intensities from 1e-4 to 0.997 and beyond both ends", "tolerance 1e-6, 5e-5 for the operators in HSL and LCH", "the hue of a colour without chroma is not specified, so operators that take over a hue are only compared when the second colour has one"];

const OPS: [&str; 12] = [
    "normal", "addition", "subtract", "darken", "lighten", "hsl_darken", "hsl_lighten", "lch_darken", "lch_lighten", "lch_hue",
    "lch_saturation", "lch_color",
];

fn lerp(a: f64, b: f64, t: f64) -> f64 {
    a * (1.0 - t) + b * t
}

/// Accepted results (None: only well-formedness is specified)
pub fn ref_blend(op: &str, c1: &rc::V, c2: &rc::V, t: f64) -> Option<Vec<rc::V>> {
    let per = |f: &dyn Fn(f64, f64) -> f64| {
        let k = t * c2[3];
        let g = |i: usize| rc::cl(lerp(c1[i], f(c1[i], c2[i]), k));
        vec![[g(0), g(1), g(2), rc::cl(c2[3])]]
    };
    Some(match op {
        "normal" => {
            let a = c2[3] * t;
            let g = |i: usize| rc::cl(c2[i] * a + c1[i] * (1.0 - a));
            vec![[g(0), g(1), g(2), rc::cl(c1[3] + a)]]
        }
        "addition" => per(&|a, b| a + b),
        "subtract" => per(&|a, b| a - b),
        "darken" => per(&|a, b| a.min(b)),
        "lighten" => per(&|a, b| a.max(b)),
        "hsl_darken" | "hsl_lighten" => {
            let (h1, h2) = (rc::rgb_hsl(c1), rc::rgb_hsl(c2));
            let l = if op == "hsl_darken" { h1[2].min(h2[2]) } else { h1[2].max(h2[2]) };
            vec![rc::hsl_rgb(&[h1[0], h1[1], lerp(h1[2], l, t), h1[3]])]
        }
        _ => {
            let (h1, h2) = (rc::rgb_lch(c1), rc::rgb_lch(c2));
            let hues = || rc::arc(h1[2], h2[2], t);
            let chroma = lerp(h1[1], h2[1], t);
            let no_hue = h2[1] < 1e-3 || h1[1] < 1e-3;
            match op {
                "lch_darken" => vec![rc::lch_rgb(&[lerp(h1[0], h1[0].min(h2[0]), t), h1[1], h1[2], h1[3]])],
                "lch_lighten" => vec![rc::lch_rgb(&[lerp(h1[0], h1[0].max(h2[0]), t), h1[1], h1[2], h1[3]])],
                "lch_saturation" if h1[1] < 1e-3 => return None,
                "lch_saturation" => vec![rc::lch_rgb(&[h1[0], chroma, h1[2], h1[3]])],
                "lch_hue" if h1[1] < 1e-3 => vec![*c1],
                "lch_hue" | "lch_color" if no_hue && t > 0.0 => return None,
                "lch_hue" => hues().into_iter().map(|h| rc::lch_rgb(&[h1[0], h1[1], h, h1[3]])).collect(),
                "lch_color" => hues().into_iter().map(|h| rc::lch_rgb(&[h1[0], chroma, h, h1[3]])).collect(),
                _ => unreachable!(),
            }
        }
    })
}

fn tol(op: &str, c1: &rc::V) -> f64 {
    if op == "lch_hue" && rc::rgb_lch(c1)[1] < 1e-3 {
        // the rest of chroma that rounding leaves in a gray colour may be turned
        3e-4
    } else if op.contains('_') {
        5e-5
    } else {
        1e-6
    }
}
fn check_blend(op: &str, c1: &Rgb, c2: &Rgb, t: f32, got: &Rgb) -> Res {
    let (v1, v2) = (rc::v4(&c1.data), rc::v4(&c2.data));
    match ref_blend(op, &v1, &v2, t as f64) {
        Some(exp) => {
            ensure!(
                exp.iter().any(|e| rc::near(&got.data, e, tol(op, &v1))),
                "{} of {:?} and {:?} with intensity {} is {:?}, expected {:?}",
                op, c1.data, c2.data, t, got.data, exp[0]
            );
        }
        None => {
            ensure!(
                got.data.iter().all(|v| (0.0..=1.0).contains(v)) && got.data[3] == c1.data[3],
                "{} of {:?} and {:?} with intensity {} is {:?}",
                op, c1.data, c2.data, t, got.data
            );
        }
    }
    Ok(())
}

fn shapes(m: u32) -> Vec<(u32, u32)> {
    let mut v = vec![(0, 0)];
    v.extend((1..=m).flat_map(|w| (1..=m).map(move |h| (w, h))));
    v
}

fn call<C: Color>(
    entry: usize,
    bufs: &[PixelBuffer<C>],
    def: C,
    f: &mut dyn FnMut(u32, u32, &[C]) -> Result<C, u32>,
) -> Result<PixelBuffer<C>, u32> {
    let r: Vec<&PixelBuffer<C>> = bufs.iter().collect();
    match (entry, r.len()) {
        (0, _) => ops::try_compose_slice(&r, def, |x, y, c| f(x, y, c)),
        (1, _) => Ok(ops::compose_slice(&r, def, |x, y, c| f(x, y, c).unwrap())),
        (2, 1) => ops::try_compose([r[0]], def, |x, y, c| f(x, y, &c)),
        (2, 2) => ops::try_compose([r[0], r[1]], def, |x, y, c| f(x, y, &c)),
        (2, _) => ops::try_compose([r[0], r[1], r[2]], def, |x, y, c| f(x, y, &c)),
        (_, 1) => Ok(ops::compose([r[0]], def, |x, y, c| f(x, y, &c).unwrap())),
        (_, 2) => Ok(ops::compose([r[0], r[1]], def, |x, y, c| f(x, y, &c).unwrap())),
        (_, _) => Ok(ops::compose([r[0], r[1], r[2]], def, |x, y, c| f(x, y, &c).unwrap())),
    }
}

fn compose_case<C: Color>(c: &Case, sh: &[(u32, u32)], def: C, mk: &dyn Fn(&Rgb) -> C) -> Res {
    let bufs: Vec<PixelBuffer<C>> =
        sh.iter().enumerate().map(|(i, s)| distinct_buf2(s.0, s.1, 40 * i as u32).map_colors(|p| mk(p))).collect();
    let w = sh.iter().map(|s| s.0).max().unwrap();
    let h = sh.iter().map(|s| s.1).max().unwrap();
    let n = (w * h) as usize;
    let want: Vec<(u32, u32, Vec<C>)> = (0..n as u32)
        .map(|i| {
            let (x, y) = (i % w, i / w);
            let v = bufs.iter().map(|b| if x < b.width() && y < b.height() { b.data()[(x + y * b.width()) as usize] } else { def }).collect();
            (x, y, v)
        })
        .collect();
    // the array entry points are instantiated for up to three images
    for entry in 0..if bufs.len() > 3 { 2 } else { 4 } {
        let fails: Vec<usize> = if entry % 2 == 1 {
            vec![n]
        } else if n > 100 {
            vec![0, 1, n / 2, n - 1, n]
        } else {
            (0..=n).collect()
        };
        for k in fails {
            let mut seen: Vec<(u32, u32, Vec<C>)> = vec![];
            // the result depends on position and on all inputs
            let pick = |x: u32, y: u32, v: &[C]| v[((x * 7 + y * 3) as usize) % v.len()];
            let r = call(entry, &bufs, def, &mut |x, y, v| {
                seen.push((x, y, v.to_vec()));
                if seen.len() == k + 1 { Err(k as u32) } else { Ok(pick(x, y, v)) }
            });
            let m = (k + 1).min(n);
            let same = seen.len() == m
                && seen.iter().zip(&want).all(|(a, b)| a.0 == b.0 && a.1 == b.1 && a.2.iter().zip(&b.2).all(|(p, q)| p.data() == q.data()));
            ensure!(same, "entry {} failing at {}: callback saw {:?}, expected {:?}", entry, k, seen, &want[..m]);
            if k < n {
                ensure!(r.err() == Some(k as u32), "entry {}: the error of the callback at {} is not returned", entry, k);
            } else {
                let b = r.map_err(|e| format!("error {}", e))?;
                ensure!((b.width(), b.height()) == (w, h) && b.data().len() == n, "entry {}: result is {}x{} instead of {}x{}", entry, b.width(), b.height(), w, h);
                for (i, p) in b.data().iter().enumerate() {
                    let e = pick(want[i].0, want[i].1, &want[i].2);
                    ensure!(p.data() == e.data(), "entry {}: pixel {} is {:?} instead of {:?}", entry, i, p, e);
                }
            }
            c.obs(n > 0, &(entry, k));
        }
    }
    Ok(())
}

pub fn run(ctx: &'static Ctx) {
    // 1. compose
    let sh = shapes(3);
    let mut tuples: Vec<Vec<(u32, u32)>> = shapes(4).into_iter().map(|s| vec![s]).collect();
    for a in shapes(3) {
        for b in shapes(3) {
            tuples.push(vec![a, b]);
        }
    }
    for a in &sh {
        for b in &sh {
            for c in &sh {
                tuples.push(vec![*a, *b, *c]);
            }
        }
    }
    // more images than any small shape of the arrays, and images wider or higher than 8 bit
    tuples.push((0..7).map(|i| (i % 4, if i % 4 == 0 { 0 } else { 1 + i % 3 })).collect());
    tuples.push((0..300).map(|i| (1 + i % 2, 1 + i % 3)).collect());
    tuples.extend([vec![(300, 1), (1, 2)], vec![(1, 280), (2, 1)], vec![(257, 2), (256, 1), (255, 3)]]);
    par(&tuples, |t| {
        ctx.case(&if t.len() > 3 { format!("compose/{}-images", t.len()) } else { format!("compose/{:?}", t) }, |c| {
            compose_case(c, t, Rgb { data: [0.9, 0.1, 0.2, 0.3] }, &|p| *p)?;
            compose_case(c, t, Hsl::new_with_alpha(3.0, -2.0, 0.5, 0.3), &|p| Hsl { data: p.data })
        });
    });

    // 2. blend_image: shapes
    let mut pairs = vec![];
    for a in shapes(ctx.pick(4, 5)) {
        for b in shapes(ctx.pick(4, 5)) {
            pairs.push((a, b));
        }
    }
    pairs.extend([((300, 2), (2, 300)), ((257, 3), (256, 4)), ((300, 300), (2, 2)), ((70000, 1), (69999, 1))]);
    par(&pairs, |(a, b)| {
        for op in OPS {
            ctx.case(&format!("shape/{}/{}x{}+{}x{}", op, a.0, a.1, b.0, b.1), |c| {
                let (b1, b2) = (distinct_buf2(a.0, a.1, 3), distinct_buf2(b.0, b.1, 90));
                let r = ops::blend_image(&b1, &b2, BlendOp::from_str(op).map_err(|e| e.to_string())?, 0.4);
                let (w, h) = (a.0.max(b.0), a.1.max(b.1));
                ensure!((r.width(), r.height()) == (w, h), "result is {}x{}", r.width(), r.height());
                for (x, y, p) in r.enumerate() {
                    match (b1.get_pixel_optional(x as i32, y as i32), b2.get_pixel_optional(x as i32, y as i32)) {
                        (Some(p1), Some(p2)) => check_blend(op, p1, p2, 0.4, &p).map_err(|e| format!("({},{}): {}", x, y, e))?,
                        (Some(q), None) | (None, Some(q)) => ensure!(same_px(&p, q), "({},{}) is {:?} instead of the only image's {:?}", x, y, p.data, q.data),
                        (None, None) => ensure!(p.data == [0.0; 4], "({},{}) is {:?} outside of both images", x, y, p.data),
                    }
                }
                c.obs(w > 0, &bits(&r));
                Ok(())
            });
        }
    });

    // every pair of kinds of images, small and with more than 256 pixels; also an image and itself
    let kinds: Vec<(&str, fn(u32, u32) -> Rgb)> = vec![
        ("gray", |x, y| { let v = ((x * 7 + y * 5 + x * y) % 17) as f32 / 16.0; Rgb { data: [v, v, v, 1.0] } }),
        ("uniform", |_, _| Rgb { data: [0.2, 0.6, 0.9, 1.0] }),
        ("black", |_, _| Rgb { data: [0.0, 0.0, 0.0, 1.0] }),
        ("white", |_, _| Rgb { data: [1.0, 1.0, 1.0, 1.0] }),
        ("none", |_, _| Rgb { data: [0.0; 4] }),
        ("hidden", |x, y| Rgb { data: [(x % 5) as f32 / 4.0, (y % 7) as f32 / 6.0, 0.3, 0.0] }),
        ("opaque", |x, y| Rgb { data: [(x % 9) as f32 / 8.0, (y % 7) as f32 / 6.0, ((x + y) % 4) as f32 / 3.0, 1.0] }),
        ("alphas", |x, y| Rgb { data: [(y % 9) as f32 / 8.0, (x % 7) as f32 / 6.0, 0.7, ((x * 3 + y) % 6) as f32 / 5.0] }),
    ];
    let mut list = vec![];
    for a in 0..kinds.len() {
        for b in 0..kinds.len() {
            for s in [(3u32, 2u32), (21, 17)] {
                list.push((a, b, s));
            }
        }
    }
    par(&list, |(a, b, (w, h))| {
        for op in OPS {
            ctx.case(&format!("kinds/{}/{}+{}/{}x{}", op, kinds[*a].0, kinds[*b].0, w, h), |c| {
                let (b1, b2) = (PixelBuffer::new_from_func(*w, *h, kinds[*a].1), PixelBuffer::new_from_func(*w, *h, kinds[*b].1));
                for t in [0.0f32, 0.4, 1.0] {
                    let r = ops::blend_image(&b1, &b2, BlendOp::from_str(op).map_err(|e| e.to_string())?, t);
                    ensure!((r.width(), r.height()) == (*w, *h), "result is {}x{}", r.width(), r.height());
                    for ((p1, p2), p) in b1.data().iter().zip(b2.data()).zip(r.data()) {
                        check_blend(op, p1, p2, t, p)?;
                    }
                    c.obs(t > 0.0, &bits(&r));
                }
                Ok(())
            });
        }
    });

    // 3. colour grid through the whole-image entry point
    let vals: Vec<f32> = ctx.pick(vec![0.0, 0.13, 0.5, 0.8, 1.0], vec![0.0, 0.05, 0.13, 0.3, 0.5, 0.65, 0.8, 0.95, 1.0]);
    let mut grid = vec![];
    for r in &vals {
        for g in &vals {
            for b in &vals {
                for a in [0.0, 0.35, 1.0] {
                    grid.push(Rgb { data: [*r, *g, *b, a] });
                }
            }
        }
    }
    let grid = &grid;
    let ts = &[0.0f32, 1e-4, 0.003, 0.3, 0.5, 0.85, 0.997, 1.0];
    let work: Vec<(usize, &str, f32)> =
        (0..grid.len()).flat_map(|i| OPS.iter().flat_map(move |o| ts.iter().map(move |t| (i, *o, *t)))).collect();
    par(&work, |(i, op, t)| {
        ctx.case(&format!("color/{}/{}/{:?}", op, t, grid[*i].data), |c| {
            let n = grid.len() as u32;
            let b1 = PixelBuffer::new_with_color(n, 1, grid[*i]);
            let b2 = PixelBuffer::new_from_raw(n, 1, grid.clone());
            let r = ops::blend_image(&b1, &b2, BlendOp::from_str(op).map_err(|e| e.to_string())?, *t);
            for (k, p) in r.data().iter().enumerate() {
                check_blend(op, &grid[*i], &grid[k], *t, p)?;
                c.obs(!same_px(p, &grid[*i]), &p.data.map(f32::to_bits));
            }
            Ok(())
        });
    });

    // 3b. the operators on single channels with colours and intensities beyond both ends
    let lv = [-0.5f32, 0.0, 0.2, 0.5, 1.0, 1.5, 3.0];
    let mut wide = vec![];
    for a in [-0.25f32, 0.0, 0.5, 1.0, 1.75] {
        for (i, r) in lv.iter().enumerate() {
            for k in 0..3 {
                wide.push(Rgb { data: [*r, lv[(i + 2 + k) % 7], lv[(i + 5 * k) % 7], a] });
            }
        }
    }
    let wide = &wide;
    let ts: Vec<f32> = vec![-4.0, -1.0, -0.25, 0.0, 0.3, 1.0, 1.25, 2.0, 4.0, 20.0];
    let ts = &ts;
    let work: Vec<(usize, &str, f32)> = (0..wide.len())
        .flat_map(|i| ["normal", "addition", "subtract", "darken", "lighten"].into_iter().flat_map(move |o| ts.iter().map(move |t| (i, o, *t))))
        .collect();
    par(&work, |(i, op, t)| {
        ctx.case(&format!("wide/{}/{}/{:?}", op, t, wide[*i].data), |c| {
            let n = wide.len() as u32;
            let b1 = PixelBuffer::new_with_color(n, 1, wide[*i]);
            let b2 = PixelBuffer::new_from_raw(n, 1, wide.clone());
            let r = ops::blend_image(&b1, &b2, BlendOp::from_str(op).map_err(|e| e.to_string())?, *t);
            for (k, p) in r.data().iter().enumerate() {
                let e = &ref_blend(op, &rc::v4(&wide[*i].data), &rc::v4(&wide[k].data), *t as f64).unwrap()[0];
                ensure!(rc::near(&p.data, e, 1e-4), "{} of {:?} and {:?} with intensity {} is {:?}, expected {:?}", op, wide[*i].data, wide[k].data, t, p.data, e);
                c.obs(!same_px(p, &wide[*i]), &p.data.map(f32::to_bits));
            }
            Ok(())
        });
    });

    // 4. interlace
    let mut work = vec![];
    for s in shapes(ctx.pick(5, 7)) {
        for o in (0..=s.0 + 2).chain([100, (1 << 31) - 2, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, u32::MAX - 1, u32::MAX]) {
            work.push((s, o));
        }
    }
    for s in [(300, 4), (3, 300), (66000, 2)] {
        for o in [0, 1, 2, 127, 128, 254, 255, 256, 257, 299, 300, 301, 32767, 32768, 65535, 65536, 65537, 70000] {
            work.push((s, o));
        }
    }
    par(&work, |((w, h), o)| {
        ctx.case(&format!("interlace/{}x{}/{}", w, h, o), |c| {
            let b = distinct_buf(*w, *h);
            let r = ops::interlace(&b, *o);
            ensure!((r.width(), r.height()) == (*w, *h), "result is {}x{}", r.width(), r.height());
            for (x, y, p) in r.enumerate() {
                let s = if y % 2 == 0 { x as i64 - *o as i64 } else { x as i64 + *o as i64 };
                let e = b.get_pixel(s.clamp(0, *w as i64 - 1) as u32, y);
                ensure!(same_px(&p, e), "({},{}) is {:?} instead of {:?}", x, y, p.data, e.data);
            }
            c.obs(*o > 0 && *w > 1, &bits(&r));
            Ok(())
        });
    });
}
