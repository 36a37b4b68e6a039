//! C08 flips, quarter turns and crops; C09 resize and free rotation; C10 blur, unsharp, edges.
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use d10::ops;
use d10::{Color, EdgeDetection, FilterMode, PixelBuffer, Rgb};
use std::collections::{HashMap, VecDeque};

pub const RULE8: &str = "Breadth-first search: from every shape in the bound, with pairwise distinct pixels, all sequences of flips, quarter turns and crops (every offset and size up to past the border, plus u32::MAX) up to the depth bound; states are deduplicated by content; every transition is executed on the real buffer and compared with a grid of source coordinates. Single flips and turns also of rows and columns of 66,000 to 16.7 million pixels. Non-trivial: the transition changed the buffer.";
pub const ASSUME8: &[&str] = &["shapes up to 4x4 (quick) or 6x6 (thorough) plus strips; the operations move pixels independently of their values, so one image with pairwise distinct pixels per shape decides all of them"];

type G = (u32, u32, Vec<u32>); // w, h, source index of every pixel

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    FlipH,
    FlipV,
    R90,
    R180,
    R270,
    Crop(u32, u32, u32, u32),
}

fn ref_op(g: &G, o: Op) -> G {
    let (w, h, d) = g;
    let at = |x: u32, y: u32| d[(x + y * w) as usize];
    let mk = |nw: u32, nh: u32, f: &dyn Fn(u32, u32) -> u32| -> G {
        let mut v = vec![];
        for y in 0..nh {
            for x in 0..nw {
                v.push(f(x, y));
            }
        }
        (nw, nh, v)
    };
    match o {
        Op::FlipH => mk(*w, *h, &|x, y| at(w - 1 - x, y)),
        Op::FlipV => mk(*w, *h, &|x, y| at(x, h - 1 - y)),
        // clockwise: the left column (read upwards) becomes the top row
        Op::R90 => mk(*h, *w, &|x, y| at(y, h - 1 - x)),
        Op::R180 => mk(*w, *h, &|x, y| at(w - 1 - x, h - 1 - y)),
        Op::R270 => mk(*h, *w, &|x, y| at(w - 1 - y, x)),
        Op::Crop(ox, oy, cw, ch) => {
            let ox = ox.min(*w);
            let oy = oy.min(*h);
            let cw = cw.min(w - ox);
            let ch = ch.min(h - oy);
            if cw == 0 || ch == 0 {
                (0, 0, vec![])
            } else {
                mk(cw, ch, &|x, y| at(x + ox, y + oy))
            }
        }
    }
}

fn real_op<C: Color>(b: &PixelBuffer<C>, o: Op) -> PixelBuffer<C> {
    match o {
        Op::FlipH => ops::flip_horizontal(b),
        Op::FlipV => ops::flip_vertical(b),
        Op::R90 => ops::rotate90(b),
        Op::R180 => ops::rotate180(b),
        Op::R270 => ops::rotate270(b),
        Op::Crop(x, y, w, h) => ops::crop(b, x, y, w, h),
    }
}

fn alphabet(w: u32, h: u32, crops: bool) -> Vec<Op> {
    let mut v = vec![Op::FlipH, Op::FlipV, Op::R90, Op::R180, Op::R270];
    if crops {
        let args = |n: u32| -> Vec<u32> { (0..=n + 2).chain([1 << 31, u32::MAX]).collect() };
        for ox in args(w) {
            for oy in args(h) {
                for cw in args(w) {
                    for ch in args(h) {
                        v.push(Op::Crop(ox, oy, cw, ch));
                    }
                }
            }
        }
    }
    v
}

pub fn run8(ctx: &'static Ctx) {
    let m = ctx.pick(4, 6);
    let mut shapes: Vec<(u32, u32)> = (1..=m).flat_map(|w| (1..=m).map(move |h| (w, h))).collect();
    shapes.extend([(0, 0), (7, 2), (2, 9)]);
    par(&shapes, |&(w, h)| {
        ctx.case(&format!("seq/{}x{}", w, h), |c| {
            let src = distinct_buf(w, h);
            let srch: PixelBuffer<d10::Hsl> = src.map_colors(|p| d10::Hsl::new_with_alpha(p.data[0], p.data[1], p.data[2], p.data[3]));
            let start: G = (w, h, (0..w * h).collect());
            let mut seen: HashMap<G, (String, usize)> = HashMap::new();
            seen.insert(start.clone(), (String::new(), 0));
            let mut q = VecDeque::from([start]);
            let mut tr = 0;
            let depth = ctx.pick(3, 4);
            while let Some(g) = q.pop_front() {
                let (path, d) = seen[&g].clone();
                if d >= depth {
                    continue;
                }
                let b = PixelBuffer::new_from_raw(g.0, g.1, g.2.iter().map(|i| src.data()[*i as usize]).collect());
                let bh = PixelBuffer::new_from_raw(g.0, g.1, g.2.iter().map(|i| srch.data()[*i as usize]).collect());
                let before = bits(&b);
                for o in alphabet(g.0, g.1, true) {
                    let want = ref_op(&g, o);
                    let r = guard(|| real_op(&b, o)).map_err(|e| format!("{} {:?}: {}", path, o, e))?;
                    let e = PixelBuffer::new_from_raw(want.0, want.1, want.2.iter().map(|i| src.data()[*i as usize]).collect());
                    same(&r, &e).map_err(|e| format!("{} {:?}: {}", path, o, e))?;
                    if d == 0 {
                        let rh = real_op(&bh, o);
                        ensure!((rh.width(), rh.height()) == (r.width(), r.height()) && rh.data().iter().zip(r.data()).all(|(a, b)| a.data == b.data), "{:?} differs between colour types", o);
                    }
                    tr += 1;
                    c.obs(want != g, &(format!("{:?}", o), &want.2));
                    if !seen.contains_key(&want) {
                        seen.insert(want.clone(), (format!("{} {:?}", path, o), d + 1));
                        q.push_back(want);
                    }
                }
                ensure!(bits(&b) == before, "an operation changed its source");
            }
            c.states(seen.len() as u64);
            c.transitions(tr);
            c.traces(tr);
            Ok(())
        });
    });
    // what is in the pixels does not matter
    par(&[(3u32, 3u32), (5, 4), (2, 7), (1, 6), (6, 1)], |&(w, h)| {
        let contents: Vec<(&str, PixelBuffer<Rgb>)> = vec![
            ("invisible", buf(w, h, |x, y| Rgb { data: [x as f32 / 8.0, y as f32 / 8.0, 0.5, if (x + 2 * y) % 3 == 0 { 0.0 } else { 1.0 }] })),
            ("all-invisible", buf(w, h, |x, y| Rgb { data: [x as f32 / 8.0, y as f32 / 8.0, 0.5, 0.0] })),
            ("two-colours", buf(w, h, |x, y| if (x * x + y) % 3 == 0 { Rgb::WHITE } else { Rgb::BLACK })),
            ("gray", buf(w, h, |x, y| Rgb { data: [(x + y * w) as f32 / 64.0; 4] })),
            ("equal-rows", buf(w, h, |x, _| distinct_px(x))),
            ("equal-columns", buf(w, h, |_, y| distinct_px(y))),
            ("symmetric-but-one", buf(w, h, |x, y| if (x, y) == (0, h - 1) { Rgb::RED } else { Rgb::NONE })),
            ("out-of-range", buf(w, h, |x, y| Rgb { data: [x as f32 * 3.0 - 4.0, y as f32 * -2.0, 7.5, 2.0] })),
        ];
        for (n, src) in contents {
            ctx.case(&format!("values/{}/{}x{}", n, w, h), |c| {
                let g: G = (w, h, (0..w * h).collect());
                for o in alphabet(w, h, true) {
                    let want = ref_op(&g, o);
                    let e = PixelBuffer::new_from_raw(want.0, want.1, want.2.iter().map(|i| src.data()[*i as usize]).collect());
                    same(&real_op(&src, o), &e).map_err(|e| format!("{:?}: {}", o, e))?;
                    c.obs(want != g, &format!("{:?}", o));
                    c.transitions(1);
                }
                Ok(())
            });
        }
    });
    // larger images: one application of each
    let big: Vec<(u32, u32)> = if ctx.quick() { vec![(64, 33), (257, 3), (1, 1000), (300, 301), (66000, 2), (1, 70001), (2, 66000)] } else { vec![(64, 33), (257, 3), (1, 1000), (1000, 1), (511, 257), (300, 301), (66000, 2), (2, 66000), (1000, 1100)] };
    par(&big, |&(w, h)| {
        ctx.case(&format!("large/{}x{}", w, h), |c| {
            let src = buf(w, h, |x, y| Rgb { data: [x as f32 / w as f32, y as f32 / h as f32, ((x ^ y) & 1) as f32, 1.0] });
            let g: G = (w, h, (0..w * h).collect());
            for o in [Op::FlipH, Op::FlipV, Op::R90, Op::R180, Op::R270, Op::Crop(w / 3, h / 3, w / 2, h / 2), Op::Crop(w.saturating_sub(3), 0, 2, h), Op::Crop(0, h.saturating_sub(3), w, 2), Op::Crop(w / 2, h / 2, 256, 256), Op::Crop(w - 1, h - 1, 5, 5), Op::Crop(0, 0, w, h), Op::Crop(1, 0, u32::MAX, u32::MAX)] {
                let want = ref_op(&g, o);
                let e = PixelBuffer::new_from_raw(want.0, want.1, want.2.iter().map(|i| src.data()[*i as usize]).collect());
                same(&real_op(&src, o), &e).map_err(|e| format!("{:?}: {}", o, e))?;
                c.obs(true, &format!("{:?}", o));
                c.transitions(1);
            }
            Ok(())
        });
    });
    // more pixels than single precision can count, along one side and in total
    let giant: Vec<(u32, u32)> = ctx.pick(vec![(16_777_220, 1), (1, 16_777_220)], vec![(16_777_220, 1), (1, 16_777_220), (4_099, 4_097), (8_388_611, 3), (3, 8_388_611)]);
    for (w, h) in giant {
        ctx.case(&format!("giant/{}x{}", w, h), |c| {
            let val = |x: u32, y: u32| -> [f32; 4] { [(x % 4096) as f32, (x / 4096) as f32, (y % 4096) as f32, (y / 4096) as f32] };
            let src = PixelBuffer::new_from_raw(w, h, (0..w as usize * h as usize).map(|i| Rgb { data: val((i % w as usize) as u32, (i / w as usize) as u32) }).collect());
            for o in [Op::FlipH, Op::FlipV, Op::R90, Op::R180, Op::R270, Op::Crop(w / 3, h / 3, w / 2, h / 2 + 1), Op::Crop(1.min(w - 1), 1.min(h - 1), u32::MAX, u32::MAX)] {
                let out = real_op(&src, o);
                let (ew, eh) = match o {
                    Op::R90 | Op::R270 => (h, w),
                    Op::Crop(x, y, cw, ch) => (cw.min(w - x), ch.min(h - y)),
                    _ => (w, h),
                };
                if ew == 0 || eh == 0 {
                    ensure!(out.is_empty(), "{:?}: size {}x{}", o, out.width(), out.height());
                    continue;
                }
                ensure!((out.width(), out.height()) == (ew, eh), "{:?}: size {}x{}", o, out.width(), out.height());
                for (i, p) in out.data().iter().enumerate() {
                    let (x, y) = ((i % ew as usize) as u32, (i / ew as usize) as u32);
                    let e = match o {
                        Op::FlipH => val(w - 1 - x, y),
                        Op::FlipV => val(x, h - 1 - y),
                        Op::R90 => val(y, h - 1 - x),
                        Op::R180 => val(w - 1 - x, h - 1 - y),
                        Op::R270 => val(w - 1 - y, x),
                        Op::Crop(ox, oy, _, _) => val(x + ox, y + oy),
                    };
                    ensure!(p.data == e, "{:?}: pixel ({},{}) is {:?}, expected {:?}", o, x, y, p.data, e);
                }
                c.obs(true, &format!("{:?}", o));
                c.transitions(1);
            }
            Ok(())
        });
    }
}

// ---- C09 ------------------------------------------------------------------------------------

pub const RULE9: &str = "Every source shape x target shape x filter in the bound (pairwise distinct, black/white impulse and uniform images) and every angle of the grid x filter x background, each output pixel compared with an f64 reference filter at the ideal source position (edge-clamped, normalised weights, result clamped to 0..1); within 1e-4 of a rounding boundary either side is accepted. Shrinking and growing by factors up to 5000, sides beyond 65535 (nearest), hundreds of turns. Non-trivial: the target differs from the source shape, or the angle is not a multiple of 360.";
pub const ASSUME9: &[&str] = &["tolerance 5e-4 per channel", "resizing an empty image to a non-empty one, or to a width/height of which only one is 0, is a caller error (panic) and is not explored"];

pub const FILTERS: [(FilterMode, &str); 5] = [
    (FilterMode::Nearest, "nearest"),
    (FilterMode::Bilinear, "bilinear"),
    (FilterMode::Bicubic, "bicubic"),
    (FilterMode::Lanczos3, "lanczos3"),
    (FilterMode::Auto, "auto"),
];

fn px(b: &PixelBuffer<Rgb>, x: i64, y: i64) -> [f64; 4] {
    let x = x.clamp(0, b.width() as i64 - 1) as u32;
    let y = y.clamp(0, b.height() as i64 - 1) as u32;
    b.data()[(x + y * b.width()) as usize].data.map(|v| v as f64)
}

fn kern_1d(filter: FilterMode, radius: f64, d: f64) -> f64 {
    let a = d.abs();
    match filter {
        FilterMode::Bilinear => (1.0 - a).max(0.0),
        FilterMode::Bicubic => {
            if a < 1.0 {
                1.5 * a * a * a - 2.5 * a * a + 1.0
            } else if a < 2.0 {
                -0.5 * a * a * a + 2.5 * a * a - 4.0 * a + 2.0
            } else {
                0.0
            }
        }
        _ => {
            let v = a / radius * 3.0;
            let sinc = |v: f64| if v == 0.0 { 1.0 } else { (v * std::f64::consts::PI).sin() / (v * std::f64::consts::PI) };
            if v < 3.0 { sinc(v) * sinc(v / 3.0) } else { 0.0 }
        }
    }
}

fn filter_ref(b: &PixelBuffer<Rgb>, x: f64, y: f64, filter: FilterMode, radius: f64) -> [f64; 4] {
    let r = match filter {
        FilterMode::Bilinear => 1.0,
        FilterMode::Bicubic => 2.0,
        _ => radius,
    };
    let span = |v: f64| ((v - r).floor() as i64)..=((v + r).ceil() as i64);
    let wx: Vec<(i64, f64)> = span(x).map(|i| (i, kern_1d(filter, radius, i as f64 - x))).filter(|w| w.1 != 0.0).collect();
    let wy: Vec<(i64, f64)> = span(y).map(|i| (i, kern_1d(filter, radius, i as f64 - y))).filter(|w| w.1 != 0.0).collect();
    let mut s = [0f64; 4];
    let mut sum = 0.0;
    for (j, b1) in &wy {
        for (i, a1) in &wx {
            let p = px(b, *i, *j);
            let w = a1 * b1;
            sum += w;
            for k in 0..4 {
                s[k] += w * p[k];
            }
        }
    }
    s.map(|v| (v / sum).clamp(0.0, 1.0))
}

const TOL: f64 = 5e-4;

fn check_resize(c: &Case, b: &PixelBuffer<Rgb>, nw: u32, nh: u32, f: FilterMode, name: &str) -> Res {
    let before = bits(b);
    let r = ops::resize(b, nw, nh, f);
    ensure!(bits(b) == before, "{}: source changed", name);
    ensure!((r.width(), r.height()) == (nw, nh), "{}: size {}x{}", name, r.width(), r.height());
    if (nw, nh) == (b.width(), b.height()) {
        return same(&r, b).map_err(|e| format!("{}: same size: {}", name, e));
    }
    let sx = nw as f64 / b.width() as f64;
    let sy = nh as f64 / b.height() as f64;
    let (f, radii) = match f {
        FilterMode::Auto => {
            if nw >= b.width() || nh >= b.height() {
                (FilterMode::Bicubic, vec![0.0])
            } else {
                let s = (2.0 / sx.min(sy)).max(3.0);
                let mut v = vec![s.ceil()];
                if (s - s.round()).abs() < 1e-3 && s > 3.0 {
                    v = vec![s.round(), s.round() + 1.0];
                }
                (FilterMode::Lanczos3, v)
            }
        }
        FilterMode::Lanczos3 => (f, vec![3.0]),
        f => (f, vec![0.0]),
    };
    let mut last = Ok(());
    for rad in radii {
        last = (|| {
            for y in 0..nh {
                for x in 0..nw {
                    let got = r.data()[(x + y * nw) as usize].data;
                    if f as u8 == FilterMode::Nearest as u8 {
                        let near = |v: f64| -> Vec<i64> {
                            let v = v + 0.5;
                            if (v - v.round()).abs() < 1e-4f64.max(4e-7 * b.width().max(b.height()) as f64) { vec![v.round() as i64, v.round() as i64 - 1] } else { vec![v.floor() as i64] }
                        };
                        let ok = near(y as f64 / sy).iter().any(|j| near(x as f64 / sx).iter().any(|i| close_px(&got, &px(b, *i, *j), 0.0)));
                        ensure!(ok, "{}: pixel ({},{}) is {:?}, not the nearest source pixel", name, x, y, got);
                    } else {
                        let want = filter_ref(b, (x as f64 + 0.5) / sx - 0.5, (y as f64 + 0.5) / sy - 0.5, f, rad);
                        ensure!(close_px(&got, &want, TOL), "{}: pixel ({},{}) is {:?}, expected {:?}", name, x, y, got, want);
                    }
                }
            }
            Ok(())
        })();
        if last.is_ok() {
            break;
        }
    }
    c.obs(true, &(name, bits(&r)));
    last
}

fn sources(w: u32, h: u32) -> Vec<(&'static str, PixelBuffer<Rgb>)> {
    vec![
        ("distinct", distinct_buf(w, h)),
        ("checker", buf(w, h, |x, y| if (x + y) % 2 == 0 { Rgb::WHITE } else { Rgb::NONE })),
        ("uniform", buf(w, h, |_, _| Rgb { data: [0.25, 0.5, 1.0, 1.0] })),
        // transparent pixels keep their colour
        ("hidden", buf(w, h, |x, y| Rgb { data: [((x * 7 + y * 3) % 11) as f32 / 10.0, ((x + y * 5) % 7) as f32 / 6.0, ((x * 3 + y) % 5) as f32 / 4.0, if (x / 4 + y / 4) % 2 == 0 { 0.0 } else { 1.0 }] })),
    ]
}

pub fn run9(ctx: &'static Ctx) {
    let (ms, mt) = (ctx.pick(5, 8), ctx.pick(7, 12));
    let mut items: Vec<(u32, u32, u32, u32)> = vec![];
    for w in 1..=ms {
        for h in 1..=ms {
            for nw in 1..=mt {
                for nh in 1..=mt {
                    items.push((w, h, nw, nh));
                }
            }
        }
    }
    // shrinking by every ratio that selects a different auto window, and large growth
    for (w, h) in [(24, 18), (17, 31)] {
        for n in 1..=ctx.pick(12, 30) {
            items.push((w, h, n, n.min(h - 1)));
            items.push((w, h, n + 3, 2));
        }
    }
    items.extend([(2, 3, 40, 50), (64, 1, 5, 1), (1, 64, 1, 7), (50, 50, 1, 1), (5, 5, 64, 2), (64, 64, 63, 65)]);
    items.extend([(300, 2, 299, 3), (2, 300, 3, 301), (300, 3, 40, 2), (3, 300, 2, 31), (5, 4, 300, 260), (260, 258, 7, 5), (600, 1, 20, 1), (1, 600, 1, 9), (2, 2, 500, 1), (1000, 3, 999, 3)]);
    // tiny images to sizes beyond every small window or threshold
    for w in 1..=3 {
        for h in 1..=3 {
            for nw in [1, 2, 9, 14, 17, 33] {
                for nh in [1, 2, 9, 14, 17, 33] {
                    items.push((w, h, nw, nh));
                }
            }
        }
    }
    if !ctx.quick() {
        items.extend([(257, 256, 256, 257), (400, 300, 200, 150), (2000, 1, 20, 1), (20, 1, 66000, 1), (1, 20, 1, 66000), (128, 128, 300, 17)]);
    }
    par(&items, |&(w, h, nw, nh)| {
        for (sn, src) in sources(w, h) {
            ctx.case(&format!("resize/{}/{}x{}-{}x{}", sn, w, h, nw, nh), |c| {
                for (f, n) in FILTERS {
                    check_resize(c, &src, nw, nh, f, n)?;
                }
                Ok(())
            });
        }
    });
    // shrinking and growing by huge factors
    let mut items = vec![(1000u32, 2u32, 7u32, 1u32), (2, 1000, 1, 7), (2600, 1, 5, 1), (1, 2600, 1, 5), (500, 1, 4, 1), (9, 1, 3000, 1), (1, 9, 1, 3000), (1001, 1, 1, 1), (700, 700, 6, 5)];
    items.extend([(40_000, 1, 9, 1), (1, 40_000, 1, 9), (66_000, 1, 601, 1), (1, 66_000, 1, 601), (3, 1, 70_000, 1), (1, 3, 1, 70_000), (40_000, 2, 39_999, 2)]);
    par(&items, |&(w, h, nw, nh)| {
        ctx.case(&format!("resize-factor/{}x{}-{}x{}", w, h, nw, nh), |c| {
            let src = distinct_buf(w, h);
            let long = w.max(h).max(nw).max(nh) > 5000;
            for (f, n) in FILTERS {
                if n == "nearest" || (!long && (n != "auto" || ctx.pick(1200, 3000) > w.max(h))) {
                    check_resize(c, &src, nw, nh, f, n)?;
                }
            }
            Ok(())
        });
    });
    ctx.case("resize/empty", |c| {
        for (f, n) in FILTERS {
            let r = ops::resize(&distinct_buf(3, 2), 0, 0, f);
            ensure!(r.is_empty() && r.data().is_empty(), "{}: not empty", n);
            let r = ops::resize(&PixelBuffer::new(0, 0), 0, 0, f);
            ensure!(r.is_empty(), "{}: not empty", n);
            c.obs(true, &n);
        }
        Ok(())
    });

    // rotation
    let mut angles: Vec<f32> = (-24..=24).map(|i| i as f32 * 15.0).collect();
    angles.extend([0.5, 1.0, 7.0, 33.3, 44.99, 89.0, 91.0, 123.4, 179.5, 269.0, 359.0, -1.0, -91.0, 720.0, 405.0, 450.0]);
    if !ctx.quick() {
        angles.extend((-180..180).map(|i| i as f32 * 2.0 + 0.7));
    }
    let m = ctx.pick(5, 7);
    let mut shapes: Vec<(u32, u32)> = (1..=m).flat_map(|w| (1..=m).map(move |h| (w, h))).collect();
    shapes.extend([(16, 9), (9, 16), (12, 12)]);
    if !ctx.quick() {
        shapes.extend([(300, 3), (3, 300), (64, 65)]);
    }
    let mut items = vec![];
    for s in &shapes {
        for a in &angles {
            items.push((*s, *a));
        }
    }
    // many turns
    for s in [(2, 2), (3, 3), (5, 5), (4, 3)] {
        for a in [32_760.0f32 + 90.0, 36_045.0, -36_090.0, 65_610.0, 72_090.0, -72_030.0, 360_090.0] {
            items.push((s, a));
        }
    }
    for s in [(300, 4), (4, 300), (65, 64), (258, 257)] {
        for a in [0.5f32, 45.0, 90.0, 180.0, 200.0] {
            items.push((s, a));
        }
    }
    // angles that only matter far from the centre
    for s in [(4001, 3), (3, 4001), (1200, 2)] {
        for a in [0.001f32, 0.004, 0.0099, 0.02, 0.05, 0.1, -0.01, 89.99, 90.01, 179.99, 180.02, 359.98, 359.995, 360.01, -359.99, 719.99] {
            items.push((s, a));
        }
    }
    for s in [(4100, 1), (1, 4100), (4097, 2), (9000, 2), (2, 9000), (33_000, 1), (66_000, 1), (1, 66_000)] {
        for a in [0.0f32, 180.0, 360.0] {
            items.push((s, a));
        }
    }
    par(&items, |&((w, h), a)| {
        ctx.case(&format!("rotate/{}x{}/{}", w, h, a), |c| {
            let bg = Rgb { data: [0.9, 0.1, 0.3, 0.6] };
            for (sn, src) in sources(w, h) {
                for (f, n) in FILTERS {
                    let before = bits(&src);
                    let r = ops::rotate(&src, a, bg, f);
                    ensure!(bits(&src) == before, "{}: source changed", n);
                    ensure!((r.width(), r.height()) == (w, h), "{}: size {}x{}", n, r.width(), r.height());
                    if a == 0.0 || a == 360.0 {
                        close(&r, &src, 1e-5).map_err(|e| format!("{} {}: full turn: {}", sn, n, e))?;
                    }
                    if w == h && (a / 90.0).fract() == 0.0 {
                        let e = match (a / 90.0).rem_euclid(4.0) as i32 {
                            0 => src.clone(),
                            1 => ops::rotate90(&src),
                            2 => ops::rotate180(&src),
                            _ => ops::rotate270(&src),
                        };
                        close(&r, &e, if a.abs() > 1000.0 { 2e-2 } else { 1e-4 }).map_err(|e| format!("{} {}: quarter turns: {}", sn, n, e))?;
                    }
                    let t = (a as f64).to_radians();
                    // angles are stored with 24 bits
                    let slip = if a.abs() > 1000.0 { t.abs() * 1.2e-7 * (w + h) as f64 } else if w.max(h) > 1000 { 3e-7 * (1.0 + t.abs()) * (w + h) as f64 } else { 0.0 };
                    let (cx, cy) = ((w as f64 - 1.0) / 2.0, (h as f64 - 1.0) / 2.0);
                    for y in 0..h {
                        for x in 0..w {
                            let (dx, dy) = (x as f64 - cx, y as f64 - cy);
                            // inverse of a clockwise turn (y points down)
                            let sx = dx * t.cos() + dy * t.sin() + cx;
                            let sy = -dx * t.sin() + dy * t.cos() + cy;
                            let got = r.data()[(x + y * w) as usize].data;
                            let cand = |v: f64| -> Vec<i64> {
                                let v = v + 0.5;
                                if (v - v.round()).abs() < 1e-4 + slip { vec![v.round() as i64, v.round() as i64 - 1] } else { vec![v.floor() as i64] }
                            };
                            let mut ok = false;
                            let mut want = vec![];
                            for j in cand(sy) {
                                for i in cand(sx) {
                                    let inside = i >= 0 && j >= 0 && i < w as i64 && j < h as i64;
                                    let e = if !inside {
                                        bg.data.map(|v| v as f64)
                                    } else {
                                        match f {
                                            FilterMode::Nearest => px(&src, i, j),
                                            FilterMode::Bilinear => filter_ref(&src, sx, sy, f, 0.0),
                                            FilterMode::Lanczos3 => filter_ref(&src, sx, sy, f, 3.0),
                                            _ => filter_ref(&src, sx, sy, FilterMode::Bicubic, 0.0),
                                        }
                                    };
                                    ok |= close_px(&got, &e, TOL + 3.0 * slip);
                                    want.push(e);
                                }
                            }
                            ensure!(ok, "{} {}: pixel ({},{}) is {:?}, expected {:?}", sn, n, x, y, got, want);
                        }
                    }
                    c.obs(a.rem_euclid(360.0) != 0.0, &(n, sn, bits(&r)));
                }
            }
            Ok(())
        });
    });
}

// ---- C10 ------------------------------------------------------------------------------------

pub const RULE10: &str = "Every image shape in the bound x radius x sigma (default and explicit) x factor, on distinct, impulse and uniform images: blur against an f64 gaussian convolution, unsharp against clamp(c + (c - blur) * factor), edges against the f64 Sobel magnitude / Laplacian. Edges also for channel values outside of 0..1 and on images whose channels have opposite gradients; the Laplacian is signed; radii far beyond the image. Non-trivial: the output differs from the input.";
pub const ASSUME10: &[&str] = &["tolerance 2e-4 per channel", "radius up to 6 (quick) or 12 (thorough)"];

fn gauss_ref(b: &PixelBuffer<Rgb>, x: i64, y: i64, r: i64, sigma: f64) -> [f64; 4] {
    let mut s = [0f64; 4];
    let mut sum = 0.0;
    for j in -r..=r {
        for i in -r..=r {
            let w = if sigma == 0.0 {
                if i == 0 && j == 0 { 1.0 } else { 0.0 }
            } else {
                (-((i * i + j * j) as f64) / (2.0 * sigma * sigma)).exp()
            };
            sum += w;
            let p = px(b, x + i, y + j);
            for k in 0..4 {
                s[k] += w * p[k];
            }
        }
    }
    s.map(|v| v / sum)
}

pub fn run10(ctx: &'static Ctx) {
    let m = ctx.pick(5, 7);
    let mut shapes: Vec<(u32, u32)> = (1..=m).flat_map(|w| (1..=m).map(move |h| (w, h))).collect();
    shapes.extend([(9, 9), (11, 4), (3, 12), (16, 16)]);
    let rmax = ctx.pick(6u32, 12);
    let mut items: Vec<((u32, u32), Vec<u32>, bool)> = shapes.iter().map(|s| (*s, (0..=rmax).collect(), true)).collect();
    // all kinds of images with more than 256 pixels
    items.extend([((20, 17), vec![0, 2], true), ((33, 31), vec![1], true)]);
    // large images, and radii far beyond the image
    items.extend([((300, 2), vec![1, 2, 3, 4, 9], false), ((2, 300), vec![1, 2, 3, 4, 9], false), ((7, 5), vec![15, 16, 31, 32, 50, 64], false)]);
    if !ctx.quick() {
        items.extend([((6, 4), vec![100, 127, 128, 150], false), ((260, 258), vec![1, 2, 3, 4], false), ((40, 30), vec![20], false)]);
    }
    par(&items, |((w, h), radii, small)| {
        let (w, h) = (*w, *h);
        let mut srcs = sources(w, h);
        if !small {
            srcs.truncate(1);
        }
        srcs.push(("impulse", buf(w, h, |x, y| if (x, y) == (w / 2, h / 3) { Rgb::WHITE } else { Rgb::BLACK })));
        // colours outside of 0..1: edges only
        let wide: Vec<(&'static str, PixelBuffer<Rgb>)> = sources(w, h).into_iter().take(2).map(|(n, mut b)| {
            b.mod_colors(|p| Rgb { data: [p.data[0] * 9.0 - 4.0, p.data[1] * 0.1, p.data[2] * 2.0 - 0.5, p.data[3]] });
            (if n == "checker" { "wide-checker" } else { "wide" }, b)
        }).collect();
        srcs.extend(wide);
        // changes of the channels that cancel each other
        let r = |v: u32, n: u32| v as f32 / n.max(2) as f32;
        let gray = |x: u32, y: u32| ((x * 7 + y * 5 + x * y) % 17) as f32 / 16.0;
        if *small && w * h >= 6 {
            srcs.push(("gray", buf(w, h, |x, y| Rgb { data: [gray(x, y), gray(x, y), gray(x, y), 1.0] })));
            srcs.push(("one-different", buf(w, h, |x, y| Rgb { data: [0.25, 0.5, if (x, y) == (w - 1, h - 1) { 0.0 } else { 0.75 }, 1.0] })));
            srcs.push(("alpha-only", buf(w, h, |x, y| Rgb { data: [0.25, 0.5, 0.75, gray(y, x)] })));
        }
        srcs.push(("wide-opposite-x", buf(w, h, |x, _| Rgb { data: [r(x, w), 1.0 - r(x, w), 0.5, 1.0] })));
        srcs.push(("wide-opposite-y", buf(w, h, |_, y| Rgb { data: [0.25, r(y, h), 1.0 - r(y, h), 0.5] })));
        srcs.push(("wide-opposite-xy", buf(w, h, |x, y| Rgb { data: [r(x, w), r(y, h), 1.0 - (r(x, w) + r(y, h)) / 2.0, r(x, w)] })));
        srcs.push(("wide-one-channel", buf(w, h, |x, y| Rgb { data: [0.3, 0.3, if (x * y) % 3 == 1 { 0.9 } else { 0.3 }, 1.0] })));
        for (sn, src) in &srcs {
            let radii: &[u32] = if sn.starts_with("wide") { &[] } else { radii };
            for r in radii.iter().copied() {
                for sg in [None, Some(0.0f32), Some(0.3), Some(0.8), Some(1.0), Some(2.5), Some(40.0)] {
                    ctx.case(&format!("blur/{}/{}x{}/r{}/s{:?}", sn, w, h, r, sg), |c| {
                        let before = bits(src);
                        let sigma = sg.map(|s| s as f64).unwrap_or(r as f64 / 2.0);
                        let out = ops::gaussian_blur(src, r, sg);
                        ensure!((out.width(), out.height()) == (w, h), "size {}x{}", out.width(), out.height());
                        let factors = [0.0f32, 0.5, 1.0, 3.0, -1.0];
                        let sharp: Vec<PixelBuffer<Rgb>> = factors.iter().map(|f| ops::unsharp(src, r, *f, sg)).collect();
                        for y in 0..h {
                            for x in 0..w {
                                let e = gauss_ref(src, x as i64, y as i64, r as i64, sigma);
                                let i = (x + y * w) as usize;
                                ensure!(close_px(&out.data()[i].data, &e, 2e-4), "blur ({},{}) is {:?}, expected {:?}", x, y, out.data()[i].data, e);
                                for (f, s) in factors.iter().zip(&sharp) {
                                    let p = src.data()[i].data;
                                    let want: Vec<f64> = (0..4).map(|k| (p[k] as f64 + (p[k] as f64 - e[k]) * *f as f64).clamp(0.0, 1.0)).collect();
                                    ensure!(close_px(&s.data()[i].data, &want, 1e-3), "unsharp {} ({},{}) is {:?}, expected {:?}", f, x, y, s.data()[i].data, want);
                                }
                            }
                        }
                        ensure!(bits(src) == before, "source changed");
                        c.obs(bits(&out) != before, &bits(&out));
                        c.eval_n(factors.len() as u64);
                        Ok(())
                    });
                }
            }
            ctx.case(&format!("edges/{}/{}x{}", sn, w, h), |c| {
                let before = bits(src);
                let so = ops::edge_detection(src, EdgeDetection::Sobel);
                let la = ops::edge_detection(src, EdgeDetection::Laplace);
                for (n, o) in [("sobel", &so), ("laplace", &la)] {
                    ensure!((o.width(), o.height()) == (w, h), "{} size {}x{}", n, o.width(), o.height());
                }
                for y in 0..h as i64 {
                    for x in 0..w as i64 {
                        let i = (x + y * w as i64) as usize;
                        let mut sob = [0f64; 4];
                        let mut lap = [0f64; 4];
                        for k in 0..3 {
                            let p = |dx: i64, dy: i64| px(src, x + dx, y + dy)[k];
                            let gx = p(-1, -1) + 2.0 * p(-1, 0) + p(-1, 1) - p(1, -1) - 2.0 * p(1, 0) - p(1, 1);
                            let gy = p(-1, -1) + 2.0 * p(0, -1) + p(1, -1) - p(-1, 1) - 2.0 * p(0, 1) - p(1, 1);
                            sob[k] = (gx * gx + gy * gy).sqrt().clamp(0.0, 1.0);
                            let mut l = -9.0 * p(0, 0);
                            for dy in -1..=1 {
                                for dx in -1..=1 {
                                    l += p(dx, dy);
                                }
                            }
                            lap[k] = l;
                        }
                        sob[3] = 1.0;
                        lap[3] = 1.0;
                        // the Laplacian is signed
                        let got = la.data()[i].data;
                        ensure!(close_px(&so.data()[i].data, &sob, if sn.starts_with("wide") { 1e-3 } else { 2e-4 }), "sobel ({},{}) is {:?}, expected {:?}", x, y, so.data()[i].data, sob);
                        ensure!((0..4).all(|k| (got[k] as f64 - lap[k]).abs() < if sn.starts_with("wide") { 1e-3 } else { 2e-4 }), "laplace ({},{}) is {:?}, expected {:?}", x, y, got, lap);
                    }
                }
                ensure!(bits(src) == before, "source changed");
                c.obs(true, &(bits(&so), bits(&la)));
                Ok(())
            });
        }
    });
}
