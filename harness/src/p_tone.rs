//! C15, C16: tone corrections driven by image statistics, against f64 references.
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::refcolor::*;
use d10::{ops, EqualizeMode, PixelBuffer, Rgb};
use d10_ops::{BalanceMode, SaturationMode};

pub const RULE15: &str = "All images that are sequences of up to 3 (quick) or 4 (thorough) colours of an alphabet, plus ramps over all 256 levels and images with one outlier per position, times every mode and threshold, through balance, equalize and stretch_contrast; every output pixel compared with an f64 reference computed from exact pixel counts. Where a channel value or a cumulative share is within 1e-5 of a bin boundary or of the threshold either side is accepted. Images made of many copies of ten pixels (up to 42 million pixels) must be corrected like the ten pixels. Non-trivial: the image changed.";
pub const ASSUME15: &[&str] = &["tolerance 3e-4 per channel (scaled by the slope of the correction)", "what stretch_contrast makes of an image whose pixels all share one brightness level is not specified (it has no contrast), only that it is finite and inside 0..1"];
pub const RULE16: &str = "All images that are sequences of up to 3 (quick) or 4 (thorough) colours of an alphabet, plus larger mixed images, times every mode and a grid of parameters (temperatures from 0 to 20000 K), through optimize_saturation, optimize_lightness, change_color_temperature and optimize_color_temperature; every output pixel compared with an f64 reference; all results finite and inside 0..1 with the alpha of the source. Images made of many copies of ten pixels (up to 42 million pixels) must be corrected like the ten pixels. Non-trivial: the image changed.";
pub const ASSUME16: &[&str] = &["tolerance 5e-4 per channel", "channels whose reference white has no light of that colour (very low colour temperatures) are only required to be finite", "LCH saturation is compared for colours with a chroma of at least 0.02"];

fn alphabet(n: usize) -> Vec<Rgb> {
    [
        [0.1f32, 0.3, 0.7, 1.0],
        [0.0, 0.0, 0.0, 1.0],
        [0.8, 0.45, 0.2, 0.5],
        [1.0, 1.0, 1.0, 1.0],
        [0.33, 0.33, 0.33, 1.0],
        [0.62, 0.9, 0.05, 0.25],
        [0.9, 0.15, 0.55, 1.0],
        [0.31, 0.35, 0.3, 0.0],
        [1.0, 0.0, 0.0, 1.0],
        [0.02, 0.03, 0.015, 1.0],
        [0.1, 0.02, 0.95, 1.0],
        [1.0, 0.05, 0.9, 0.75],
    ]
    .iter()
    .take(n)
    .map(|d| Rgb { data: *d })
    .collect()
}

fn images(ctx: &Ctx, thorough_len: usize) -> Vec<(String, PixelBuffer<Rgb>)> {
    let a = alphabet(ctx.pick(11, 12));
    let mut out = vec![];
    for n in 1..=ctx.pick(3, thorough_len) {
        for s in sequences(if n > 3 { 9 } else { a.len() }, n) {
            let name: String = s.iter().map(|i| char::from(b'a' + *i as u8)).collect();
            out.push((name, PixelBuffer::new_from_raw(n as u32, 1, s.iter().map(|i| a[*i]).collect())));
        }
    }
    // pure colours: saturation 1, and chroma above 1
    let pure: Vec<Rgb> = [[0.0f32, 0.0, 1.0, 1.0], [0.05, 0.0, 1.0, 1.0], [1.0, 0.0, 0.0, 1.0], [0.0, 1.0, 0.0, 0.5], [1.0, 0.0, 1.0, 1.0], [0.0, 1.0, 1.0, 1.0], [1.0, 1.0, 0.0, 1.0], [0.0, 0.0, 0.4, 1.0], [0.4, 0.4, 0.5, 1.0]].iter().map(|d| Rgb { data: *d }).collect();
    for n in 2..=ctx.pick(2, 3) {
        for s in sequences(pure.len(), n) {
            let name: String = s.iter().map(|i| char::from(b'A' + *i as u8)).collect();
            out.push((name, PixelBuffer::new_from_raw(n as u32, 1, s.iter().map(|i| pure[*i]).collect())));
        }
    }
    for (n, b) in bases() {
        out.push((n.into(), PixelBuffer::new_from_raw(5, 2, b)));
    }
    for w in [1u32, 16, 256] {
        out.push((format!("ramp{}", w), buf(w, 256 / w, |x, y| {
            let v = (x + y * w) as f32;
            Rgb { data: [v / 256.0 + 0.001, (255.0 - v) / 256.0 + 0.0015, ((v * 7.0) % 256.0) / 256.0 + 0.002, 1.0] }
        })));
    }
    for pos in [0u32, 37, 99] {
        for (k, o) in [[0.01f32, 0.02, 0.012, 1.0], [0.97, 0.98, 0.99, 0.5], [0.9, 0.04, 0.5, 1.0]].iter().enumerate() {
            out.push((format!("outlier{}@{}", k, pos), buf(10, 10, |x, y| {
                let i = x + 10 * y;
                if i == pos { Rgb { data: *o } } else { Rgb { data: [0.3 + (i % 7) as f32 * 0.051, 0.41 + (i % 5) as f32 * 0.043, 0.52 - (i % 4) as f32 * 0.061, 1.0] } }
            })));
        }
    }
    out.push(("photo".into(), photo(13, 9)));
    // strong casts: many pixels of an extreme colour and a few dark and bright ones that still show the correction
    for m in 0..8u32 {
        for n in [2u32, 7, 24] {
            let k = Rgb { data: [(m & 1) as f32, (m >> 1 & 1) as f32, (m >> 2) as f32, 1.0] };
            let rest = [[0.06f32, 0.05, 0.04, 1.0], [0.5, 0.55, 0.45, 1.0], [0.2, 0.1, 0.3, 0.5], [0.9, 0.93, 0.96, 1.0]];
            out.push((format!("cast{}x{}", m, n), buf(n + 1, 4, |x, y| if x == n / 2 { Rgb { data: rest[y as usize] } } else { k })));
        }
    }
    // pixel counts beyond 8 and 16 bit, shares that single precision has to add up
    let mix = |x: u32, y: u32| {
        let f = |a: u32, b: u32, m: u32| ((x * a + y * b + x * y) % m) as f32;
        Rgb { data: [(f(7, 13, 199) + 20.4) / 255.0, (f(3, 29, 101) * 2.0 + 9.3) / 255.0, (f(11, 5, 61) * 3.0 + 40.45) / 255.0, if (x + y) % 9 == 0 { 0.5 } else if (x + y) % 9 == 4 { 0.0 } else { 1.0 }] }
    };
    out.push(("mix300x2".into(), buf(300, 2, mix)));
    out.push(("mix2x300".into(), buf(2, 300, mix)));
    out.push(("mix260x255".into(), buf(260, 255, mix)));
    out.push(("spot270x260".into(), buf(270, 260, |x, y| if (x, y) == (268, 259) { Rgb { data: [0.9, 0.1, 0.85, 1.0] } } else if x < 20 { Rgb { data: [0.62, 0.55, 0.48, 1.0] } } else { Rgb { data: [0.4, 0.3, 0.35, 1.0] } })));
    out
}

/// shares per bin of one channel; `d` shifts the values to find out what happens at bin boundaries
fn shares(v: &[f64], d: f64, round: bool) -> [f64; 256] {
    let mut h = [0f64; 256];
    for x in v {
        let mut y = (x + d) * 255.0;
        if round {
            y = y.round();
        }
        h[(y.clamp(0.0, 255.0)) as usize] += 1.0;
    }
    h.map(|x| x / v.len() as f64)
}
/// candidates of the bin at which the running share exceeds the threshold (1.0 if it never does)
fn edge(h: &[f64; 256], len: usize, thr: f64, rev: bool, out: &mut Vec<f64>) {
    // on large images a few values may fall on the other side of a bin boundary in single precision
    let s = if len > 1000 { 4.0 / len as f64 } else { 2e-6 };
    // these shares are exact in single precision
    let exact = thr == 0.0 || len <= 8 && len.is_power_of_two() && (thr * 8.0).fract() == 0.0;
    let s = if exact { 0.0 } else { s };
    let mut agg = 0.0;
    for k in 0..256 {
        let i = if rev { 255 - k } else { k };
        agg += h[i];
        let r = i as f64 / 255.0;
        // every bin that reaches the threshold within the accuracy is a candidate
        if h[i] > 0.0 && agg > thr - s && !out.contains(&r) {
            out.push(r);
        }
        if agg > thr + s {
            return;
        }
    }
    if !out.contains(&1.0) {
        out.push(1.0);
    }
}
fn edges(v: &[f64], thr: f64) -> (Vec<f64>, Vec<f64>) {
    let (mut lo, mut hi) = (vec![], vec![]);
    for d in [0.0, 1e-5, -1e-5] {
        let h = shares(v, d, false);
        edge(&h, v.len(), thr, false, &mut lo);
        edge(&h, v.len(), thr, true, &mut hi);
    }
    (lo, hi)
}
fn level_channel(v: f64, b: f64, w: f64) -> f64 {
    let d = w - b;
    let s = (d.abs() * 10.0).tanh();
    if s <= 1e-7 { v } else { (v - b * s) / d * s }
}
fn forward(s: S, c: &Rgb) -> V {
    let v = v4(&c.data);
    match s {
        S::Rgb => v,
        S::Srgb => rgb_srgb(&v),
        S::Hsl => rgb_hsl(&v),
        S::Hsv => rgb_hsv(&v),
        _ => rgb_lch(&v),
    }
}
fn backward(s: S, c: &V) -> V {
    match s {
        S::Rgb => *c,
        S::Srgb => srgb_rgb(c),
        S::Hsl => hsl_rgb(c),
        S::Hsv => {
            if c[1] <= 0.0 {
                [c[2], c[2], c[2], c[3]]
            } else {
                hsv_rgb(c)
            }
        }
        _ => lch_rgb(c),
    }
}
/// close to the reference, or to the reference limited to 0..1
fn matches(got: &[f32; 4], e: &V, tol: f64) -> bool {
    near(got, e, tol) || near(got, &cl4(*e), tol)
}
fn combos(n: usize, lo: &[Vec<f64>], hi: &[Vec<f64>]) -> Vec<(Vec<f64>, Vec<f64>)> {
    let mut out = vec![(vec![], vec![])];
    for i in 0..n {
        let mut next = vec![];
        for (a, b) in &out {
            for l in &lo[i] {
                for h in &hi[i] {
                    let (mut a, mut b) = (a.clone(), b.clone());
                    a.push(*l);
                    b.push(*h);
                    next.push((a, b));
                }
            }
        }
        out = next;
    }
    out
}

fn common(src: &PixelBuffer<Rgb>, out: &PixelBuffer<Rgb>, before: &[u32]) -> Res {
    ensure!((out.width(), out.height()) == (src.width(), src.height()), "size {}x{}", out.width(), out.height());
    ensure!(bits(src) == before, "the source image changed");
    for (i, (a, b)) in src.data().iter().zip(out.data()).enumerate() {
        ensure!(b.data.iter().all(|v| v.is_finite()), "pixel {}: {:?} became {:?}", i, a.data, b.data);
        ensure!((a.data[3] - b.data[3]).abs() < 1e-6, "alpha of pixel {} changed from {} to {}", i, a.data[3], b.data[3]);
    }
    Ok(())
}

/// Images of ten pixels whose shares of levels are 10 to 40 %; the averages are far from what rounding
/// would leave of them.
fn bases() -> Vec<(&'static str, Vec<Rgb>)> {
    let c = |d: [f32; 4]| Rgb { data: d };
    let (a, b, e) = (c([0.21, 0.3, 0.4, 1.0]), c([0.5, 0.45, 0.6, 1.0]), c([0.8, 0.9, 0.75, 0.5]));
    let (s, t, g) = (c([0.9, 0.0, 0.0, 1.0]), c([0.8, 0.3, 0.2, 1.0]), c([0.15, 0.7, 0.2, 1.0]));
    vec![
        ("levels", vec![a, b, b, b, b, b, b, b, b, e]),
        ("shares", vec![a, a, a, b, b, b, b, e, e, e]),
        ("vivid", vec![s, s, s, s, s, s, s, s, s, t]),
        ("green", vec![g, g, g, g, g, g, g, g, b, g]),
        ("wide", vec![c([0.0, 0.0, 1.0, 1.0]), c([0.0, 0.0, 1.0, 1.0]), c([0.0, 0.0, 1.0, 1.0]), c([1.0, 0.0, 1.0, 1.0]), c([1.0, 0.0, 1.0, 1.0]), t, t, g, g, a]),
        ("blue", vec![c([0.1, 0.2, 0.9, 1.0]); 9].into_iter().chain([t]).collect()),
        ("grays", [0.2f32, 0.3, 0.3, 0.45, 0.6, 0.6, 0.61, 0.7, 0.2, 0.81].iter().map(|v| c([*v, *v, *v, 1.0])).collect()),
        ("hidden", vec![a, b, e, s, t, g, a, b, t, s].into_iter().enumerate().map(|(i, p)| c([p.data[0], p.data[1], p.data[2], if i == 7 { 0.5 } else { 0.0 }])).collect()),
        ("one", vec![t; 10]),
        ("half", vec![c([0.0, 0.0, 0.0, 1.0]), c([1.0, 1.0, 1.0, 1.0]), c([0.0, 0.0, 0.0, 1.0]), c([1.0, 1.0, 1.0, 1.0]), c([0.5, 0.5, 0.5, 1.0]), a, a, b, e, t]),
    ]
}
/// Each pixel is corrected independent of its neighbours: an image with the same pixels in another order is corrected
/// like the ordered one, where neighbours are closer than the tolerance of the colour comparison.
fn reordered(ctx: &'static Ctx, ops: &[(&str, &(dyn Fn(&PixelBuffer<Rgb>) -> PixelBuffer<Rgb> + Sync))]) {
    let list: Vec<usize> = (0..ops.len()).collect();
    par(&list, |k| {
        let op = &ops[*k];
        for (start, step) in [(0.2f32, 2.4e-5f32), (0.2, 1.1e-5), (0.6, -2.9e-5), (0.04, 3e-6)] {
            ctx.case(&format!("order/{}/{}/{}", op.0, start, step), |c| {
                const N: usize = 4001;
                let px: Vec<Rgb> = (0..N).map(|i| Rgb { data: [start + i as f32 * step, start * 1.1 + i as f32 * step * 0.8, 0.9 * start + 0.1 + i as f32 * step * 0.9, 1.0] }).collect();
                let order: Vec<usize> = (0..N).map(|i| i * 1237 % N).collect();
                let a = (op.1)(&PixelBuffer::new_from_raw(N as u32, 1, px.clone()));
                let b = (op.1)(&PixelBuffer::new_from_raw(N as u32, 1, order.iter().map(|i| px[*i]).collect()));
                for (j, i) in order.iter().enumerate() {
                    let (p, q) = (a.data()[*i].data, b.data()[j].data);
                    ensure!((0..4).all(|k| (p[k] - q[k]).abs() <= 1e-4), "{:?} became {:?} between similar pixels and {:?} between others", px[*i].data, p, q);
                }
                c.obs(true, &bits(&a));
                Ok(())
            });
        }
    });
}

/// The corrections depend on the shares of the levels only: an image made of `times` copies of the pixels of a small
/// one (checked against the reference elsewhere) is corrected like that one, pixel by pixel.
fn repeated(ctx: &'static Ctx, ops: &[(&str, &(dyn Fn(&PixelBuffer<Rgb>) -> PixelBuffer<Rgb> + Sync))], giant: &[(&str, &str)]) {
    let bases = bases();
    let run = |op: &(&str, &(dyn Fn(&PixelBuffer<Rgb>) -> PixelBuffer<Rgb> + Sync)), base: &(&str, Vec<Rgb>), times: u32| {
        ctx.case(&format!("copies/{}/{}/{}", op.0, base.0, times), |c| {
            let n = base.1.len();
            let small = PixelBuffer::new_from_raw(n as u32, 1, base.1.clone());
            let expected = (op.1)(&small);
            let large = PixelBuffer::new_from_func(n as u32, times, |x, _| base.1[x as usize]);
            let out = (op.1)(&large);
            ensure!((out.width(), out.height()) == (n as u32, times), "size {}x{}", out.width(), out.height());
            let e = expected.data();
            for (i, o) in out.data().iter().enumerate() {
                let x = i % n;
                ensure!((0..4).all(|k| (o.data[k] - e[x].data[k]).abs() <= 2e-4), "{} copies: pixel {} became {:?}, in the small image {:?}", times, i, o.data, e[x].data);
            }
            c.obs(true, &(times, bits(&expected)));
            Ok(())
        });
    };
    let mut list = vec![];
    for op in 0..ops.len() {
        for base in 0..bases.len() {
            for times in ctx.pick(vec![7u32, 1001, 20_011], vec![2, 7, 101, 1001, 6_554, 20_011, 131_101, 400_003]) {
                list.push((op, base, times));
            }
        }
    }
    par(&list, |(op, base, times)| run(&ops[*op], &bases[*base], *times));
    // more pixels than single precision can count (4 million times ten), one after the other because of their size
    for (i, op) in ops.iter().enumerate() {
        for (k, base) in bases.iter().enumerate() {
            if giant.contains(&(op.0, base.0)) || (!ctx.quick() && (i + k) % 4 == 0) {
                run(op, base, 4_200_000);
            }
        }
    }
}

pub fn run15(ctx: &'static Ctx) {
    let imgs = images(ctx, 4);
    let thr = ctx.pick(vec![0.0f32, 2.0, 12.0, 250.0, 290.0, 420.0, 500.0, 510.0, 600.0, 700.0, 1100.0], vec![0.0, 0.5, 2.0, 12.0, 125.0, 150.0, 250.0, 290.0, 375.0, 420.0, 500.0, 510.0, 600.0, 700.0, 750.0, 1000.0, 1100.0]);
    let modes = [
        (BalanceMode::Rgb, S::Rgb, 0usize, 3usize, "rgb"),
        (BalanceMode::Srgb, S::Srgb, 0, 3, "srgb"),
        (BalanceMode::Hsv, S::Hsv, 1, 2, "hsv"),
        (BalanceMode::Hsl, S::Hsl, 1, 2, "hsl"),
        (BalanceMode::Lch, S::Lch(D65O2), 0, 2, "lch"),
    ];
    // levels outside of 0..1, as unclamped operations leave them
    let wild = {
        let mut v = vec![];
        let al: [f32; 7] = [-1.75, -0.5, -0.02, 0.3, 0.8, 1.3, 2.5];
        for n in 1..=ctx.pick(3usize, 4) {
            for s in sequences(al.len(), n) {
                let name = format!("wild{}", s.iter().map(|i| char::from(b'a' + *i as u8)).collect::<String>());
                v.push((name, PixelBuffer::new_from_raw(n as u32, 1, s.iter().enumerate().map(|(k, i)| Rgb { data: [al[*i], al[(*i * 3 + k) % 7], al[(*i + 2) % 7], [1.0, 0.5, 0.0][k % 3]] }).collect())));
            }
        }
        v
    };
    let imgs: Vec<_> = imgs.into_iter().chain(wild).collect();
    par(&imgs, |(name, src)| {
        let before = bits(src);
        let wild = name.starts_with("wild");
        for (mode, sp, start, n, mn) in modes {
            if wild && !matches!(sp, S::Rgb | S::Srgb) {
                continue;
            }
            ctx.case(&format!("balance/{}/{}", mn, name), |c| {
                let vals: Vec<V> = src.data().iter().map(|c| forward(sp, c)).collect();
                for t in &thr {
                    let out = ops::balance(src, mode, *t);
                    common(src, &out, &before)?;
                    let (mut lo, mut hi) = (vec![], vec![]);
                    for k in 0..n {
                        let ch: Vec<f64> = vals.iter().map(|v| v[start + k]).collect();
                        let (l, h) = edges(&ch, *t as f64 / 1000.0);
                        lo.push(l);
                        hi.push(h);
                    }
                    let mut why = String::new();
                    let ok = combos(n, &lo, &hi).iter().any(|(lo, hi)| {
                        let mut tol = 3e-4;
                        for k in 0..n {
                            let d = (hi[k] - lo[k]).abs();
                            if d > 0.0 {
                                tol += 2e-5 / d;
                            }
                        }
                        src.data().iter().zip(out.data()).zip(&vals).all(|((p, o), v)| {
                            let mut v = *v;
                            for k in 0..n {
                                v[start + k] = level_channel(v[start + k], lo[k], hi[k]);
                            }
                            let e = backward(sp, &v);
                            let ok = matches(&o.data, &e, tol) || matches!(sp, S::Lch(_)) && forward(sp, p)[1] < 0.02;
                            if !ok {
                                why = format!("threshold {}: {:?} became {:?}, expected {:?} (black {:?}, white {:?})", t, p.data, o.data, e, lo, hi);
                            }
                            ok
                        })
                    });
                    ensure!(ok, "{}", why);
                    c.obs(bits(&out) != before, &(t.to_bits(), bits(&out)));
                }
                Ok(())
            });
        }
        for (mode, sp, chans, mn) in [
            (EqualizeMode::Rgb, S::Rgb, &[0usize, 1, 2][..], "rgb"),
            (EqualizeMode::Srgb, S::Srgb, &[0, 1, 2], "srgb"),
            (EqualizeMode::Saturation, S::Hsl, &[1], "saturation"),
            (EqualizeMode::Lightness, S::Hsl, &[2], "lightness"),
            (EqualizeMode::SaturationLightness, S::Hsl, &[1, 2], "saturation_lightness"),
        ] {
            if wild && !matches!(sp, S::Rgb | S::Srgb) {
                continue;
            }
            ctx.case(&format!("equalize/{}/{}", mn, name), |c| {
                let out = ops::equalize(src, mode);
                common(src, &out, &before)?;
                let vals: Vec<V> = src.data().iter().map(|c| forward(sp, c)).collect();
                let mut ok = false;
                let mut why = String::new();
                for d in [0.0, 1e-5, -1e-5] {
                    // the normalised cumulative histogram of every equalised channel
                    let tables: Vec<Vec<f64>> = chans
                        .iter()
                        .map(|k| {
                            let ch: Vec<f64> = vals.iter().map(|v| v[*k]).collect();
                            let h = shares(&ch, d, true);
                            let mut s = 0.0;
                            let cum: Vec<f64> = h.iter().map(|x| { s += x; s }).collect();
                            let (mn, mx) = (cum[0], cum[255]);
                            cum.iter().map(|v| if mx - mn < 1e-7 { 0.0 } else { (v - mn) / (mx - mn) }).collect()
                        })
                        .collect();
                    let all = src.data().iter().zip(out.data()).zip(&vals).all(|((p, o), v)| {
                        let mut v = *v;
                        for (t, k) in tables.iter().zip(chans) {
                            v[*k] = t[((v[*k] + d) * 255.0).round().clamp(0.0, 255.0) as usize];
                        }
                        let e = backward(sp, &v);
                        let ok = matches(&o.data, &e, 1e-3);
                        if !ok {
                            why = format!("{:?} became {:?}, expected {:?}", p.data, o.data, e);
                        }
                        ok
                    });
                    ok |= all;
                }
                ensure!(ok, "{}", why);
                c.obs(bits(&out) != before, &bits(&out));
                Ok(())
            });
        }
        ctx.case(&format!("stretch/{}", name), |c| {
            let avg: Vec<f64> = src.data().iter().map(|p| (p.data[0] as f64 + p.data[1] as f64 + p.data[2] as f64) / 3.0).collect();
            for t in &thr {
                let out = ops::stretch_contrast(src, *t);
                common(src, &out, &before)?;
                let (lo, hi) = edges(&avg, *t as f64 / 1000.0);
                let mut why = String::new();
                let mut ok = false;
                for l in &lo {
                    for h in &hi {
                        let d = h - l;
                        if d.abs() < 1e-6 {
                            ok |= out.data().iter().all(|p| p.data.iter().all(|v| (0.0..=1.0).contains(v)));
                            why = "outside of 0..1".into();
                            continue;
                        }
                        let all = src.data().iter().zip(out.data()).all(|(p, o)| {
                            let f = |k: usize| cl((p.data[k] as f64 - l) / d);
                            let e = if *l > 0.0 || *h < 1.0 { [f(0), f(1), f(2), p.data[3] as f64] } else { v4(&p.data) };
                            let ok = matches(&o.data, &e, 3e-4 + 1e-5 / d.abs());
                            if !ok {
                                why = format!("threshold {}: {:?} became {:?}, expected {:?} (black {}, white {})", t, p.data, o.data, e, l, h);
                            }
                            ok
                        });
                        ok |= all;
                    }
                }
                ensure!(ok, "{}", why);
                c.obs(bits(&out) != before, &(t.to_bits(), bits(&out)));
            }
            Ok(())
        });
    });
    let fs: Vec<(String, Box<dyn Fn(&PixelBuffer<Rgb>) -> PixelBuffer<Rgb> + Sync>)> = {
        let mut v: Vec<(String, Box<dyn Fn(&PixelBuffer<Rgb>) -> PixelBuffer<Rgb> + Sync>)> = vec![];
        for m in [EqualizeMode::Rgb, EqualizeMode::Srgb, EqualizeMode::Saturation, EqualizeMode::Lightness, EqualizeMode::SaturationLightness] {
            v.push((format!("equalize {:?}", m), Box::new(move |b| ops::equalize(b, m))));
        }
        for m in [BalanceMode::Rgb, BalanceMode::Srgb, BalanceMode::Hsv, BalanceMode::Hsl, BalanceMode::Lch] {
            for t in [0.5f32, 50.0, 290.0, 310.0, 690.0, 880.0] {
                v.push((format!("balance {:?} {}", m, t), Box::new(move |b| ops::balance(b, m, t))));
            }
        }
        for t in [0.5f32, 50.0, 290.0, 310.0, 690.0, 880.0] {
            v.push((format!("stretch {}", t), Box::new(move |b| ops::stretch_contrast(b, t))));
        }
        v
    };
    let ops: Vec<(&str, &(dyn Fn(&PixelBuffer<Rgb>) -> PixelBuffer<Rgb> + Sync))> = fs.iter().map(|(n, f)| (n.as_str(), f.as_ref() as _)).collect();
    reordered(ctx, &ops);
    repeated(ctx, &ops, &[("equalize Rgb", "levels"), ("balance Rgb 310", "shares"), ("stretch 880", "levels")]);
}

// ------------------------------------------------------------------------------------- C16

const TEMPS: [(f64, f64); 12] = [
    (0.6527500, 0.3444622), (0.5266763, 0.4132973), (0.4369298, 0.4040736), (0.3804384, 0.3767461), (0.3451002, 0.3516070), (0.3220823, 0.3317521),
    (0.3063727, 0.3165111), (0.2951861, 0.3047636), (0.2869248, 0.2955817), (0.2806327, 0.2882860), (0.2757141, 0.2823936), (0.2717830, 0.2775613),
];
fn kelvin(t: f64) -> V {
    let t = t.trunc().clamp(1000.0, 12000.0);
    let i = (t / 1000.0) as usize;
    let f = (t - i as f64 * 1000.0) / 1000.0;
    let (x1, y1) = TEMPS[i - 1];
    let (x2, y2) = TEMPS[i.min(11)];
    let (x, y) = if i >= 12 { (x1, y1) } else { (x1 + (x2 - x1) * f, y1 + (y2 - y1) * f) };
    xyz_rgb(&[x / y, 1.0, (1.0 - x - y) / y, 1.0])
}
fn tint_pow(src: &PixelBuffer<Rgb>, k: usize, scale: f64, tint: f64) -> Option<f64> {
    if tint <= 0.0 {
        return None;
    }
    let n = src.data().len() as f64;
    let s: f64 = src.data().iter().map(|c| (0..3).map(|j| c.data[k] as f64 - c.data[j] as f64).sum::<f64>()).sum();
    let avg = scale * s * tint / n;
    if avg > 1e-6 { Some(1.0 / (1.0 - avg.tanh())) } else if avg > -1e-6 { Some(1.0) } else { None }
}
fn pow_tol(p: f64) -> f64 {
    5e-4 + 2e-6 * p
}

fn temperature(src: &PixelBuffer<Rgb>, out: &PixelBuffer<Rgb>, orig: f64, new: f64, tint: f64, slack: f64) -> Res {
    let (a, b) = (kelvin(orig), kelvin(new));
    let pg = tint_pow(src, 1, 1.0, tint).unwrap_or(1.0);
    let pr = tint_pow(src, 0, 0.25, tint).unwrap_or(1.0);
    let pb = tint_pow(src, 2, 0.33, tint).unwrap_or(1.0);
    for (i, (p, o)) in src.data().iter().zip(out.data()).enumerate() {
        let v = v4(&p.data);
        ensure!(o.data.iter().all(|v| (0.0..=1.0).contains(v)), "pixel {} {:?} became {:?}", i, p.data, o.data);
        for k in 0..3 {
            if b[k] < 1e-3 || a[k] < 1e-3 && b[k] < 1e-3 {
                continue;
            }
            let f = a[k] / b[k];
            let (e, t) = match k {
                0 => (cl(v[0] * f).powf(pr), pow_tol(pr)),
                1 => (cl(v[1].powf(pg) * f), pow_tol(pg)),
                _ => (cl(v[2] * f).powf(pb), pow_tol(pb)),
            };
            ensure!((o.data[k] as f64 - e).abs() <= t + slack + 2e-6 / b[k], "{} -> {} K, tint {}: {:?} became {:?}, channel {} should be {}", orig, new, tint, p.data, o.data, k, e);
        }
    }
    Ok(())
}

pub fn run16(ctx: &'static Ctx) {
    let imgs = images(ctx, 4);
    let offs: &[f32] = ctx.pick(&[0.0, 0.35, 0.5, 0.8, 1.6], &[0.0, 0.2, 0.35, 0.5, 0.65, 0.8, 1.0, 1.6, 4.0, 30.0]);
    let temps: &[f32] = ctx.pick(
        &[0.0, 1000.0, 1003.0, 1250.0, 1500.0, 2000.0, 2750.0, 3999.0, 4000.0, 6500.0, 9100.5, 11999.0, 12000.0, 20000.0],
        &[-5.0, 0.0, 1000.0, 1003.0, 1250.0, 1400.0, 1500.0, 1999.0, 2000.0, 2003.0, 2750.0, 3500.0, 3999.0, 4000.0, 5250.0, 6500.0, 7777.0, 9100.5, 10999.0, 11000.0, 11999.0, 12000.0, 12100.0, 20000.0],
    );
    par(&imgs, |(name, src)| {
        let before = bits(src);
        let len = src.data().len() as f64;
        for (mode, sp, si, bi, mn) in [(SaturationMode::Hsl, S::Hsl, 1usize, 2usize, "hsl"), (SaturationMode::Hsv, S::Hsv, 1, 2, "hsv"), (SaturationMode::Lch, S::Lch(D65O2), 1, 0, "lch")] {
            ctx.case(&format!("saturation/{}/{}", mn, name), |c| {
                let vals: Vec<V> = src.data().iter().map(|c| forward(sp, c)).collect();
                let avg = vals.iter().map(|v| v[si]).sum::<f64>() / len;
                for off in offs.iter().copied().chain([-0.2, -1.0, -1.6, -3.0, -12.0]) {
                    let out = ops::optimize_saturation(src, off, mode);
                    common(src, &out, &before)?;
                    ensure!(out.data().iter().all(|p| p.data.iter().all(|v| (0.0..=1.0).contains(v))), "offset {}: outside of 0..1", off);
                    let gamma = off as f64 + (1.0 - avg) / 1.5;
                    for ((p, o), v) in src.data().iter().zip(out.data()).zip(&vals) {
                        let f = 1.0 - (v[bi] - 0.5).abs() * 2.0;
                        let g = 1.0 + (gamma - 1.0) * f;
                        if g < 0.05 || (mn == "lch" && v[1] < 0.02) {
                            continue;
                        }
                        let mut e = *v;
                        e[si] = cl(v[si]).powf(1.0 / g);
                        let e = backward(sp, &e);
                        ensure!(matches(&o.data, &e, 5e-4 + 2e-5 / (g * g)), "offset {}: {:?} became {:?}, expected {:?}", off, p.data, o.data, e);
                    }
                    c.obs(bits(&out) != before, &(off.to_bits(), bits(&out)));
                }
                Ok(())
            });
        }
        ctx.case(&format!("lightness/{}", name), |c| {
            let avg = src.data().iter().map(|p| rgb_hsl(&v4(&p.data))[2]).sum::<f64>() / len;
            for f in [0.0f32, 0.5, 1.0, 1.5, -1.0, -4.0] {
                let out = ops::optimize_lightness(src, f);
                common(src, &out, &before)?;
                let g = 1.0 - (avg - 0.5) * f as f64;
                for (p, o) in src.data().iter().zip(out.data()) {
                    let q = |k: usize| cl(p.data[k] as f64).powf(1.0 / g);
                    if g.abs() < 0.05 {
                        continue; // ill-conditioned
                    }
                    let e = [q(0), q(1), q(2), p.data[3] as f64];
                    ensure!(matches(&o.data, &e, 5e-4), "factor {}: {:?} became {:?}, expected {:?}", f, p.data, o.data, e);
                }
                c.obs(bits(&out) != before, &(f.to_bits(), bits(&out)));
            }
            Ok(())
        });
        for tint in [0.0f32, 0.4, 1.0, 3.0, -1.0] {
            ctx.case(&format!("temperature/tint{}/{}", tint, name), |c| {
                for a in temps {
                    for b in temps {
                        let out = ops::change_color_temperature(src, *a, *b, tint);
                        common(src, &out, &before)?;
                        temperature(src, &out, *a as f64, *b as f64, tint as f64, 0.0)?;
                        c.obs(a != b || tint > 0.0, &(a.to_bits(), b.to_bits(), bits(&out)));
                    }
                }
                let avg = src.data().iter().map(|p| p.data[0] as f64 - p.data[2] as f64).sum::<f64>() / len;
                for f in [0.0f32, 0.5, 1.0, 1.4, -1.0] {
                    let out = ops::optimize_color_temperature(src, f, tint);
                    common(src, &out, &before)?;
                    let new = 6500.0 - avg.tanh() * f as f64 * 4000.0;
                    // a difference of one Kelvin is accepted (the temperature is truncated)
                    temperature(src, &out, 6500.0, new, tint as f64, 3e-3)?;
                    c.obs(true, &(f.to_bits(), bits(&out)));
                }
                Ok(())
            });
        }
    });
    // every temperature on a fine grid, on a color that is not limited
    let blocks: Vec<u32> = (0..23).collect();
    par(&blocks, |b| {
        ctx.case(&format!("kelvin/{}", 1000 + b * 500), |c| {
            let step = ctx.pick(5u32, 1);
            let src = PixelBuffer::new_with_color(1, 1, Rgb { data: [0.06, 0.05, 0.04, 0.5] });
            for i in 0..500 / step {
                let t = (1000 + b * 500 + i * step) as f32;
                for (from, to) in [(t, 6500.0f32), (6500.0, t), (t, t + 37.0), (t + 0.5, 2500.0)] {
                    let out = ops::change_color_temperature(&src, from, to, 0.0).data()[0];
                    let (a, k) = (kelvin(from as f64), kelvin(to as f64));
                    for j in 0..3 {
                        if k[j] < 0.02 || a[j] < 0.02 {
                            continue;
                        }
                        let e = cl(src.data()[0].data[j] as f64 * a[j] / k[j]);
                        ensure!((out.data[j] as f64 - e).abs() <= 2e-6 + e * 2e-6 / k[j].min(a[j]), "{} -> {} K: channel {} is {} instead of {}", from, to, j, out.data[j], e);
                    }
                    c.obs(from != to, &out.data.map(f32::to_bits));
                }
            }
            Ok(())
        });
    });
    let fs: Vec<(String, Box<dyn Fn(&PixelBuffer<Rgb>) -> PixelBuffer<Rgb> + Sync>)> = {
        let mut v: Vec<(String, Box<dyn Fn(&PixelBuffer<Rgb>) -> PixelBuffer<Rgb> + Sync>)> = vec![];
        for m in [SaturationMode::Hsl, SaturationMode::Hsv, SaturationMode::Lch] {
            for o in [0.35f32, 0.8] {
                v.push((format!("saturation {:?} {}", m, o), Box::new(move |b| ops::optimize_saturation(b, o, m))));
            }
        }
        v.push(("lightness".into(), Box::new(|b| ops::optimize_lightness(b, 1.0))));
        v.push(("temperature".into(), Box::new(|b| ops::optimize_color_temperature(b, 1.0, 0.0))));
        for (a, b) in [(6500.0f32, 3000.0f32), (3000.0, 6500.0)] {
            v.push((format!("tint {} {}", a, b), Box::new(move |i| ops::change_color_temperature(i, a, b, 0.8))));
        }
        v
    };
    let ops: Vec<(&str, &(dyn Fn(&PixelBuffer<Rgb>) -> PixelBuffer<Rgb> + Sync))> = fs.iter().map(|(n, f)| (n.as_str(), f.as_ref() as _)).collect();
    reordered(ctx, &ops);
    repeated(ctx, &ops, &[("saturation Hsl 0.35", "vivid"), ("lightness", "green"), ("tint 6500 3000", "green")]);
}
