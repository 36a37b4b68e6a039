//! Independent f64 reference of the colour formulas.
#![allow(dead_code)]
use std::f64::consts::PI;

pub type V = [f64; 4];
pub const EPS: f64 = 1.0 / 32768.0;

pub fn v4(d: &[f32]) -> V {
    [d[0] as f64, d[1] as f64, d[2] as f64, d[3] as f64]
}
pub fn cl(v: f64) -> f64 {
    v.clamp(0.0, 1.0)
}
pub fn cl4(v: V) -> V {
    [cl(v[0]), cl(v[1]), cl(v[2]), cl(v[3])]
}
fn max(c: &V) -> f64 {
    c[0].max(c[1]).max(c[2])
}
fn min(c: &V) -> f64 {
    c[0].min(c[1]).min(c[2])
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum S {
    Rgb,
    Srgb,
    Hsl,
    Hsv,
    Yuv,
    Xyz,
    Lab(usize),
    Lch(usize),
}
/// D50/O2 D50/O10 D65/O2 D65/O10 E/O2 E/O10
pub const WHITE: [[f64; 3]; 6] = [
    [0.964212, 1.0, 0.8251883],
    [0.9672063, 1.0, 0.81428015],
    [0.95047, 1.0, 1.08883],
    [0.9480967, 1.0, 1.0730513],
    [1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0],
];
pub const D65O2: usize = 2;

pub fn hue_sector(c: &V) -> f64 {
    let (r, g, b) = (c[0], c[1], c[2]);
    let d = max(c) - min(c);
    let h = if r >= g && r >= b {
        (g - b) / d
    } else if g >= b {
        (b - r) / d + 2.0
    } else {
        (r - g) / d + 4.0
    };
    (h / 6.0).rem_euclid(1.0)
}
pub fn rgb_hsl(c: &V) -> V {
    let (mx, mn) = (max(c), min(c));
    let l = (mx + mn) / 2.0;
    if mx - mn < EPS {
        return [0.0, 0.0, l, c[3]];
    }
    let s = if l > 0.5 { (mx - mn) / (2.0 - mx - mn) } else { (mx - mn) / (mx + mn) };
    [hue_sector(c), s, l, c[3]]
}
/// unclamped saturation/lightness accepted, hue taken modulo 1
pub fn hsl_rgb(c: &V) -> V {
    let (h, s, l) = (c[0].rem_euclid(1.0), c[1], c[2]);
    let q = if l < 0.5 { l * (1.0 + s) } else { l + s - l * s };
    let p = 2.0 * l - q;
    let f = |t: f64| {
        let t = t.rem_euclid(1.0);
        if t < 1.0 / 6.0 {
            p + (q - p) * 6.0 * t
        } else if t < 0.5 {
            q
        } else if t < 2.0 / 3.0 {
            p + (q - p) * (2.0 / 3.0 - t) * 6.0
        } else {
            p
        }
    };
    cl4([f(h + 1.0 / 3.0), f(h), f(h - 1.0 / 3.0), c[3]])
}
pub fn rgb_hsv(c: &V) -> V {
    let (mx, mn) = (max(c), min(c));
    if mx <= 0.0 || mx - mn <= 0.0 {
        return [0.0, 0.0, mx, c[3]];
    }
    [hue_sector(c), (mx - mn) / mx, mx, c[3]]
}
pub fn hsv_rgb(c: &V) -> V {
    let (h, s, v) = (c[0].rem_euclid(1.0) * 6.0, c[1].max(0.0), c[2]);
    let f = |n: f64| {
        let k = (n + h).rem_euclid(6.0);
        v - v * s * k.min(4.0 - k).min(1.0).max(0.0)
    };
    cl4([f(5.0), f(3.0), f(1.0), c[3]])
}
pub fn lin(v: f64) -> f64 {
    if v > 0.04045 { ((v + 0.055) / 1.055).powf(2.4) } else { v / 12.92 }
}
pub fn gam(v: f64) -> f64 {
    if v > 0.0031308 { 1.055 * v.powf(1.0 / 2.4) - 0.055 } else { v * 12.92 }
}
pub fn rgb_srgb(c: &V) -> V {
    cl4([gam(c[0]), gam(c[1]), gam(c[2]), c[3]])
}
pub fn srgb_rgb(c: &V) -> V {
    cl4([lin(c[0]), lin(c[1]), lin(c[2]), c[3]])
}
fn mat(c: &V, m: &[[f64; 3]; 3]) -> V {
    let f = |i: usize| c[0] * m[i][0] + c[1] * m[i][1] + c[2] * m[i][2];
    [f(0), f(1), f(2), c[3]]
}
pub fn rgb_yuv(c: &V) -> V {
    mat(&rgb_srgb(c), &[
        [0.299, 0.587, 0.114],
        [-0.14714119, -0.28886917, 0.43601036],
        [0.6149754, -0.5149651, -0.10001026],
    ])
}
pub fn yuv_rgb(c: &V) -> V {
    srgb_rgb(&mat(c, &[[1.0, 0.0, 1.139883], [1.0, -0.39464232, -0.58062184], [1.0, 2.0320618, 0.0]]))
}
pub fn rgb_xyz(c: &V) -> V {
    mat(c, &[[0.412453, 0.357580, 0.180423], [0.212671, 0.715160, 0.072169], [0.019334, 0.119193, 0.950227]])
}
pub fn xyz_rgb(c: &V) -> V {
    let r = mat(c, &[[3.240479, -1.53715, -0.498535], [-0.969256, 1.875991, 0.041556], [0.055648, -0.204043, 1.057311]]);
    [cl(r[0]), cl(r[1]), cl(r[2]), c[3]]
}
pub fn xyz_lab(c: &V, w: usize) -> V {
    let f = |v: f64| if v < 0.008856 { (903.3 * v + 16.0) / 116.0 } else { v.cbrt() };
    let (x, y, z) = (f(c[0] / WHITE[w][0]), f(c[1] / WHITE[w][1]), f(c[2] / WHITE[w][2]));
    [(116.0 * y - 16.0) / 100.0, 500.0 * (x - y) / 128.0, 200.0 * (y - z) / 128.0, c[3]]
}
pub fn lab_xyz(c: &V, w: usize) -> V {
    let f = |v: f64| if v > 0.20689303 { v * v * v } else { (v - 16.0 / 116.0) / 7.787 };
    let y = (c[0] * 100.0 + 16.0) / 116.0;
    let x = c[1] * 128.0 / 500.0 + y;
    let z = y - c[2] * 128.0 / 200.0;
    [f(x) * WHITE[w][0], f(y) * WHITE[w][1], f(z) * WHITE[w][2], c[3]]
}
pub fn lab_lch(c: &V) -> V {
    [c[0], c[1].hypot(c[2]), c[2].atan2(c[1]), c[3]]
}
pub fn lch_lab(c: &V) -> V {
    [c[0], c[1] * c[2].cos(), c[1] * c[2].sin(), c[3]]
}
pub fn rgb_lab(c: &V, w: usize) -> V {
    xyz_lab(&rgb_xyz(c), w)
}
pub fn lab_rgb(c: &V, w: usize) -> V {
    xyz_rgb(&lab_xyz(c, w))
}
pub fn rgb_lch(c: &V) -> V {
    lab_lch(&rgb_lab(c, D65O2))
}
pub fn lch_rgb(c: &V) -> V {
    lab_rgb(&lch_lab(c), D65O2)
}

pub fn to_rgb(s: S, c: &V) -> V {
    match s {
        S::Rgb => *c,
        S::Srgb => srgb_rgb(c),
        S::Hsl => hsl_rgb(c),
        S::Hsv => hsv_rgb(c),
        S::Yuv => yuv_rgb(c),
        S::Xyz => xyz_rgb(c),
        S::Lab(w) => lab_rgb(c, w),
        S::Lch(w) => lab_rgb(&lch_lab(c), w),
    }
}
pub fn to_xyz(s: S, c: &V) -> V {
    match s {
        S::Xyz => *c,
        S::Lab(w) => lab_xyz(c, w),
        S::Lch(w) => lab_xyz(&lch_lab(c), w),
        _ => rgb_xyz(&to_rgb(s, c)),
    }
}
pub fn convert(s: S, t: S, c: &V) -> V {
    if s == t && !matches!(s, S::Lch(_)) {
        return *c;
    }
    match t {
        S::Rgb => to_rgb(s, c),
        S::Srgb => rgb_srgb(&to_rgb(s, c)),
        S::Hsl => rgb_hsl(&to_rgb(s, c)),
        S::Hsv => rgb_hsv(&to_rgb(s, c)),
        S::Yuv => rgb_yuv(&to_rgb(s, c)),
        S::Xyz => to_xyz(s, c),
        S::Lab(w) => xyz_lab(&to_xyz(s, c), w),
        S::Lch(w) => lab_lch(&xyz_lab(&to_xyz(s, c), w)),
    }
}

/// smallest distance on a circle of the given circumference
pub fn circ(a: f64, b: f64, n: f64) -> f64 {
    let d = (a - b).rem_euclid(n);
    d.min(n - d)
}
/// interpolation on the shorter arc, in radians (two candidates when the arc is a half turn)
pub fn arc(h1: f64, h2: f64, t: f64) -> Vec<f64> {
    let d = (h2 - h1 + PI).rem_euclid(2.0 * PI) - PI;
    let mut v = vec![h1 + d * t];
    if (d.abs() - PI).abs() < 1e-4 {
        v.push(h1 - d * t);
    }
    v
}
pub fn near(a: &[f32], b: &V, tol: f64) -> bool {
    a.iter().zip(b).all(|(x, y)| ((*x as f64) - y).abs() <= tol)
}
