//! C12 colour conversions, C13 colour adjustments, C14 colour text / equality / option names.
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::refcolor as rc;
use crate::refcolor::{circ, S, V};
use d10::illuminant::{D50, D65, E};
use d10::observer::{O10, O2};
use d10::{Color, Hsl, Hsv, Intensity, Lab, Lch, Rgb, Srgb, Xyz, Yuv};
use std::f64::consts::PI;

pub const RULE12: &str = "Every source colour space with a full grid of its channel values (8 spaces, Lab and Lch under 3 illuminants x 2 observers; in and out of gamut; values around every branch threshold and around achromatic colours) converted to every target space through the trait method, the From impls and the by-value and by-reference iterators, compared with an f64 reference; plus the round trip of every RGB grid colour through every space and every channel setter. Non-trivial: the colour is not achromatic.";
pub const ASSUME12: &[&str] = &["hue and saturation are compared with a tolerance that grows with their condition number (they are undefined for achromatic colours); chroma below 0.001 has no hue", "tolerance 2e-6 from Rgb and Srgb, 3e-5 otherwise", "HSL/HSV inputs with hue, saturation and lightness/value inside 0..=1"];
pub const RULE13: &str = "Every RGB adjustment with every parameter of its list on a grid of colours (with alpha), compared with an f64 reference of the documented formula; every result must be finite, and keep the alpha value where the operation keeps it. Non-trivial: the colour changed.";
pub const ASSUME13: &[&str] = &["parameter lists include neutral, extreme and negative values; grid of 9 values per channel plus values around the branch thresholds", "tolerance 1e-5, growing with the hue angle"];
pub const RULE14: &str = "Text: every colour type on a grid of channel values (rounding boundaries, every half of the last digit, tiny, negative, large) and alphas around the opacity threshold, the text is parsed back; equality: every type, channel and difference around the tolerance, both directions; option names: for every option enum all documented names, and every single edit of every name and every name of every other enum, which must be rejected with the input echoed. Non-trivial: all, hashed by the text.";
pub const ASSUME14: &[&str] = &["numbers within 0.00005 of the value are a correct 4-digit text"];

// ---------------------------------------------------------------------------------- C12

const SPACES: [(S, &str); 18] = [
    (S::Rgb, "rgb"), (S::Srgb, "srgb"), (S::Hsl, "hsl"), (S::Hsv, "hsv"), (S::Yuv, "yuv"), (S::Xyz, "xyz"),
    (S::Lab(0), "lab-d50-2"), (S::Lab(1), "lab-d50-10"), (S::Lab(2), "lab-d65-2"), (S::Lab(3), "lab-d65-10"), (S::Lab(4), "lab-e-2"), (S::Lab(5), "lab-e-10"),
    (S::Lch(0), "lch-d50-2"), (S::Lch(1), "lch-d50-10"), (S::Lch(2), "lch-d65-2"), (S::Lch(3), "lch-d65-10"), (S::Lch(4), "lch-e-2"), (S::Lch(5), "lch-e-10"),
];

fn conv<C: Color>(c: &C, t: S) -> V {
    rc::v4(&match t {
        S::Rgb => c.to_rgb().data,
        S::Srgb => c.to_srgb().data,
        S::Hsl => c.to_hsl().data,
        S::Hsv => c.to_hsv().data,
        S::Yuv => c.to_yuv().data,
        S::Xyz => c.to_xyz().data,
        S::Lab(0) => c.to_lab::<D50, O2>().data,
        S::Lab(1) => c.to_lab::<D50, O10>().data,
        S::Lab(2) => c.to_lab::<D65, O2>().data,
        S::Lab(3) => c.to_lab::<D65, O10>().data,
        S::Lab(4) => c.to_lab::<E, O2>().data,
        S::Lab(_) => c.to_lab::<E, O10>().data,
        S::Lch(0) => c.to_lch::<D50, O2>().data,
        S::Lch(1) => c.to_lch::<D50, O10>().data,
        S::Lch(2) => c.to_lch::<D65, O2>().data,
        S::Lch(3) => c.to_lch::<D65, O10>().data,
        S::Lch(4) => c.to_lch::<E, O2>().data,
        S::Lch(_) => c.to_lch::<E, O10>().data,
    })
}

macro_rules! with_color {
    ($s:expr, $d:expr, $c:ident, $body:expr) => {{
        let d: [f32; 4] = $d;
        match $s {
            S::Rgb => { let $c = Rgb { data: d }; $body }
            S::Srgb => { let $c = Srgb { data: d }; $body }
            S::Hsl => { let $c = Hsl { data: d }; $body }
            S::Hsv => { let $c = Hsv { data: d }; $body }
            S::Yuv => { let $c = Yuv { data: d }; $body }
            S::Xyz => { let $c = Xyz { data: d }; $body }
            S::Lab(0) => { let $c = Lab::<D50, O2>::new_with_alpha(d[0], d[1], d[2], d[3]); $body }
            S::Lab(1) => { let $c = Lab::<D50, O10>::new_with_alpha(d[0], d[1], d[2], d[3]); $body }
            S::Lab(2) => { let $c = Lab::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]); $body }
            S::Lab(3) => { let $c = Lab::<D65, O10>::new_with_alpha(d[0], d[1], d[2], d[3]); $body }
            S::Lab(4) => { let $c = Lab::<E, O2>::new_with_alpha(d[0], d[1], d[2], d[3]); $body }
            S::Lab(_) => { let $c = Lab::<E, O10>::new_with_alpha(d[0], d[1], d[2], d[3]); $body }
            S::Lch(0) => { let $c = Lch::<D50, O2>::new_with_alpha(d[0], d[1], d[2], d[3]); $body }
            S::Lch(1) => { let $c = Lch::<D50, O10>::new_with_alpha(d[0], d[1], d[2], d[3]); $body }
            S::Lch(2) => { let $c = Lch::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]); $body }
            S::Lch(3) => { let $c = Lch::<D65, O10>::new_with_alpha(d[0], d[1], d[2], d[3]); $body }
            S::Lch(4) => { let $c = Lch::<E, O2>::new_with_alpha(d[0], d[1], d[2], d[3]); $body }
            S::Lch(_) => { let $c = Lch::<E, O10>::new_with_alpha(d[0], d[1], d[2], d[3]); $body }
        }
    }};
}

fn mxmn(v: &V) -> (f64, f64) {
    (v[0].max(v[1]).max(v[2]), v[0].min(v[1]).min(v[2]))
}

/// compares a converted colour with the reference; `rgb` is the reference RGB value of the source
fn agrees(s: S, t: S, got: &V, want: &V, rgb: &V) -> bool {
    if !got.iter().all(|v| v.is_finite()) || (got[3] - want[3]).abs() > 1e-6 {
        return false;
    }
    let near = |i: usize, tol: f64| (got[i] - want[i]).abs() <= tol;
    let (mx, mn) = mxmn(rgb);
    let d = mx - mn;
    // the chain of single precision operations is longest where the source is not an RGB space
    let e = if matches!(s, S::Rgb | S::Srgb) { 2e-6 } else { 3e-5 };
    match t {
        S::Hsl | S::Hsv => {
            let hue = if d < 3.0 * rc::EPS {
                (0.0..=1.0).contains(&got[0])
            } else {
                (0.0..=1.0).contains(&got[0]) && circ(got[0], want[0], 1.0) <= 2e-6 + 1.2e-5 / d
            };
            let den = if t == S::Hsv { mx } else { (mx + mn).min(2.0 - mx - mn) };
            let sat = if d < 3.0 * rc::EPS {
                // chroma within the tolerance: the colour may be treated as achromatic
                got[1] >= 0.0 && got[1] <= want[1].max((d + 1e-6) / den.max(1e-9)) + 1e-3
            } else {
                near(1, 5e-6 + 2e-6 / den)
            };
            hue && sat && near(2, 8e-6)
        }
        S::Lch(_) => near(0, e) && near(1, e) && (want[1] < 1e-3 || circ(got[2], want[2], 2.0 * PI) <= 2e-6 + 2.0 * e / want[1]),
        _ => near(0, e) && near(1, e) && near(2, e),
    }
}

fn steps(a: f64, b: f64, n: usize) -> Vec<f32> {
    (0..=n).map(|i| (a + (b - a) * i as f64 / n as f64) as f32).collect()
}
fn cube(a: &[f32], b: &[f32], c: &[f32]) -> Vec<[f32; 3]> {
    let mut v = Vec::with_capacity(a.len() * b.len() * c.len());
    for x in a {
        for y in b {
            for z in c {
                v.push([*x, *y, *z]);
            }
        }
    }
    v
}
fn special() -> Vec<f32> {
    let e = rc::EPS as f32;
    vec![0.0, 1e-6, e / 2.0, 2.0 * e, 4e-4, 0.001, 0.00305, 0.00313, 0.00314, 0.0392, 0.0404, 0.0405, 0.25, 0.25 + e / 2.0, 0.25 + 2.0 * e, 0.5, 0.5 + e / 2.0, 0.5 + 4.0 * e, 0.75, 1.0 - 2.0 * e, 1.0 - e / 2.0, 1.0]
}

fn grid_of(s: S, n: usize) -> Vec<[f32; 3]> {
    match s {
        S::Rgb | S::Srgb => {
            let st = steps(0.0, 1.0, n);
            let mut v = cube(&st, &st, &st);
            let sp = special();
            v.extend(cube(&sp, &sp, &sp));
            v
        }
        S::Hsl | S::Hsv => cube(&steps(0.0, 1.0, 24.max(n)), &steps(0.0, 1.0, n), &steps(0.0, 1.0, n)),
        S::Yuv => cube(&steps(-0.1, 1.1, n), &steps(-0.5, 0.5, n), &steps(-0.7, 0.7, n)),
        S::Xyz => cube(&steps(-0.1, 1.1, n), &steps(-0.1, 1.1, n), &steps(-0.1, 1.2, n)),
        S::Lab(_) => cube(&steps(0.0, 1.0, n), &steps(-1.0, 1.0, n), &steps(-1.0, 1.0, n)),
        S::Lch(_) => cube(&steps(0.0, 1.0, n), &steps(0.0, 1.2, n), &steps(-PI, PI, 16.max(n))),
    }
}

macro_rules! check_paths {
    // every way of converting one list of colours gives what the trait method gives
    ($list:expr, $src:ty) => {{
        use d10::{ColorIter, ColorIterRef};
        let list: &Vec<$src> = $list;
        macro_rules! one {
            ($m:ident, $im:ident, $t:ty) => {{
                let direct: Vec<[f32; 4]> = list.iter().map(|c| c.$m().data).collect();
                let it = ColorIter::$im(list.iter().copied());
                ensure!(it.size_hint() == (list.len(), Some(list.len())), "{}: size hint", stringify!($im));
                let a: Vec<[f32; 4]> = it.map(|c: $t| c.data).collect();
                let it = ColorIterRef::$im(list.iter());
                ensure!(it.size_hint() == (list.len(), Some(list.len())), "{}: size hint", stringify!($im));
                let b: Vec<[f32; 4]> = it.map(|c: $t| c.data).collect();
                ensure!(bits4(&a) == bits4(&direct), "{} by value differs from {}", stringify!($im), stringify!($m));
                ensure!(bits4(&b) == bits4(&direct), "{} by reference differs from {}", stringify!($im), stringify!($m));
            }};
        }
        one!(to_rgb, into_rgb, Rgb);
        one!(to_srgb, into_srgb, Srgb);
        one!(to_hsl, into_hsl, Hsl);
        one!(to_hsv, into_hsv, Hsv);
        one!(to_yuv, into_yuv, Yuv);
        one!(to_xyz, into_xyz, Xyz);
        macro_rules! two {
            ($i:ty, $o:ty) => {{
                let direct: Vec<[f32; 4]> = list.iter().map(|c| c.to_lab::<$i, $o>().data).collect();
                let a: Vec<[f32; 4]> = ColorIter::into_lab::<$i, $o>(list.iter().copied()).map(|c| c.data).collect();
                let b: Vec<[f32; 4]> = ColorIterRef::into_lab::<$i, $o>(list.iter()).map(|c| c.data).collect();
                ensure!(bits4(&a) == bits4(&direct) && bits4(&b) == bits4(&direct), "into_lab differs from to_lab");
                let direct: Vec<[f32; 4]> = list.iter().map(|c| c.to_lch::<$i, $o>().data).collect();
                let a: Vec<[f32; 4]> = ColorIter::into_lch::<$i, $o>(list.iter().copied()).map(|c| c.data).collect();
                let b: Vec<[f32; 4]> = ColorIterRef::into_lch::<$i, $o>(list.iter()).map(|c| c.data).collect();
                ensure!(bits4(&a) == bits4(&direct) && bits4(&b) == bits4(&direct), "into_lch differs from to_lch");
            }};
        }
        two!(D50, O2);
        two!(D50, O10);
        two!(D65, O2);
        two!(D65, O10);
        two!(E, O2);
        two!(E, O10);
    }};
}
fn bits4(v: &[[f32; 4]]) -> Vec<[u32; 4]> {
    v.iter().map(|d| d.map(f32::to_bits)).collect()
}

/// Every call sequence up to `depth` on a converting iterator, then every way of finishing it,
/// against the list of its items.
fn walk_iter<C: Color, I: Iterator<Item = C>>(c: &Case, what: &str, depth: usize, mk: &dyn Fn() -> I, want: &[[u32; 4]]) -> Result<(), String> {
    const STEPS: usize = 6;
    const ENDS: usize = 8;
    fn b<C: Color>(c: &C) -> [u32; 4] {
        let d = c.data();
        [d[0].to_bits(), d[1].to_bits(), d[2].to_bits(), d[3].to_bits()]
    }
    for len in 0..=depth {
        for code in 0..STEPS.pow(len as u32) {
            for end in 0..ENDS {
                let mut it = mk();
                let mut at = 0usize;
                let mut k = code;
                let mut path = vec![];
                for _ in 0..len {
                    let s = k % STEPS;
                    k /= STEPS;
                    path.push(s);
                    let (lo, hi) = it.size_hint();
                    let left = want.len() - at;
                    ensure!(lo <= left && hi.map_or(true, |h| left <= h), "{}: size hint {:?} with {} items left after {:?}", what, (lo, hi), left, path);
                    let (got, skip) = match s {
                        0 => (it.next().map(|v| b(&v)), 0),
                        4 => (it.find(|_| true).map(|v| b(&v)), 0),
                        5 => {
                            let p = it.by_ref().position(|_| true);
                            let e = if at < want.len() { Some(0) } else { None };
                            ensure!(p == e, "{}: position {:?} after {:?}", what, p, path);
                            at = (at + 1).min(want.len());
                            continue;
                        }
                        n => (it.nth(n - 1).map(|v| b(&v)), n - 1),
                    };
                    let e = want.get(at + skip).copied();
                    ensure!(got == e, "{}: calls {:?} give {:?} instead of {:?}", what, path, got, e);
                    at = (at + skip + 1).min(want.len());
                }
                let rest = &want[at..];
                let (got, e): (Vec<[u32; 4]>, Vec<[u32; 4]>) = match end {
                    0 => (it.map(|v| b(&v)).collect(), rest.to_vec()),
                    1 => {
                        let n = it.count();
                        ensure!(n == rest.len(), "{}: count {} instead of {} after {:?}", what, n, rest.len(), path);
                        continue;
                    }
                    2 => (it.last().iter().map(b).collect(), rest.last().copied().into_iter().collect()),
                    3 => (it.fold(vec![], |mut v, x| { v.push(b(&x)); v }), rest.to_vec()),
                    4 => (it.skip(1).map(|v| b(&v)).collect(), rest.iter().skip(1).copied().collect()),
                    5 => (it.step_by(2).map(|v| b(&v)).collect(), rest.iter().step_by(2).copied().collect()),
                    6 => {
                        let mut seen = vec![];
                        let r: Result<(), ()> = it.try_for_each(|x| { seen.push(b(&x)); if seen.len() == 2 { Err(()) } else { Ok(()) } });
                        ensure!(r.is_err() == (rest.len() >= 2), "{}: try_for_each after {:?}", what, path);
                        seen.extend(it.map(|v| b(&v)));
                        (seen, rest.to_vec())
                    }
                    _ => (it.reduce(|_, x| x).iter().map(b).collect(), rest.last().copied().into_iter().collect()),
                };
                ensure!(got == e, "{}: calls {:?}, then ending {}, give {:?} instead of {:?}", what, path, end, got, e);
                c.eval_n(1);
            }
        }
    }
    c.obs(true, &what);
    Ok(())
}

macro_rules! check_walks {
    ($ctx:expr, $name:expr, $list:expr, $src:ty) => {{
        use d10::{ColorIter, ColorIterRef};
        let all: &Vec<$src> = $list;
        let depth = $ctx.pick(2, 4);
        for n in [0usize, 1, 2, 3, 7] {
            let list: &[$src] = &all[all.len() - n..];
            $ctx.case(&format!("walk/{}/{}", $name, n), |c| {
                macro_rules! one {
                    ($m:ident, $im:ident [$t:ty] $g:tt) => {{
                        let data = |c: $t| [c.data[0].to_bits(), c.data[1].to_bits(), c.data[2].to_bits(), c.data[3].to_bits()];
                        let want: Vec<[u32; 4]> = list.iter().map(|c| data(one!(@call c, $m, $g))).collect();
                        let odd: Vec<[u32; 4]> = list.iter().enumerate().filter(|(i, _)| i % 3 != 1).map(|(_, c)| data(one!(@call c, $m, $g))).collect();
                        let w = stringify!($im);
                        let both: Vec<[u32; 4]> = want.iter().chain(odd.iter()).copied().collect();
                        fn keep<T>(p: &(usize, T)) -> bool {
                            p.0 % 3 != 1
                        }
                        // exact, filtered and chained sources, by value and by reference
                        type V<'a> = Box<dyn Iterator<Item = $src> + 'a>;
                        type W<'a> = Box<dyn Iterator<Item = &'a $src> + 'a>;
                        for (kind, want) in [("", &want), (" filtered", &odd), (" chained", &both)] {
                            let val = || -> V {
                                match kind {
                                    "" => Box::new(list.iter().copied()),
                                    " filtered" => Box::new(list.iter().copied().enumerate().filter(keep).map(|p| p.1)),
                                    _ => Box::new(list.iter().copied().chain(list.iter().copied().enumerate().filter(keep).map(|p| p.1))),
                                }
                            };
                            let re = || -> W {
                                match kind {
                                    "" => Box::new(list.iter()),
                                    " filtered" => Box::new(list.iter().enumerate().filter(keep).map(|p| p.1)),
                                    _ => Box::new(list.iter().chain(list.iter().enumerate().filter(keep).map(|p| p.1))),
                                }
                            };
                            walk_iter::<$t, _>(c, &format!("{} by value{}", w, kind), depth, &|| one!(@conv ColorIter, val(), $im, $g), want)?;
                            walk_iter::<$t, _>(c, &format!("{} by reference{}", w, kind), depth, &|| one!(@conv ColorIterRef, re(), $im, $g), want)?;
                        }
                    }};
                    (@call $c:expr, $m:ident, ()) => { $c.$m() };
                    (@call $c:expr, $m:ident, ($i:ty, $o:ty)) => { $c.$m::<$i, $o>() };
                    (@conv $tr:ident, $it:expr, $im:ident, ()) => { $tr::$im($it) };
                    (@conv $tr:ident, $it:expr, $im:ident, ($i:ty, $o:ty)) => { $tr::$im::<$i, $o>($it) };
                }
                one!(to_rgb, into_rgb [Rgb] ());
                one!(to_srgb, into_srgb [Srgb] ());
                one!(to_hsl, into_hsl [Hsl] ());
                one!(to_hsv, into_hsv [Hsv] ());
                one!(to_yuv, into_yuv [Yuv] ());
                one!(to_xyz, into_xyz [Xyz] ());
                one!(to_lab, into_lab [Lab<D65, O2>] (D65, O2));
                one!(to_lab, into_lab [Lab<E, O10>] (E, O10));
                one!(to_lch, into_lch [Lch<D65, O2>] (D65, O2));
                one!(to_lch, into_lch [Lch<D50, O10>] (D50, O10));
                Ok(())
            });
        }
    }};
}

macro_rules! check_from {
    ($list:expr, $src:ty, $($t:ty => $m:ident),*) => {{
        for c in $list.iter() {
            $(
                let a = <$t>::from(*c).data;
                let b: $t = c.$m();
                ensure!(bits4(&[a]) == bits4(&[b.data]), "{}::from({:?}) is {:?} instead of {:?}", stringify!($t), c.data, a, b.data);
            )*
        }
    }};
}

macro_rules! check_setters {
    ($t:ty, $new:expr, [$($get:ident $set:ident $with:ident $i:expr),*]) => {{
        for k in 0..16u32 {
            let d = [0.1 + 0.01 * k as f32, 0.3, 0.5 - 0.02 * k as f32, 0.7];
            let c: $t = $new(d);
            ensure!(c.data == d, "{} stores {:?} as {:?}", stringify!($t), d, c.data);
            $(
                for v in [0.0f32, 0.25, 1.0, -0.5, 1.5, 0.9] {
                    let mut e = d;
                    e[$i] = v;
                    let mut m = c;
                    m.$set(v);
                    ensure!(c.$get() == d[$i], "{}::{} is {} for {:?}", stringify!($t), stringify!($get), c.$get(), d);
                    ensure!(m.data == e, "{}::{}({}) makes {:?} of {:?}", stringify!($t), stringify!($set), v, m.data, d);
                    let w = c.$with(v);
                    ensure!(w.data == e && c.data == d, "{}::{}({}) makes {:?} of {:?}", stringify!($t), stringify!($with), v, w.data, d);
                }
            )*
            for v in [0.0f32, 0.5, 1.0] {
                let mut m = c;
                m.set_alpha(v);
                let e = [d[0], d[1], d[2], v];
                ensure!(m.data == e && c.with_alpha(v).data == e && c.alpha() == d[3], "{}: alpha setters", stringify!($t));
            }
            ensure!(Color::data(&c) == &d[..], "{}: data()", stringify!($t));
            let mut m = c;
            m.data_mut()[2] = 0.125;
            ensure!(m.data == [d[0], d[1], 0.125, d[3]], "{}: data_mut()", stringify!($t));
            // channel mapping: colour channels in order, alpha untouched
            let mut seen = vec![];
            let r = c.map_color_channels(|v| { seen.push(v); v * 0.5 });
            ensure!(seen == d[..3] && r.data == [d[0] * 0.5, d[1] * 0.5, d[2] * 0.5, d[3]], "{}: map_color_channels saw {:?}, made {:?}", stringify!($t), seen, r.data);
            for stop in 0..3 {
                let mut n = 0;
                let r = c.try_map_color_channels(|v| { n += 1; if n == stop + 1 { Err(v) } else { Ok(v) } });
                ensure!(r.is_err() && r.unwrap_err() == d[stop] && n == stop + 1, "{}: try_map_color_channels failing at {}", stringify!($t), stop);
            }
        }
    }};
}

pub fn run12(ctx: &'static Ctx) {
    let alphas = [0.0f32, 0.4, 1.0];
    // conversions
    let mut work = vec![];
    for (s, n) in SPACES {
        let steps = match s {
            S::Rgb => ctx.pick(100, 200),
            S::Srgb | S::Hsl | S::Hsv => ctx.pick(48, 120),
            _ => ctx.pick(32, 80),
        };
        let g: &'static Vec<[f32; 3]> = Box::leak(Box::new(grid_of(s, steps)));
        for (i, ch) in g.chunks(2000).enumerate() {
            work.push((s, n, i, ch));
        }
    }
    par(&work, |(s, n, i, ch)| {
        for (t, tn) in SPACES {
            ctx.case(&format!("conv/{}-{}/{}", n, tn, i), |c| {
                for (k, p) in ch.iter().enumerate() {
                    let d = [p[0], p[1], p[2], alphas[k % 3]];
                    let v = rc::v4(&d);
                    let rgb = rc::to_rgb(*s, &v);
                    let (mx, mn) = mxmn(&rgb);
                    let want = rc::convert(*s, t, &v);
                    let got = with_color!(*s, d, col, conv(&col, t));
                    ensure!(agrees(*s, t, &got, &want, &rgb), "{}{:?} to {} is {:?}, expected {:?}", n, d, tn, got, want);
                    if k % 16 == 0 {
                        c.obs(mx - mn > 0.01, &got.map(|v| (v * 4096.0) as i32));
                    } else {
                        c.eval_n(1);
                    }
                }
                Ok(())
            });
        }
    });
    // round trips of RGB through every space
    let n = ctx.pick(51, 160);
    let g: &'static Vec<[f32; 3]> = Box::leak(Box::new(grid_of(S::Rgb, n)));
    let chunks: Vec<_> = g.chunks(2000).enumerate().collect();
    par(&chunks, |(i, ch)| {
        for (t, tn) in SPACES {
            ctx.case(&format!("round/{}/{}", tn, i), |c| {
                for (k, p) in ch.iter().enumerate() {
                    let d = [p[0], p[1], p[2], alphas[k % 3]];
                    let m = conv(&Rgb { data: d }, t);
                    let md = m.map(|v| v as f32);
                    let r = with_color!(t, md, col, conv(&col, S::Rgb));
                    ensure!((0..4).all(|i| (r[i] - d[i] as f64).abs() <= 1e-4), "rgb{:?} through {} comes back as {:?}", d, tn, r);
                    c.eval_n(1);
                }
                Ok(())
            });
        }
    });
    // every path of conversion agrees with the trait method
    let st = steps(0.0, 1.0, ctx.pick(6, 12));
    let cols: Vec<[f32; 4]> = cube(&st, &st, &st).iter().enumerate().map(|(i, p)| [p[0], p[1], p[2], alphas[i % 3]]).collect();
    ctx.case("paths/rgb", |_| { let l: Vec<Rgb> = cols.iter().map(|d| Rgb { data: *d }).collect(); check_paths!(&l, Rgb); check_from!(l, Rgb, Srgb => to_srgb, Hsl => to_hsl, Hsv => to_hsv, Yuv => to_yuv, Xyz => to_xyz, Lab => to_lab, Lch => to_lch); Ok(()) });
    ctx.case("paths/srgb", |_| { let l: Vec<Srgb> = cols.iter().map(|d| Srgb { data: *d }).collect(); check_paths!(&l, Srgb); check_from!(l, Srgb, Rgb => to_rgb, Hsl => to_hsl, Hsv => to_hsv, Yuv => to_yuv, Xyz => to_xyz, Lab => to_lab, Lch => to_lch); Ok(()) });
    ctx.case("paths/hsl", |_| { let l: Vec<Hsl> = cols.iter().map(|d| Hsl { data: *d }).collect(); check_paths!(&l, Hsl); check_from!(l, Hsl, Rgb => to_rgb, Srgb => to_srgb, Hsv => to_hsv, Yuv => to_yuv, Xyz => to_xyz, Lab => to_lab, Lch => to_lch); Ok(()) });
    ctx.case("paths/hsv", |_| { let l: Vec<Hsv> = cols.iter().map(|d| Hsv { data: *d }).collect(); check_paths!(&l, Hsv); check_from!(l, Hsv, Rgb => to_rgb, Srgb => to_srgb, Hsl => to_hsl, Yuv => to_yuv, Xyz => to_xyz, Lab => to_lab, Lch => to_lch); Ok(()) });
    ctx.case("paths/yuv", |_| { let l: Vec<Yuv> = cols.iter().map(|d| Yuv { data: *d }).collect(); check_paths!(&l, Yuv); check_from!(l, Yuv, Rgb => to_rgb, Srgb => to_srgb, Hsl => to_hsl, Hsv => to_hsv, Xyz => to_xyz, Lab => to_lab, Lch => to_lch); Ok(()) });
    ctx.case("paths/xyz", |_| { let l: Vec<Xyz> = cols.iter().map(|d| Xyz { data: *d }).collect(); check_paths!(&l, Xyz); check_from!(l, Xyz, Rgb => to_rgb, Srgb => to_srgb, Hsl => to_hsl, Hsv => to_hsv, Yuv => to_yuv, Lab => to_lab, Lch => to_lch); Ok(()) });
    ctx.case("paths/lab", |_| { let l: Vec<Lab> = cols.iter().map(|d| Lab::new_with_alpha(d[0], d[1], d[2], d[3])).collect(); check_paths!(&l, Lab); check_from!(l, Lab, Rgb => to_rgb, Srgb => to_srgb, Hsl => to_hsl, Hsv => to_hsv, Yuv => to_yuv, Xyz => to_xyz, Lch => to_lch); Ok(()) });
    ctx.case("paths/lch", |_| { let l: Vec<Lch> = cols.iter().map(|d| Lch::new_with_alpha(d[0], d[1], d[2], d[3])).collect(); check_paths!(&l, Lch); check_from!(l, Lch, Rgb => to_rgb, Srgb => to_srgb, Hsl => to_hsl, Hsv => to_hsv, Yuv => to_yuv, Xyz => to_xyz, Lab => to_lab); Ok(()) });
    ctx.case("paths/lab2", |_| { let l: Vec<Lab<E, O10>> = cols.iter().map(|d| Lab::new_with_alpha(d[0], d[1], d[2], d[3])).collect(); check_paths!(&l, Lab<E, O10>); Ok(()) });
    ctx.case("paths/lch2", |_| { let l: Vec<Lch<D50, O10>> = cols.iter().map(|d| Lch::new_with_alpha(d[0], d[1], d[2], d[3])).collect(); check_paths!(&l, Lch<D50, O10>); Ok(()) });
    // every short sequence of iterator calls
    let few: &[[f32; 4]] = &[[0.9, 0.1, 0.2, 1.0], [0.1, 0.8, 0.3, 0.4], [0.2, 0.3, 0.7, 0.0], [0.6, 0.5, 0.1, 1.0], [0.0, 0.0, 0.0, 0.25], [1.0, 1.0, 1.0, 1.0], [0.3, 0.3, 0.35, 0.75]];
    macro_rules! walks {
        ($name:expr, $t:ty, $new:expr) => {{
            let l: Vec<$t> = few.iter().map($new).collect();
            check_walks!(ctx, $name, &l, $t);
        }};
    }
    std::thread::scope(|s| {
        s.spawn(|| walks!("rgb", Rgb, |d| Rgb { data: *d }));
        s.spawn(|| walks!("hsv", Hsv, |d| Hsv { data: *d }));
    });
    // channel accessors
    ctx.case("setters/rgb", |_| { check_setters!(Rgb, |d: [f32; 4]| Rgb::new_with_alpha(d[0], d[1], d[2], d[3]), [red set_red with_red 0, green set_green with_green 1, blue set_blue with_blue 2]); Ok(()) });
    ctx.case("setters/srgb", |_| { check_setters!(Srgb, |d: [f32; 4]| Srgb::new_with_alpha(d[0], d[1], d[2], d[3]), [red set_red with_red 0, green set_green with_green 1, blue set_blue with_blue 2]); Ok(()) });
    ctx.case("setters/hsl", |_| { check_setters!(Hsl, |d: [f32; 4]| Hsl::new_with_alpha(d[0], d[1], d[2], d[3]), [hue set_hue with_hue 0, saturation set_saturation with_saturation 1, lightness set_lightness with_lightness 2]); Ok(()) });
    ctx.case("setters/hsv", |_| { check_setters!(Hsv, |d: [f32; 4]| Hsv::new_with_alpha(d[0], d[1], d[2], d[3]), [hue set_hue with_hue 0, saturation set_saturation with_saturation 1, value set_value with_value 2]); Ok(()) });
    ctx.case("setters/yuv", |_| { check_setters!(Yuv, |d: [f32; 4]| Yuv::new_with_alpha(d[0], d[1], d[2], d[3]), [y set_y with_y 0, u set_u with_u 1, v set_v with_v 2]); Ok(()) });
    ctx.case("setters/xyz", |_| { check_setters!(Xyz, |d: [f32; 4]| Xyz::new_with_alpha(d[0], d[1], d[2], d[3]), [x set_x with_x 0, y set_y with_y 1, z set_z with_z 2]); Ok(()) });
    ctx.case("setters/lab", |_| { check_setters!(Lab, |d: [f32; 4]| Lab::new_with_alpha(d[0], d[1], d[2], d[3]), [l set_l with_l 0, a set_a with_a 1, b set_b with_b 2]); Ok(()) });
    ctx.case("setters/lch", |_| { check_setters!(Lch, |d: [f32; 4]| Lch::new_with_alpha(d[0], d[1], d[2], d[3]), [l set_l with_l 0, c set_c with_c 1, h set_h with_h 2]); Ok(()) });
    ctx.case("constructors", |_| {
        // opaque constructors, clamping for RGB and sRGB only
        for v in cube(&[-0.5, 0.0, 0.3, 1.0, 1.5], &[-0.5, 0.4, 1.5], &[-0.5, 0.2, 1.5]) {
            let cl = [v[0].clamp(0.0, 1.0), v[1].clamp(0.0, 1.0), v[2].clamp(0.0, 1.0)];
            let raw = [v[0], v[1], v[2], 1.0];
            ensure!(Rgb::new(v[0], v[1], v[2]).data == [cl[0], cl[1], cl[2], 1.0], "Rgb::new{:?}", v);
            ensure!(Srgb::new(v[0], v[1], v[2]).data == [cl[0], cl[1], cl[2], 1.0], "Srgb::new{:?}", v);
            for a in [-0.5f32, 0.25, 1.5] {
                let e = [cl[0], cl[1], cl[2], a.clamp(0.0, 1.0)];
                ensure!(Rgb::new_with_alpha(v[0], v[1], v[2], a).data == e, "Rgb::new_with_alpha{:?}", v);
                ensure!(Srgb::new_with_alpha(v[0], v[1], v[2], a).data == e, "Srgb::new_with_alpha{:?}", v);
            }
            ensure!(Hsl::new(v[0], v[1], v[2]).data == raw, "Hsl::new{:?}", v);
            ensure!(Hsv::new(v[0], v[1], v[2]).data == raw, "Hsv::new{:?}", v);
            ensure!(Yuv::new(v[0], v[1], v[2]).data == raw, "Yuv::new{:?}", v);
            ensure!(Xyz::new(v[0], v[1], v[2]).data == raw, "Xyz::new{:?}", v);
            ensure!(<Lab>::new(v[0], v[1], v[2]).data == raw, "Lab::new{:?}", v);
            ensure!(<Lch>::new(v[0], v[1], v[2]).data == raw, "Lch::new{:?}", v);
            let f = |i: usize| if i < 3 { v[i] } else { 0.5 };
            let raw = [v[0], v[1], v[2], 0.5];
            ensure!(Hsl::new_from_fn(f).data == raw && Hsv::new_from_fn(f).data == raw && Yuv::new_from_fn(f).data == raw && Xyz::new_from_fn(f).data == raw, "new_from_fn");
            ensure!(<Lab>::new_from_fn(f).data == raw && <Lch>::new_from_fn(f).data == raw, "new_from_fn");
            ensure!(Srgb::new_from_fn(f).data == [cl[0], cl[1], cl[2], 0.5], "Srgb::new_from_fn");
        }
        for d in [Rgb::default().data, Srgb::default().data, Hsl::default().data, Hsv::default().data, Yuv::default().data, Xyz::default().data, <Lab>::default().data, <Lch>::default().data] {
            ensure!(d == [0.0; 4], "default colour {:?}", d);
        }
        let named = [
            (Rgb::NONE, [0.0, 0.0, 0.0, 0.0]), (Rgb::WHITE, [1.0, 1.0, 1.0, 1.0]), (Rgb::BLACK, [0.0, 0.0, 0.0, 1.0]),
            (Rgb::RED, [1.0, 0.0, 0.0, 1.0]), (Rgb::GREEN, [0.0, 1.0, 0.0, 1.0]), (Rgb::BLUE, [0.0, 0.0, 1.0, 1.0]),
            (Rgb::CYAN, [0.0, 1.0, 1.0, 1.0]), (Rgb::MAGENTA, [1.0, 0.0, 1.0, 1.0]), (Rgb::YELLOW, [1.0, 1.0, 0.0, 1.0]),
        ];
        for (c, d) in named {
            ensure!(c.data == d, "named colour {:?} instead of {:?}", c.data, d);
        }
        // gamma functions over a fine grid
        for i in (0..=20000).map(|i| i as f32 / 20000.0).chain((0..=20000).map(|i| i as f32 / 400000.0)) {
            let v = i as f64;
            let (a, b) = (d10::gamma_to_linear(i) as f64, d10::linear_to_gamma(i) as f64);
            ensure!((a - rc::lin(v)).abs() < 1e-6 && (b - rc::gam(v)).abs() < 1e-6, "gamma of {}: {} {}", v, a, b);
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------- C13

struct Adj {
    name: String,
    f: Box<dyn Fn(&Rgb) -> Rgb + Sync + Send>,
    r: Box<dyn Fn(&V) -> V + Sync + Send>,
    /// false: the operation defines its own alpha
    keeps_alpha: bool,
    /// rounding of large parameters
    slack: f64,
}

fn hsl_op(c: &V, f: impl Fn(V) -> V) -> V {
    rc::hsl_rgb(&f(rc::rgb_hsl(c)))
}
fn per(c: &V, f: impl Fn(f64) -> f64) -> V {
    [rc::cl(f(c[0])), rc::cl(f(c[1])), rc::cl(f(c[2])), c[3]]
}

fn adjustments(fine: bool) -> Vec<Adj> {
    let mut v: Vec<Adj> = vec![];
    // thorough: a regular grid of parameters on top of the special ones
    let more = |base: &[f32], a: f64, b: f64, n: usize| -> Vec<f32> {
        let mut l = base.to_vec();
        if fine {
            l.extend(steps(a, b, n).into_iter().filter(|x| !base.contains(x)));
        }
        l
    };
    fn add(v: &mut Vec<Adj>, name: String, f: impl Fn(&Rgb) -> Rgb + Sync + Send + 'static, r: impl Fn(&V) -> V + Sync + Send + 'static) {
        v.push(Adj { name, f: Box::new(f), r: Box::new(r), keeps_alpha: true, slack: 0.0 });
    }
    let gray: [(&str, Intensity, fn(&V) -> f64); 9] = [
        ("average", Intensity::Average, |c| (c[0] + c[1] + c[2]) / 3.0),
        ("rec601luma", Intensity::Rec601Luma, |c| c[0] * 0.298839 + c[1] * 0.586811 + c[2] * 0.114350),
        ("rec709luma", Intensity::Rec709Luma, |c| c[0] * 0.212656 + c[1] * 0.715158 + c[2] * 0.072186),
        ("brightness", Intensity::Brightness, |c| mxmn(c).0),
        ("lightness", Intensity::Lightness, |c| (mxmn(c).0 + mxmn(c).1) / 2.0),
        ("saturation", Intensity::Saturation, |c| rc::rgb_hsl(c)[1]),
        ("red", Intensity::Red, |c| c[0]),
        ("green", Intensity::Green, |c| c[1]),
        ("blue", Intensity::Blue, |c| c[2]),
    ];
    for (n, i, g) in gray {
        add(&mut v, format!("gray-{}", n), move |c| c.to_gray_with_intensity(i), move |c| [g(c), g(c), g(c), c[3]]);
    }
    add(&mut v, "gray".into(), |c| c.to_gray(), |c| { let l = c[0] * 0.212656 + c[1] * 0.715158 + c[2] * 0.072186; [l, l, l, c[3]] });
    add(&mut v, "invert".into(), |c| c.invert(), |c| [1.0 - c[0], 1.0 - c[1], 1.0 - c[2], c[3]]);
    add(&mut v, "sepia".into(), |c| c.with_sepia(), |c| {
        let m = [[0.393, 0.769, 0.189], [0.349, 0.686, 0.168], [0.272, 0.534, 0.131]];
        let f = |i: usize| rc::cl(c[0] * m[i][0] + c[1] * m[i][1] + c[2] * m[i][2]);
        [f(0), f(1), f(2), c[3]]
    });
    for g in more(&[0.2f32, 0.5, 0.99, 1.0, 1.01, 1.6, 2.2, 10.0], 0.1, 4.0, 13) {
        let p = 1.0 / g as f64;
        add(&mut v, format!("gamma-{}", g), move |c| c.with_gamma(g), move |c| per(c, |v| v.powf(p)));
        let gf = g as f64;
        add(&mut v, format!("gamma_opt-{}", g), move |c| c.with_gamma_opt(g), move |c| {
            per(c, |v| if v > 0.5 { ((v - 0.5) * 2.0).powf(1.0 / gf) / 2.0 + 0.5 } else { (v * 2.0).powf(gf) / 2.0 })
        });
        add(&mut v, format!("gamma_saturation-{}", g), move |c| c.with_gamma_saturation(g), move |c| hsl_op(c, |h| [h[0], rc::cl(h[1]).powf(p), h[2], h[3]]));
        for (b, w) in [(0.0f32, 1.0f32), (0.1, 0.9), (0.25, 0.75), (-0.5, 1.5), (0.3, 1.0), (0.0, 0.4), (0.9, 0.1), (1.0, 0.0), (0.75, 0.25), (1.5, -0.5)] {
            let (bf, wf) = (b as f64, w as f64);
            add(&mut v, format!("level-{}-{}-{}", b, w, g), move |c| c.with_level(b, w, g), move |c| per(c, |v| rc::cl((v - bf) / (wf - bf)).powf(p)));
        }
    }
    // points that almost meet are still a slope, not a threshold; the input may be off by the
    // rounding of one subtraction, which the slope then magnifies
    for (b, w) in [(0.5f32, 0.50001f32), (0.50001, 0.5), (0.25, 0.250_02), (0.250_02, 0.25), (0.0, 0.00002), (0.00002, 0.0), (0.99998, 1.0), (0.43, 0.430_003)] {
        let (bf, wf) = (b as f64, w as f64);
        for g in [1.0f32, 2.0] {
            let p = 1.0 / g as f64;
            add(&mut v, format!("level-near-{}-{}-{}", b, w, g), move |c| c.with_level(b, w, g), move |c| per(c, |v| rc::cl((v - bf) / (wf - bf)).powf(p)));
        }
    }
    // equal black and white points make a threshold
    for bw in [0.0f32, 0.25, 0.43, 0.5, 1.0, -0.5, 1.5] {
        let t = bw as f64;
        for g in [0.5f32, 1.0, 2.2] {
            add(&mut v, format!("level-equal-{}-{}", bw, g), move |c| c.with_level(bw, bw, g), move |c| per(c, |v| if (v - t).abs() > 2e-4 { if v > t { 1.0 } else { 0.0 } } else if v == t { 0.0 } else { f64::NAN }));
        }
    }
    for f in more(&[-2.0f32, -1.0, -0.3, 0.0, 0.002, 0.5, 0.999, 1.0, 1.003, 1.3, 3.0, 100.0], -1.5, 2.5, 37) {
        let k = f as f64;
        add(&mut v, format!("brightness-{}", f), move |c| c.with_brightness(f), move |c| per(c, |v| v + k));
        add(&mut v, format!("contrast-{}", f), move |c| c.with_contrast(f), move |c| per(c, |v| (v - 0.5) * k + 0.5));
        for b in [-0.4f32, 0.0, 0.2] {
            let bf = b as f64;
            add(&mut v, format!("brightness_contrast-{}-{}", b, f), move |c| c.with_brightness_contrast(b, f), move |c| per(c, |v| (v + bf - 0.5) * k + 0.5));
        }
        add(&mut v, format!("saturation-{}", f), move |c| c.with_saturation(f), move |c| hsl_op(c, |h| [h[0], rc::cl(h[1] * k), h[2], h[3]]));
        add(&mut v, format!("stretch_saturation-{}", f), move |c| c.stretch_saturation(f), move |c| hsl_op(c, |h| [h[0], rc::cl((h[1] - 0.5) * k + 0.5), h[2], h[3]]));
        add(&mut v, format!("lightness-{}", f), move |c| c.with_lightness(f), move |c| hsl_op(c, |h| [h[0], h[1], rc::cl(h[2] * k), h[3]]));
        add(&mut v, format!("vibrance-{}", f), move |c| c.with_vibrance(f), move |c| {
            hsl_op(c, |h| {
                let scale = k * ((h[0] * PI).sin() * 1.5).min(1.0);
                [h[0], rc::cl(h[1] + (h[1] * PI).sin() * scale), h[2], h[3]]
            })
        });
        for (h, s) in [(1.0f32, 1.0f32), (0.5, 1.2), (2.0, 0.3), (0.0, 0.0)] {
            add(&mut v, format!("modulate-{}-{}-{}", h, s, f), move |c| c.modulate(h, s, f), move |c| {
                hsl_op(c, |x| [rc::cl(x[0] * h as f64), rc::cl(x[1] * s as f64), rc::cl(x[2] * k), x[3]])
            });
        }
    }
    for deg in more(&[0.0f32, 0.01, 0.5, 359.99, 30.0, 90.0, 180.0, 359.0, 360.0, -1.0, -120.0, -360.0, 450.0, 720.0, 1000.0, -1000.0, 36000.0, -36030.0], -900.0, 900.0, 163) {
        add(&mut v, format!("hue_rotate-{}", deg), move |c| c.with_hue_rotate(deg), move |c| hsl_op(c, |h| [(h[0] + deg as f64 / 360.0).rem_euclid(1.0), h[1], h[2], h[3]]));
        v.last_mut().unwrap().slack = deg.abs() as f64 / 360.0 * 1e-6;
    }
    add(&mut v, "map_channels".into(), |c| c.map_channels(|v| v * 1.7 - 0.3), |c| per(c, |v| v * 1.7 - 0.3));
    add(&mut v, "map_color_channels".into(), |c| c.map_color_channels(|v| v * 1.7 - 0.3), |c| per(c, |v| v * 1.7 - 0.3));
    add(&mut v, "map_channels_unclamped".into(), |c| c.map_channels_unclamped(|v| v * 1.7 - 0.3), |c| [c[0] * 1.7 - 0.3, c[1] * 1.7 - 0.3, c[2] * 1.7 - 0.3, c[3]]);
    add(&mut v, "mod_color_channels".into(), |c| { let mut c = *c; c.mod_color_channels(|v| v * 1.7 - 0.3); c }, |c| [c[0] * 1.7 - 0.3, c[1] * 1.7 - 0.3, c[2] * 1.7 - 0.3, c[3]]);
    for o in [[0.0f32, 0.0, 0.0, 0.0], [1.0, 1.0, 1.0, 1.0], [0.2, 0.7, 0.4, 0.5], [0.9, 0.1, 0.6, 0.75], [0.3, 0.3, 1.0, 1.0]] {
        let col = Rgb { data: o };
        let ov = rc::v4(&o);
        v.push(Adj {
            name: format!("difference-{:?}", o),
            f: Box::new(move |c| c.difference(&col)),
            r: Box::new(move |c| [(c[0] - ov[0]).abs(), (c[1] - ov[1]).abs(), (c[2] - ov[2]).abs(), 1.0]),
            keeps_alpha: false,
            slack: 0.0,
        });
        v.push(Adj {
            name: format!("alpha_blend-{:?}", o),
            f: Box::new(move |c| c.alpha_blend(col)),
            r: Box::new(move |c| {
                let f = |i: usize| rc::cl(ov[i] * ov[3] + c[i] * (1.0 - ov[3]));
                [f(0), f(1), f(2), (c[3] + ov[3]).min(1.0)]
            }),
            keeps_alpha: false,
            slack: 0.0,
        });
    }
    v
}

pub fn run13(ctx: &'static Ctx) {
    let adj = adjustments(!ctx.quick());
    let n = ctx.pick(28, 40);
    let st = steps(0.0, 1.0, n);
    let mut cols: Vec<[f32; 3]> = cube(&st, &st, &st);
    let sp = [0.0f32, 1e-4, 4e-4, 4.2e-4, 0.02, 0.49, 0.5, 0.500_01, 0.51, 0.98, 0.9996, 0.9999, 1.0];
    cols.extend(cube(&sp, &sp, &sp));
    cols.extend([[0.500_005, 0.250_01, 0.000_01], [0.250_005, 0.000_005, 0.500_002], [0.999_99, 0.430_001, 0.250_015], [0.430_002, 0.500_008, 0.999_985]]);
    let alphas = [1.0f32, 0.0, 0.6];
    par(&adj, |a| {
        ctx.case(&format!("adjust/{}", a.name), |c| {
            for (i, p) in cols.iter().enumerate() {
                let d = [p[0], p[1], p[2], alphas[i % 3]];
                let col = Rgb { data: d };
                let got = (a.f)(&col);
                let want = (a.r)(&rc::v4(&d));
                let (mx, mn) = mxmn(&rc::v4(&d));
                // the saturation of a nearly white, black or gray colour is ill conditioned
                let den = (mx + mn).min(2.0 - mx - mn).max(1e-4);
                let near_gray = mx - mn > 0.0 && mx - mn < 3.0 * rc::EPS;
                // colours with two maximal channels up to the tolerance may use the formula of either sector
                let tie = (0..3).filter(|k| mx - d[*k] as f64 <= 2.0 * rc::EPS).count() >= 2 && (0..3).any(|k| d[k] as f64 != mx && mx - d[k] as f64 <= 2.0 * rc::EPS);
                let tol = if near_gray { 0.2 } else { a.slack + 1e-5 + 1e-6 / den + 1e-6 / (mx - mn).max(3.0 * rc::EPS) + if tie { 6.0 * rc::EPS / (mx - mn) } else { 0.0 } };
                // steep curves amplify the rounding of their input near zero
                let steep = |i: usize| {
                    let e = 2e-7;
                    let (lo, hi) = ((a.r)(&[d[0] as f64 - e, d[1] as f64 - e, d[2] as f64 - e, d[3] as f64]), (a.r)(&[d[0] as f64 + e, d[1] as f64 + e, d[2] as f64 + e, d[3] as f64]));
                    (got.data[i] as f64) >= lo[i].min(hi[i]).min(want[i]) - 2e-5 && (got.data[i] as f64) <= lo[i].max(hi[i]).max(want[i]) + 2e-5
                };
                for k in 0..3 {
                    ensure!(
                        got.data[k].is_finite() && (want[k].is_nan() && (0.0..=1.0).contains(&got.data[k]) || (got.data[k] as f64 - want[k]).abs() <= tol || steep(k)),
                        "{} of {:?} is {:?}, expected {:?}", a.name, d, got.data, want
                    );
                }
                ensure!((got.data[3] as f64 - want[3]).abs() <= 1e-6, "{} of {:?} has alpha {}, expected {}", a.name, d, got.data[3], want[3]);
                ensure!(!a.keeps_alpha || got.data[3] == d[3], "{} of {:?} has alpha {}", a.name, d, got.data[3]);
                c.obs(!same_px(&got, &col), &got.data.map(|v| (v * 1024.0).round() as i32));
            }
            Ok(())
        });
    });
    ctx.case("minmax", |c| {
        for p in &cols {
            let col = Rgb { data: [p[0], p[1], p[2], 0.0] };
            let (mx, mn) = mxmn(&rc::v4(&col.data));
            ensure!(col.max() as f64 == mx && col.min() as f64 == mn, "max/min of {:?}: {} {}", p, col.max(), col.min());
            c.obs(mx != mn, &(col.max().to_bits(), col.min().to_bits()));
        }
        Ok(())
    });
    ctx.case("predicates", |_| {
        let e = rc::EPS as f32;
        for base in [0.0f32, 0.1, 0.25, 0.5, 0.75] {
            for d in cube(&[0.0, e * 0.5, e * 3.0], &[0.0, e * 0.5, e * 3.0], &[0.0, e * 0.5, e * 3.0]) {
                for a in [0.0, 0.5, 1.0] {
                    let c = Rgb { data: [base + d[0], base + d[1], base + d[2], a] };
                    let g = (d[0] - d[1]).abs() < e && (d[1] - d[2]).abs() < e;
                    ensure!(c.is_grayscale() == g, "is_grayscale of {:?} is {}", c.data, c.is_grayscale());
                    ensure!(c.has_transparency() == (a != 1.0), "has_transparency of {:?}", c.data);
                }
            }
        }
        for (a, t) in [(1.0f32, false), (1.0 - e * 0.5, false), (1.0 - e * 2.0, true), (0.999, true), (0.0, true)] {
            ensure!(Rgb { data: [0.1, 0.2, 0.3, a] }.has_transparency() == t, "has_transparency at alpha {}", a);
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------- C14

fn parse_text(name: &str, text: &str) -> Result<(bool, Vec<f64>), String> {
    let rest = text.strip_prefix(name).ok_or_else(|| format!("does not start with {}", name))?;
    let (alpha, rest) = match rest.strip_prefix('a') {
        Some(r) => (true, r),
        None => (false, rest),
    };
    let inner = rest.strip_prefix('(').and_then(|r| r.strip_suffix(')')).ok_or("no parentheses")?;
    let mut v = vec![];
    for t in inner.split(", ") {
        let body = t.strip_prefix('-').unwrap_or(t);
        let (i, f) = body.split_once('.').ok_or_else(|| format!("number {:?} without decimal point", t))?;
        let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
        if !digits(i) || !digits(f) || f.len() > 4 {
            return Err(format!("number {:?}", t));
        }
        v.push(t.parse::<f64>().map_err(|e| e.to_string())?);
    }
    Ok((alpha, v))
}

fn check_text<C: Color>(c: &C, name: &str) -> Res {
    let text = c.to_string();
    ensure!(c.type_name() == name, "type name {:?} instead of {:?}", c.type_name(), name);
    let (alpha, v) = parse_text(name, &text).map_err(|e| format!("{:?}: {}", text, e))?;
    let a = c.data()[3] as f64;
    ensure!(alpha == ((1.0 - a).abs() > rc::EPS), "{:?} for alpha {}", text, a);
    ensure!(v.len() == if alpha { 4 } else { 3 }, "{:?} has {} numbers", text, v.len());
    for (i, n) in v.iter().enumerate() {
        let d = c.data()[i] as f64;
        ensure!((n - d).abs() <= 0.00005001 + d.abs() * 2e-7, "{:?}: number {} is {} for {}", text, i, n, d);
    }
    Ok(())
}

fn check_eq<C: Color>(mk: &dyn Fn([f32; 4]) -> C) -> Res {
    let e = rc::EPS as f32;
    // the tolerance is a power of two, so these differences are exact; the last bit of 1.0 is `u`
    let u = 2.0f32.powi(-23);
    for base in [[0.25f32, 0.5, 0.125, 0.75], [0.0; 4], [1.0; 4], [-0.5, -1.0, 0.875, 0.25]] {
    for i in 0..4 {
        for (d, same) in [(0.0, true), (e, true), (-e, true), (e - u, true), (u - e, true), (e + u, false), (-e - u, false), (e * 0.5, true), (-e * 0.5, true), (e * 2.0, false), (-e * 2.0, false), (0.1, false), (-0.1, false)] {
            let mut o = base;
            o[i] += d;
            let (a, b) = (mk(base), mk(o));
            ensure!((a == b) == same && (b == a) == same, "{:?} == {:?} is {} / {}", a, b, a == b, b == a);
            ensure!((a != b) != same, "{:?} != {:?}", a, b);
            // a second small difference in another channel does not matter, a large one does
            for j in 0..4 {
                if j != i {
                    let mut p = o;
                    p[j] += e * 0.5;
                    ensure!((a == mk(p)) == same, "{:?} == {:?}", a, mk(p));
                    p[j] = base[j] + 0.01;
                    ensure!(a != mk(p), "{:?} == {:?}", a, mk(p));
                }
            }
        }
    }
    }
    // the tolerance is absolute, whatever the size of the values
    for v in [1.5f32, 2.0, 3.0, 7.75, 20.0, -3.0, -17.0, 60.0] {
        for i in 0..4 {
            for (d, same) in [(0.0f32, true), (0.25, true), (0.5, true), (1.0, true), (2.0, false), (3.0, false), (8.0, false), (64.0, false)] {
                for d in [d * e, -d * e] {
                    let mut a = [0.25f32, 0.5, 0.125, 0.75];
                    a[i] = v;
                    let mut o = a;
                    o[i] = v + d;
                    let exact = (o[i] as f64 - v as f64).abs();
                    if (exact - rc::EPS).abs() < 1e-9 && exact != rc::EPS || (exact <= rc::EPS) != same {
                        continue; // the difference does not survive the addition
                    }
                    let (a, b) = (mk(a), mk(o));
                    ensure!((a == b) == same && (b == a) == same && (a != b) != same, "{:?} == {:?} is {} / {}", a, b, a == b, b == a);
                }
            }
        }
    }
    Ok(())
}

type ParseFn = fn(&str) -> Result<String, (String, &'static str, String)>;
macro_rules! parser {
    ($t:ty) => {
        |s: &str| s.parse::<$t>().map(|v| format!("{:?}", v)).map_err(|e| (e.input.clone(), e.enum_type, e.to_string()))
    };
}

pub fn option_tables() -> Vec<(&'static str, ParseFn, Vec<(&'static str, &'static str)>)> {
    vec![
        ("Intensity", parser!(Intensity), vec![("average", "Average"), ("rec601luma", "Rec601Luma"), ("rec709luma", "Rec709Luma"), ("default", "Rec709Luma"), ("brightness", "Brightness"), ("lightness", "Lightness"), ("saturation", "Saturation"), ("red", "Red"), ("green", "Green"), ("blue", "Blue")]),
        ("EdgeDetection", parser!(d10::ops::EdgeDetection), vec![("sobel", "Sobel"), ("default", "Sobel"), ("laplace", "Laplace")]),
        ("DrawingMode", parser!(d10::ops::DrawingMode), vec![("gray", "Gray"), ("colored", "Colored"), ("default", "Colored"), ("reduced_colors", "ReducedColors")]),
        ("SaturationMode", parser!(d10::ops::SaturationMode), vec![("hsl", "Hsl"), ("default", "Hsl"), ("hsv", "Hsv"), ("lch", "Lch")]),
        ("BalanceMode", parser!(d10::ops::BalanceMode), vec![("rgb", "Rgb"), ("srgb", "Srgb"), ("hsv", "Hsv"), ("hsl", "Hsl"), ("lch", "Lch")]),
        ("FilterMode", parser!(d10::ops::FilterMode), vec![("nearest", "Nearest"), ("bilinear", "Bilinear"), ("bicubic", "Bicubic"), ("lanczos3", "Lanczos3"), ("Lanczos", "Lanczos3"), ("default", "Auto"), ("auto", "Auto")]),
        ("EqualizeMode", parser!(d10::ops::EqualizeMode), vec![("rgb", "Rgb"), ("srgb", "Srgb"), ("saturation", "Saturation"), ("lightness", "Lightness"), ("saturation_lightness", "SaturationLightness")]),
        ("BlendOp", parser!(d10::ops::BlendOp), vec![("normal", "Normal"), ("addition", "Addition"), ("subtract", "Subtract"), ("darken", "Darken"), ("lighten", "Lighten"), ("hsl_darken", "HslDarken"), ("hsl_lighten", "HslLighten"), ("lch_darken", "LchDarken"), ("lch_lighten", "LchLighten"), ("lch_hue", "LchHue"), ("lch_saturation", "LchSaturation"), ("lch_color", "LchColor")]),
        ("PngColorType", parser!(d10::PngColorType), vec![("l8", "L8"), ("la8", "La8"), ("l16", "L16"), ("la16", "La16"), ("rgb8", "Rgb8"), ("rgba8", "Rgba8"), ("rgb16", "Rgb16"), ("rgba16", "Rgba16")]),
        ("PngFilterType", parser!(d10::PngFilterType), vec![("no_filter", "NoFilter"), ("sub", "Sub"), ("up", "Up"), ("avg", "Avg"), ("paeth", "Paeth")]),
        ("PngCompression", parser!(d10::PngCompression), vec![("default", "Default"), ("fast", "Fast"), ("best", "Best")]),
        ("WebPPreset", parser!(d10::WebPPreset), vec![("default", "Default"), ("picture", "Picture"), ("photo", "Photo"), ("drawing", "Drawing"), ("icon", "Icon"), ("text", "Text"), ("lossless", "Lossless")]),
        ("BmpColorType", parser!(d10::BmpColorType), vec![("l8", "L8"), ("la8", "La8"), ("rgb8", "Rgb8"), ("rgba8", "Rgba8")]),
        ("IcoColorType", parser!(d10::IcoColorType), vec![("l8", "L8"), ("la8", "La8"), ("rgb8", "Rgb8"), ("rgba8", "Rgba8")]),
        ("JpegSamplingFactor", parser!(d10::JpegSamplingFactor), vec![("1x1", "F_1_1"), ("1x2", "F_1_2"), ("2x1", "F_2_1"), ("2x2", "F_2_2"), ("4x1", "F_4_1"), ("4x2", "F_4_2"), ("1x4", "F_1_4"), ("2x4", "F_2_4"), ("4:4:4", "R_4_4_4"), ("4:4:0", "R_4_4_0"), ("4:4:1", "R_4_4_1"), ("4:2:2", "R_4_2_2"), ("4:2:0", "R_4_2_0"), ("4:2:1", "R_4_2_1"), ("4:1:1", "R_4_1_1"), ("4:1:0", "R_4_1_0")]),
    ]
}

fn edits(s: &str) -> Vec<String> {
    let ch: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let alpha: Vec<char> = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-: \0é".chars().collect();
    for i in 0..=ch.len() {
        for a in &alpha {
            let mut c = ch.clone();
            c.insert(i, *a);
            v.push(c.iter().collect());
        }
        if i < ch.len() {
            let mut c = ch.clone();
            c.remove(i);
            v.push(c.iter().collect());
            for a in &alpha {
                let mut c = ch.clone();
                c[i] = *a;
                v.push(c.iter().collect());
            }
            let mut c = ch.clone();
            c[i] = if c[i].is_ascii_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
            v.push(c.iter().collect());
        }
    }
    v.push(s.to_uppercase());
    for w in [" ", "\n", "\t", "\r\n", "\u{a0}", "=", ",", "-", "--", "'", "\""] {
        v.push(format!("{}{}", w, s));
        v.push(format!("{}{}", s, w));
    }
    v.push(format!("{}{}", s, s));
    v.push(s.chars().rev().collect());
    v.push(String::new());
    v
}

pub fn run14(ctx: &'static Ctx) {
    let e = rc::EPS as f32;
    let nums = ctx.pick(
        vec![0.0f32, 1.0, 0.5, 0.00004, 0.00005, 0.00006, 0.12344, 0.12345, 0.12346, 0.99994, 0.99995, 0.99996, -0.3, -0.00001, -1.0, 12.5, 0.1, 0.0001, -0.1234, -0.12345, -0.99996, -12.3456, 1234.5, 0.2000001, 300000.0, 16777216.0, -98765.43],
        (0..70).map(|i| i as f32 * 0.0137 - 0.1).chain([0.0, 1.0, 0.5, 0.00004, 0.00005, 0.00006, 0.12345, 0.99995, 12.5, 1234.5, 300000.0, 16777216.0, -98765.43, 1e9]).collect(),
    );
    let alphas = [1.0f32, 1.0 - e * 0.5, 1.0 - e * 2.0, 0.99996, 0.5, 0.12345, 0.0, 0.00004];
    let items: Vec<[f32; 4]> = cube(&nums, &nums, &nums).into_iter().enumerate().map(|(i, p)| [p[0], p[1], p[2], alphas[(i + i / 8 + i / 64) % 8]]).collect();
    let chunks: Vec<_> = items.chunks(500).enumerate().collect();
    par(&chunks, |(i, ch)| {
        ctx.case(&format!("text/{}", i), |c| {
            for d in ch.iter() {
                check_text(&Rgb { data: *d }, "rgb")?;
                check_text(&Srgb { data: *d }, "srgb")?;
                check_text(&Hsl { data: *d }, "hsl")?;
                check_text(&Hsv { data: *d }, "hsv")?;
                check_text(&Yuv { data: *d }, "yuv")?;
                check_text(&Xyz { data: *d }, "xyz")?;
                let [x, y, z, a] = *d;
                check_text(&Lab::<D50, O2>::new_with_alpha(x, y, z, a), "lab<D50,O2>")?;
                check_text(&Lab::<D50, O10>::new_with_alpha(x, y, z, a), "lab<D50,O10>")?;
                check_text(&Lab::<D65, O2>::new_with_alpha(x, y, z, a), "lab<D65,O2>")?;
                check_text(&Lab::<D65, O10>::new_with_alpha(x, y, z, a), "lab<D65,O10>")?;
                check_text(&Lab::<E, O2>::new_with_alpha(x, y, z, a), "lab<E,O2>")?;
                check_text(&Lab::<E, O10>::new_with_alpha(x, y, z, a), "lab<E,O10>")?;
                check_text(&Lch::<D50, O2>::new_with_alpha(x, y, z, a), "lch<D50,O2>")?;
                check_text(&Lch::<D50, O10>::new_with_alpha(x, y, z, a), "lch<D50,O10>")?;
                check_text(&Lch::<D65, O2>::new_with_alpha(x, y, z, a), "lch<D65,O2>")?;
                check_text(&Lch::<D65, O10>::new_with_alpha(x, y, z, a), "lch<D65,O10>")?;
                check_text(&Lch::<E, O2>::new_with_alpha(x, y, z, a), "lch<E,O2>")?;
                check_text(&Lch::<E, O10>::new_with_alpha(x, y, z, a), "lch<E,O10>")?;
                c.obs(true, &Rgb { data: *d }.to_string());
            }
            Ok(())
        });
    });
    // every multiple of half the last digit between -1 and 2, one ulp around it, and as alpha
    let half: Vec<i32> = (-20000..=40000).collect();
    let chunks: Vec<_> = half.chunks(2500).enumerate().collect();
    par(&chunks, |(i, ch)| {
        ctx.case(&format!("digits/{}", i), |c| {
            for k in ch.iter() {
                let v = (*k as f64 / 20000.0) as f32;
                let (lo, hi) = (f32::from_bits(v.to_bits().wrapping_sub((v != 0.0) as u32)), f32::from_bits(v.to_bits() + 1));
                check_text(&Rgb { data: [lo, v, hi, v.clamp(0.0, 1.0)] }, "rgb")?;
                check_text(&Xyz { data: [v, hi, lo, 1.0] }, "xyz")?;
                check_text(&<Lab>::new_with_alpha(hi, lo, v, lo.clamp(0.0, 1.0)), "lab<D65,O2>")?;
                c.obs(true, &Rgb { data: [lo, v, hi, v.clamp(0.0, 1.0)] }.to_string());
            }
            Ok(())
        });
    });
    ctx.case("eq/rgb", |_| check_eq(&|d| Rgb { data: d }));
    ctx.case("eq/srgb", |_| check_eq(&|d| Srgb { data: d }));
    ctx.case("eq/hsl", |_| check_eq(&|d| Hsl { data: d }));
    ctx.case("eq/hsv", |_| check_eq(&|d| Hsv { data: d }));
    ctx.case("eq/yuv", |_| check_eq(&|d| Yuv { data: d }));
    ctx.case("eq/xyz", |_| check_eq(&|d| Xyz { data: d }));
    ctx.case("eq/lab", |_| check_eq(&|d| <Lab>::new_with_alpha(d[0], d[1], d[2], d[3])));
    ctx.case("eq/lch", |_| check_eq(&|d| <Lch>::new_with_alpha(d[0], d[1], d[2], d[3])));

    let tables = option_tables();
    let mut all: Vec<String> = tables.iter().flat_map(|t| t.2.iter().map(|n| n.0.to_string())).collect();
    all.sort();
    all.dedup();
    par(&tables, |(ty, parse, names)| {
        ctx.case(&format!("option/{}", ty), |c| {
            for (n, v) in names {
                let r = parse(n);
                ensure!(r.as_deref() == Ok(*v), "{:?} parses as {:?}, expected {}", n, r, v);
                c.obs(true, n);
            }
            let mut bad: Vec<String> = names.iter().flat_map(|n| edits(n.0)).collect();
            bad.extend(names.iter().map(|n| n.1.to_string()));
            bad.extend(all.iter().cloned());
            // names put together from the names and the parts of names, with and without a separator
            let parts: Vec<&str> = all.iter().flat_map(|n| std::iter::once(n.as_str()).chain(n.split(['_', '-']))).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
            for a in names.iter().map(|n| n.0) {
                for b in parts.iter().copied().chain(["luma", "intensity", "mode", "filter", "order", "color", "x", "0", "1"]) {
                    for sep in ["", "_", "-", " "] {
                        bad.push(format!("{}{}{}", a, sep, b));
                        bad.push(format!("{}{}{}", b, sep, a));
                    }
                }
                bad.extend(a.split(['_', '-']).map(|s| s.to_string()));
            }
            for s in bad {
                if names.iter().any(|n| n.0 == s) {
                    continue;
                }
                match parse(&s) {
                    Ok(v) => return Err(format!("{:?} is accepted as {}", s, v)),
                    Err((input, enum_type, text)) => {
                        ensure!(input == s && enum_type == *ty, "{:?} is rejected as {:?} of {}", s, input, enum_type);
                        ensure!(text.contains(&s) && text.contains(ty), "{:?} is rejected with {:?}", s, text);
                    }
                }
                c.obs(true, &s);
            }
            Ok(())
        });
    });
}
