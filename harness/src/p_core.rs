//! C06: the pixel buffer against a reference grid (breadth-first search over real buffers).
//! C07: neighbourhood windows and convolution against a direct reference.
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use d10::illuminant::{D50, D65, E};
use d10::observer::{O10, O2};
use d10::{Color, PixelBuffer, Rgb};
use d10_core::kernel::Kernel;
use d10_core::kernel_dyn::KernelDyn;
use d10_core::pixelbuffer::{is_valid_buffer_size, MAX_BUFFER_SIZE};
use std::cell::{Cell, RefCell};
use std::collections::{HashSet, VecDeque};

pub const RULE6: &str = "Breadth-first search over all reachable contents of small buffers: a state is (width, height, colour index per pixel) of a real PixelBuffer built by real mutators; transitions are every mutator with every argument (put_pixel on and around the grid, whole-buffer and failing-at-k mutators, data_mut, enumerate_mut); in every state every accessor, mapper and converter is compared with a reference grid. Constructors are enumerated over sizes around every limit. Coordinates of every pixel in images of millions of pixels. Non-trivial: the transition changed the buffer or was rejected.";
pub const ASSUME6: &[&str] = &["alphabet of 3 colours (transparent, gray, coloured); shapes up to 3x2 (quick), 3x3 and 4x2 (thorough)"];

const ALPHA: [Rgb; 3] = [
    Rgb { data: [0.25, 0.25, 0.25, 0.0] },
    Rgb { data: [0.5, 0.5, 0.5, 1.0] },
    Rgb { data: [0.75, 0.125, 0.5, 1.0] },
];

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Grid {
    w: u32,
    h: u32,
    d: Vec<u8>,
}

fn idx(c: &Rgb) -> Option<u8> {
    ALPHA.iter().position(|a| same_px(a, c)).map(|i| i as u8)
}
fn nxt(c: &Rgb) -> Rgb {
    ALPHA[(idx(c).expect("colour of the alphabet") as usize + 1) % 3]
}
fn canon(b: &PixelBuffer<Rgb>) -> Result<Grid, String> {
    let mut d = vec![];
    for c in b.data() {
        d.push(idx(c).ok_or_else(|| format!("colour {:?} was never stored", c.data))?);
    }
    ensure!(d.len() as u64 == b.width() as u64 * b.height() as u64, "{}x{} holds {} pixels", b.width(), b.height(), d.len());
    Ok(Grid { w: b.width(), h: b.height(), d })
}
fn build(g: &Grid) -> PixelBuffer<Rgb> {
    PixelBuffer::new_from_raw(g.w, g.h, g.d.iter().map(|i| ALPHA[*i as usize]).collect())
}
fn ix(v: Option<&Rgb>) -> Option<u8> {
    v.map(|c| idx(c).unwrap_or(99))
}

fn observe(c: &Case, b: &PixelBuffer<Rgb>, g: &Grid) -> Res {
    let (w, h) = (g.w as i32, g.h as i32);
    ensure!(canon(b)? == *g, "contents {:?} instead of {:?}", canon(b)?, g);
    ensure!(b.is_empty() == g.d.is_empty(), "is_empty {}", b.is_empty());
    let want: Vec<(u32, u32, u8)> = (0..g.d.len() as u32).map(|i| (i % g.w.max(1), i / g.w.max(1), g.d[i as usize])).collect();
    let got: Vec<(u32, u32, u8)> = b.enumerate().map(|(x, y, p)| (x, y, idx(&p).unwrap_or(99))).collect();
    ensure!(got == want, "enumerate yields {:?}, expected {:?}", got, want);
    for y in -2..h + 2 {
        for x in -2..w + 2 {
            let inside = x >= 0 && y >= 0 && x < w && y < h;
            let exp = inside.then(|| g.d[(x + y * w) as usize]);
            ensure!(b.is_in_image(x, y) == inside, "is_in_image({},{})", x, y);
            ensure!(ix(b.get_pixel_optional(x, y)) == exp, "get_pixel_optional({},{}) is {:?}", x, y, ix(b.get_pixel_optional(x, y)));
            if x >= 0 && y >= 0 {
                let r = guard(|| *b.get_pixel(x as u32, y as u32));
                ensure!(r.as_ref().ok().map(|p| idx(p).unwrap_or(99)) == exp, "get_pixel({},{}) is {:?}", x, y, r);
            }
            if w > 0 {
                let e = g.d[(x.clamp(0, w - 1) + y.clamp(0, h - 1) * w) as usize];
                ensure!(idx(b.get_pixel_clamped(x, y)) == Some(e), "get_pixel_clamped({},{})", x, y);
            }
        }
    }
    for (x, y) in [(i32::MIN, 0), (i32::MAX, 0), (0, i32::MIN), (0, i32::MAX), (i32::MIN, i32::MAX), (65536, 65536)] {
        ensure!(!b.is_in_image(x, y), "is_in_image({},{})", x, y);
        ensure!(b.get_pixel_optional(x, y).is_none(), "get_pixel_optional({},{}) is a pixel", x, y);
        if w > 0 {
            let e = g.d[(x.clamp(0, w - 1) + y.clamp(0, h - 1) * w) as usize];
            ensure!(idx(b.get_pixel_clamped(x, y)) == Some(e), "get_pixel_clamped({},{})", x, y);
        }
    }
    for (x, y) in [(u32::MAX, 0), (0, u32::MAX), (1 << 31, 1 << 31), (65536, 65536)] {
        ensure!(guard(|| *b.get_pixel(x, y)).is_err(), "get_pixel({},{}) returned a pixel", x, y);
    }
    ensure!(b.has_transparency() == g.d.contains(&0), "has_transparency {}", b.has_transparency());
    ensure!(b.is_grayscale() == !g.d.contains(&2), "is_grayscale {}", b.is_grayscale());

    // mappers leave the source alone and visit row-major, once
    let seen = RefCell::new(vec![]);
    let m = b.map_colors(|p| {
        seen.borrow_mut().push(idx(p).unwrap_or(99));
        nxt(p)
    });
    ensure!(seen.into_inner() == g.d, "map_colors does not visit every pixel once in order");
    ensure!(canon(&m)?.d == g.d.iter().map(|i| (i + 1) % 3).collect::<Vec<_>>() && (m.width(), m.height()) == (g.w, g.h), "map_colors result {:?}", canon(&m)?);
    let seen = RefCell::new(vec![]);
    let m = b.map_colors_enumerated(|x, y, p| {
        seen.borrow_mut().push((x, y, idx(p).unwrap_or(99)));
        if (x + y) % 2 == 0 { nxt(p) } else { *p }
    });
    ensure!(seen.into_inner() == want, "map_colors_enumerated does not visit every pixel once in order");
    ensure!(canon(&m)?.d == want.iter().map(|(x, y, i)| if (x + y) % 2 == 0 { (i + 1) % 3 } else { *i }).collect::<Vec<_>>(), "map_colors_enumerated result");
    let n = g.d.len();
    for k in 0..=n {
        let calls = Cell::new(0);
        let r = b.try_map_colors::<u32, _, Rgb>(|p| {
            calls.set(calls.get() + 1);
            if calls.get() == k + 1 { Err(k as u32) } else { Ok(nxt(p)) }
        });
        if k < n {
            ensure!(r.err() == Some(k as u32) && calls.get() == k + 1, "try_map_colors failing at {} made {} calls", k, calls.get());
        } else {
            ensure!(r.is_ok() && canon(&r.unwrap())?.d == g.d.iter().map(|i| (i + 1) % 3).collect::<Vec<_>>(), "try_map_colors result");
        }
        let calls = Cell::new(0);
        let r = b.try_map_colors_enumerated::<u32, _>(|x, y, p| {
            calls.set(calls.get() + 1);
            if (x + y * g.w) as usize == k { Err(k as u32) } else { Ok(nxt(p)) }
        });
        if k < n {
            ensure!(r.err() == Some(k as u32) && calls.get() == k + 1, "try_map_colors_enumerated failing at {} made {} calls", k, calls.get());
        } else {
            ensure!(r.is_ok() && canon(&r.unwrap())?.d == g.d.iter().map(|i| (i + 1) % 3).collect::<Vec<_>>(), "try_map_colors_enumerated result");
        }
    }
    // conversions keep shape, order and alpha, and equal the per-pixel conversion
    macro_rules! conv {
        ($name:expr, $b:expr, $f:expr) => {{
            let r = $b;
            ensure!((r.width(), r.height(), r.data().len()) == (g.w, g.h, n), "{} changes the shape", $name);
            for (p, q) in b.data().iter().zip(r.data()) {
                let e = $f(p);
                ensure!(q.data().iter().zip(e.data()).all(|(a, b)| a.to_bits() == b.to_bits() || a == b || (a - b).abs() < 1e-6 || (a.is_nan() && b.is_nan())), "{} yields {:?} for {:?}", $name, q.data(), p.data);
                ensure!(q.alpha() == p.alpha(), "{} changes alpha", $name);
            }
        }};
    }
    conv!("to_rgb", b.to_rgb(), |p: &Rgb| p.to_rgb());
    conv!("to_srgb", b.to_srgb(), |p: &Rgb| p.to_srgb());
    conv!("to_hsl", b.to_hsl(), |p: &Rgb| p.to_hsl());
    conv!("to_hsv", b.to_hsv(), |p: &Rgb| p.to_hsv());
    conv!("to_yuv", b.to_yuv(), |p: &Rgb| p.to_yuv());
    conv!("to_xyz", b.to_xyz(), |p: &Rgb| p.to_xyz());
    conv!("to_lab", b.to_lab::<D65, O2>(), |p: &Rgb| p.to_lab::<D65, O2>());
    conv!("to_lab10", b.to_lab::<D50, O10>(), |p: &Rgb| p.to_lab::<D50, O10>());
    conv!("to_lch", b.to_lch::<D65, O2>(), |p: &Rgb| p.to_lch::<D65, O2>());
    conv!("to_lch10", b.to_lch::<E, O10>(), |p: &Rgb| p.to_lch::<E, O10>());
    ensure!(canon(b)? == *g, "an accessor changed the buffer to {:?}", canon(b)?);
    ensure!(format!("{:?}", b).contains(&format!("{}x{}", g.w, g.h)), "debug text {:?}", b);
    c.eval_n(1);
    Ok(())
}

/// applies transition t to a real buffer and to the reference; returns None when t is out of range
fn step(b: &mut PixelBuffer<Rgb>, g: &mut Grid, t: usize) -> Option<Result<bool, String>> {
    let n = g.d.len();
    let (w, h) = (g.w, g.h);
    let mut t = t;
    // put_pixel
    let puts = ((w + 2) * (h + 2) * 3) as usize;
    if t < puts {
        let (k, p) = (t % 3, t / 3);
        let (x, y) = (p as u32 % (w + 2), p as u32 / (w + 2));
        let r = guard(|| b.put_pixel(x, y, ALPHA[k]));
        if x < w && y < h {
            g.d[(x + y * w) as usize] = k as u8;
            return Some(r.map(|_| true));
        }
        return Some(if r.is_ok() { Err(format!("put_pixel({},{}) outside the buffer succeeded", x, y)) } else { Ok(true) });
    }
    t -= puts;
    if t <= n {
        // try_mod_colors failing at pixel t
        let mut calls = 0;
        let r = b.try_mod_colors::<usize, _>(|p| {
            calls += 1;
            if calls == t + 1 { Err(calls) } else { Ok(nxt(p)) }
        });
        for i in g.d.iter_mut().take(t) {
            *i = (*i + 1) % 3;
        }
        let want = if t < n { Err(t + 1) } else { Ok(()) };
        return Some(if r == want { Ok(t > 0) } else { Err(format!("try_mod_colors returned {:?}", r)) });
    }
    t -= n + 1;
    if t <= n {
        let r = b.try_mod_colors_enumerated::<usize, _>(|x, y, p| if (x + y * w) as usize == t { Err(t) } else { Ok(nxt(p)) });
        for i in g.d.iter_mut().take(t) {
            *i = (*i + 1) % 3;
        }
        let want = if t < n { Err(t) } else { Ok(()) };
        return Some(if r == want { Ok(t > 0) } else { Err(format!("try_mod_colors_enumerated returned {:?}", r)) });
    }
    t -= n + 1;
    match t {
        0 => {
            b.mod_colors(nxt);
            g.d.iter_mut().for_each(|i| *i = (*i + 1) % 3);
        }
        1 => {
            b.mod_colors_enumerated(|x, y, p| if x <= y { nxt(p) } else { *p });
            for (i, v) in g.d.iter_mut().enumerate() {
                if i as u32 % w <= i as u32 / w {
                    *v = (*v + 1) % 3;
                }
            }
        }
        2 => {
            for (x, y, p) in b.enumerate_mut() {
                *p = ALPHA[((x * 2 + y) % 3) as usize];
            }
            for (i, v) in g.d.iter_mut().enumerate() {
                *v = ((i as u32 % w * 2 + i as u32 / w) % 3) as u8;
            }
        }
        3 => {
            b.data_mut().reverse();
            g.d.reverse();
        }
        4 => {
            // a mapped copy does not alias its source
            let mut cl = b.clone();
            cl.mod_colors(nxt);
            let mut m = b.map_colors(|p| *p);
            m.mod_colors(nxt);
            if canon(&cl) != canon(&m) {
                return Some(Err("clone and mapped copy differ".into()));
            }
        }
        5 => {
            // a whole new buffer made by a function sees every coordinate
            *b = PixelBuffer::new_from_func(w, h, |x, y| ALPHA[((x + y * 2 + 1) % 3) as usize]);
            for (i, v) in g.d.iter_mut().enumerate() {
                *v = ((i as u32 % w + i as u32 / w * 2 + 1) % 3) as u8;
            }
        }
        _ => return None,
    }
    Some(Ok(true))
}

pub fn run6(ctx: &'static Ctx) {
    let mut shapes: Vec<(u32, u32)> = vec![(0, 0), (1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3)];
    if !ctx.quick() {
        shapes.extend([(4, 1), (1, 4), (4, 2), (2, 4), (3, 3)]);
    }
    par(&shapes, |&(w, h)| {
        ctx.case(&format!("model/{}x{}", w, h), |c| {
            let mut seen: HashSet<Grid> = HashSet::new();
            let mut queue: VecDeque<(Grid, String)> = VecDeque::new();
            let first = if w == 0 { PixelBuffer::new(0, 0) } else { PixelBuffer::new_with_color(w, h, ALPHA[0]) };
            let g = canon(&first)?;
            ensure!(g.d.iter().all(|i| *i == 0) && (g.w, g.h) == (w, h), "new_with_color is {:?}", g);
            seen.insert(g.clone());
            observe(c, &first, &g)?;
            queue.push_back((g, String::new()));
            let mut tr = 0;
            while let Some((g, path)) = queue.pop_front() {
                let mut t = 0;
                loop {
                    let mut b = build(&g);
                    let mut r = g.clone();
                    match step(&mut b, &mut r, t) {
                        None => break,
                        Some(Err(e)) => return Err(format!("after {}: op {}: {}", path, t, e)),
                        Some(Ok(nt)) => {
                            tr += 1;
                            c.obs(nt, &(t, &r.d));
                            let got = canon(&b).map_err(|e| format!("after {} op {}: {}", path, t, e))?;
                            ensure!(got == r, "after {} op {}: buffer {:?}, expected {:?}", path, t, got, r);
                            if seen.insert(r.clone()) {
                                observe(c, &b, &r).map_err(|e| format!("after {} op {}: {}", path, t, e))?;
                                let mut p = path.clone();
                                if p.len() < 60 {
                                    p.push_str(&format!("/{}", t));
                                }
                                queue.push_back((r, p));
                            }
                        }
                    }
                    t += 1;
                }
            }
            c.states(seen.len() as u64);
            c.transitions(tr);
            c.traces(tr);
            Ok(())
        });
    });

    // constructors
    let mut dims: Vec<u32> = vec![0, 1, 2, 3, 7, 255, 256, 32767, 32768, 65535, 65536, 1 << 30, (1 << 30) - 1, (1 << 30) + 1, 1 << 31, u32::MAX - 1, u32::MAX];
    if !ctx.quick() {
        dims.extend([4, 5, 1023, 1024, 16384, 46340, 46341, 131071, 131072, (1 << 31) - 1, (1 << 31) + 1]);
    }
    let mut pairs = vec![];
    for &w in &dims {
        for &h in &dims {
            pairs.push((w, h));
        }
    }
    par(&pairs, |&(w, h)| {
        ctx.case(&format!("size/{}x{}", w, h), |c| {
            let n = w as u64 * h as u64;
            let ok = if w == 0 || h == 0 { w == h } else { n <= MAX_BUFFER_SIZE };
            ensure!(MAX_BUFFER_SIZE <= i32::MAX as u64, "limit {} exceeds i32", MAX_BUFFER_SIZE);
            ensure!(is_valid_buffer_size(w, h) == ok, "is_valid_buffer_size is {}", is_valid_buffer_size(w, h));
            c.obs(!ok, &ok);
            // construction: only tried when rejected or small
            if !ok || n <= 65536 {
                let a = guard(|| PixelBuffer::<Rgb>::new(w, h));
                ensure!(a.is_ok() == ok, "new: {:?}", a.is_ok());
                let mut calls = 0u64;
                let f = guard(|| PixelBuffer::new_from_func(w, h, |x, y| { calls += 1; distinct_px(x + y * w) }));
                ensure!(f.is_ok() == ok, "new_from_func: {:?}", f.is_ok());
                let t = guard(|| PixelBuffer::try_new_from_func::<(), _>(w, h, |x, y| Ok(distinct_px(x + y * w))));
                ensure!(t.is_ok() == ok, "try_new_from_func: {:?}", t.is_ok());
                if ok {
                    ensure!(calls == n, "new_from_func called {} times", calls);
                    let e = distinct_buf(w, h);
                    same(&f.unwrap(), &e)?;
                    same(&t.unwrap().map_err(|_| "error".to_string())?, &e)?;
                    let a = a.unwrap();
                    ensure!((a.width(), a.height(), a.data().len() as u64) == (w, h, n), "new has the wrong shape");
                    ensure!(a.data().iter().all(|p| p.data == [0.0; 4]), "new is not transparent black");
                } else {
                    ensure!(calls == 0, "new_from_func called the function for an invalid size");
                }
            }
            // data of every length around the truncated product
            let mut lens: Vec<u64> = vec![0, 1, 2, 3, n as u32 as u64, (n as u32 as u64).wrapping_add(1), (n as u32 as u64).wrapping_sub(1), (n % 65536), n];
            lens.sort();
            lens.dedup();
            for l in lens {
                if l > 200_000 {
                    continue;
                }
                let r = guard(|| PixelBuffer::new_from_raw(w, h, vec![Rgb::RED; l as usize]));
                let want = ok && l == n;
                ensure!(r.is_ok() == want, "new_from_raw with {} pixels: {:?}", l, r.is_ok());
                c.obs(!want, &(l, want));
            }
            Ok(())
        });
    });
    // shapes beyond every small integer type
    let big: Vec<(u32, u32)> = ctx.pick(vec![(300, 2), (2, 300), (257, 255), (70000, 1), (1, 70000)], vec![(300, 2), (2, 300), (257, 255), (70000, 1), (1, 70000), (256, 256), (40000, 3), (3, 40000), (1000, 900)]);
    par(&big, |&(w, h)| {
        ctx.case(&format!("large/{}x{}", w, h), |c| {
            let n = (w * h) as usize;
            let at = |x: u32, y: u32| distinct_px(x + y * w);
            let mut b = PixelBuffer::new_from_func(w, h, at);
            ensure!((b.width(), b.height(), b.data().len()) == (w, h, n), "shape");
            let mut i = 0u32;
            for (x, y, p) in b.enumerate() {
                ensure!((x, y) == (i % w, i / w) && same_px(&p, &distinct_px(i)), "enumerate yields ({},{}) {:?} at {}", x, y, p.data, i);
                i += 1;
            }
            ensure!(i as usize == n, "enumerate yields {} pixels", i);
            for y in 0..h {
                for x in 0..w {
                    let e = at(x, y);
                    ensure!(same_px(b.get_pixel(x, y), &e), "get_pixel({},{})", x, y);
                    ensure!(b.get_pixel_optional(x as i32, y as i32).map_or(false, |p| same_px(p, &e)), "get_pixel_optional({},{})", x, y);
                    ensure!(same_px(b.get_pixel_clamped(x as i32, y as i32), &e), "get_pixel_clamped({},{})", x, y);
                }
            }
            for x in (0..w as i32).chain([-1, -70000, w as i32, w as i32 + 1, w as i32 + 65536]) {
                for y in [-1, -300, h as i32, h as i32 + 256, h as i32 + 65536] {
                    ensure!(b.get_pixel_optional(x, y).is_none() && !b.is_in_image(x, y), "({},{}) is taken as inside", x, y);
                    let e = at(x.clamp(0, w as i32 - 1) as u32, y.clamp(0, h as i32 - 1) as u32);
                    ensure!(same_px(b.get_pixel_clamped(x, y), &e), "get_pixel_clamped({},{})", x, y);
                }
            }
            for y in (0..h as i32).chain([-1, h as i32]) {
                for x in [-1, -300, w as i32, w as i32 + 256, w as i32 + 65536] {
                    ensure!(b.get_pixel_optional(x, y).is_none() && !b.is_in_image(x, y), "({},{}) is taken as inside", x, y);
                    let e = at(x.clamp(0, w as i32 - 1) as u32, y.clamp(0, h as i32 - 1) as u32);
                    ensure!(same_px(b.get_pixel_clamped(x, y), &e), "get_pixel_clamped({},{})", x, y);
                }
            }
            let k = Cell::new(0u32);
            let m = b.map_colors_enumerated(|x, y, p| { let i = k.get(); let ok = (x, y) == (i % w, i / w) && same_px(p, &distinct_px(i)); k.set(i + 1); let i = i + 1; if ok { distinct_px(i + 5) } else { Rgb::RED } });
            ensure!((m.width(), m.height()) == (w, h) && m.data().iter().enumerate().all(|(i, p)| same_px(p, &distinct_px(i as u32 + 6))), "map_colors_enumerated");
            for k in [0, 1, w - 1, w, n as u32 / 2, n as u32 - 2, n as u32 - 1] {
                let k = k.min(n as u32 - 1);
                let mut b2 = b.clone();
                let r = b2.try_mod_colors_enumerated::<u32, _>(|x, y, _| if x + y * w == k { Err(k) } else { Ok(Rgb::RED) });
                ensure!(r == Err(k), "try_mod_colors_enumerated failing at {} returned {:?}", k, r);
                ensure!(b2.data().iter().enumerate().all(|(i, p)| same_px(p, &if (i as u32) < k { Rgb::RED } else { distinct_px(i as u32) })), "try_mod_colors_enumerated failing at {} left the wrong pixels", k);
                let (x, y) = (k % w, k / w);
                let mut b2 = b.clone();
                b2.put_pixel(x, y, Rgb::RED);
                ensure!(b2.data().iter().enumerate().all(|(i, p)| same_px(p, &if i as u32 == k { Rgb::RED } else { distinct_px(i as u32) })), "put_pixel({},{})", x, y);
                c.obs(true, &k);
            }
            for (x, y, p) in b.enumerate_mut() {
                *p = at(w - 1 - x, y);
            }
            ensure!(b.data().iter().enumerate().all(|(i, p)| same_px(p, &at(w - 1 - i as u32 % w, i as u32 / w))), "enumerate_mut");
            for k in [0usize, n / 2, n - 1] {
                let mut v = vec![Rgb { data: [0.5, 0.5, 0.5, 1.0] }; n];
                ensure!(PixelBuffer::new_from_raw(w, h, v.clone()).is_grayscale() && !PixelBuffer::new_from_raw(w, h, v.clone()).has_transparency(), "gray opaque image");
                v[k] = Rgb { data: [0.5, 0.5, 0.75, 1.0] };
                ensure!(!PixelBuffer::new_from_raw(w, h, v.clone()).is_grayscale(), "is_grayscale misses pixel {}", k);
                v[k] = Rgb { data: [0.5, 0.5, 0.5, 0.5] };
                ensure!(PixelBuffer::new_from_raw(w, h, v).has_transparency(), "has_transparency misses pixel {}", k);
            }
            c.eval_n(n as u64);
            Ok(())
        });
    });
    // images with millions of pixels: the coordinates of every pixel
    let huge: Vec<(u32, u32)> = ctx.pick(vec![(4099, 1031), (66_001, 65), (65, 66_001), (999, 4_001), (1, 4_200_001)], vec![(4099, 2053), (70_001, 258), (258, 70_001), (641, 13_001), (7, 1_300_001), (1_300_001, 7), (1, 17_000_001), (17_000_001, 1), (4_096, 4_100)]);
    for &(w, h) in &huge {
        ctx.case(&format!("huge/{}x{}", w, h), |c| {
            let n = w as u64 * h as u64;
            let key = |x: u32, y: u32| Rgb { data: [x as f32, y as f32, 0.0, 1.0] };
            let i = Cell::new(0u64);
            let next = |what: &str, x: u32, y: u32| -> Res {
                let k = i.get();
                ensure!(x as u64 == k % w as u64 && y as u64 == k / w as u64, "{} visits ({},{}) at {}", what, x, y, k);
                i.set(k + 1);
                Ok(())
            };
            let mut bad: Option<String> = None;
            let mut b = PixelBuffer::new_from_func(w, h, |x, y| {
                if let Err(e) = next("new_from_func", x, y) {
                    bad.get_or_insert(e);
                }
                key(x, y)
            });
            ensure!(bad.is_none(), "{}", bad.unwrap());
            ensure!(i.replace(0) == n && b.data().len() as u64 == n, "new_from_func visits {} pixels", b.data().len());
            for (x, y, p) in b.enumerate() {
                next("enumerate", x, y)?;
                ensure!(same_px(&p, &key(x, y)), "enumerate yields {:?} at ({},{})", p.data, x, y);
            }
            ensure!(i.replace(0) == n, "enumerate ends early");
            for (x, y, p) in b.enumerate_mut() {
                next("enumerate_mut", x, y)?;
                *p = key(y, x);
            }
            ensure!(i.replace(0) == n, "enumerate_mut ends early");
            let r = b.try_map_colors_enumerated::<String, _>(|x, y, p| {
                next("try_map_colors_enumerated", x, y)?;
                if same_px(p, &key(y, x)) { Ok(key(x, y)) } else { Err(format!("({},{}) holds {:?}", x, y, p.data)) }
            })?;
            ensure!(i.replace(0) == n && r.data().len() as u64 == n, "try_map_colors_enumerated ends early");
            drop(r);
            b.try_mod_colors_enumerated::<String, _>(|x, y, p| {
                next("try_mod_colors_enumerated", x, y)?;
                if same_px(p, &key(y, x)) { Ok(key(x, y)) } else { Err(format!("({},{}) holds {:?}", x, y, p.data)) }
            })?;
            ensure!(i.replace(0) == n, "try_mod_colors_enumerated ends early");
            for y in 0..h {
                for x in (0..w).step_by((w as usize / 64).max(1)).chain([w - 1]) {
                    ensure!(same_px(b.get_pixel(x, y), &key(x, y)), "get_pixel({},{})", x, y);
                    ensure!(b.get_pixel_optional(x as i32, y as i32).map_or(false, |p| same_px(p, &key(x, y))), "get_pixel_optional({},{})", x, y);
                    ensure!(same_px(b.get_pixel_clamped(x as i32, y as i32), &key(x, y)), "get_pixel_clamped({},{})", x, y);
                }
            }
            c.obs(true, &n);
            Ok(())
        });
    }
    // failing generator: stops at once, error returned
    let gens: Vec<(u32, u32)> = (1..=4).flat_map(|w| (1..=4).map(move |h| (w, h))).collect();
    par(&gens, |&(w, h)| {
        ctx.case(&format!("tryfunc/{}x{}", w, h), |c| {
            for k in 0..w * h {
                let mut visited = vec![];
                let r = PixelBuffer::<Rgb>::try_new_from_func(w, h, |x, y| {
                    visited.push((x, y));
                    if x + y * w == k { Err(k) } else { Ok(Rgb::RED) }
                });
                ensure!(r.err() == Some(k), "error {} lost", k);
                ensure!(visited == (0..=k).map(|i| (i % w, i / w)).collect::<Vec<_>>(), "visited {:?}", visited);
                c.obs(true, &k);
            }
            Ok(())
        });
    });
}

pub const RULE7: &str = "For every image shape in the bound with pairwise distinct pixels: every window size N (static and dynamic), every centre from 3 pixels before to 3 pixels past the image; and every kernel shape in the bound applied statically, dynamically and per pixel against an f64 convolution with edge clamping. Gaussian kernels over a grid of sizes and sigmas. Windows up to 513 pixels, also on images larger than 255 pixels per side. Non-trivial: the window leaves the image or the kernel is not constant.";
pub const ASSUME7: &[&str] = &["image shapes up to 5x5 plus 7x7, 8x9 and single rows/columns (quick); up to 9x9 (thorough)", "convolutions compared within 1e-4"];

fn refwin(b: &PixelBuffer<Rgb>, x: i32, y: i32, n: usize) -> Vec<Vec<Rgb>> {
    let (w, h) = (b.width() as i32, b.height() as i32);
    let o = (n / 2) as i32;
    (0..n as i32)
        .map(|j| {
            (0..n as i32)
                .map(|i| {
                    let xx = (x - o + i).clamp(0, w - 1);
                    let yy = (y - o + j).clamp(0, h - 1);
                    b.data()[(yy * w + xx) as usize]
                })
                .collect()
        })
        .collect()
}

fn win_static<const N: usize>(b: &PixelBuffer<Rgb>, x: i32, y: i32) -> Vec<Vec<Rgb>> {
    b.get_kernel::<N>(x, y).iter().map(|r| r.to_vec()).collect()
}

fn weights(seed: u32, n: usize) -> Vec<f32> {
    (0..n as u32).map(|i| (((i + 1) * 7 + seed * 13 + i * i * 3) % 23) as f32 / 8.0 - 1.25).collect()
}

fn conv_ref(b: &PixelBuffer<Rgb>, x: i32, y: i32, kw: i32, kh: i32, k: &[f32]) -> [f64; 4] {
    let (w, h) = (b.width() as i32, b.height() as i32);
    let mut s = [0f64; 4];
    for j in 0..kh {
        for i in 0..kw {
            let xx = (x - kw / 2 + i).clamp(0, w - 1);
            let yy = (y - kh / 2 + j).clamp(0, h - 1);
            let p = &b.data()[(yy * w + xx) as usize];
            for c in 0..4 {
                s[c] += k[(j * kw + i) as usize] as f64 * p.data[c] as f64;
            }
        }
    }
    s
}

fn static_conv<const N: usize>(b: &PixelBuffer<Rgb>, k: &[f32]) -> PixelBuffer<Rgb> {
    let mut d = [[0f32; N]; N];
    for y in 0..N {
        for x in 0..N {
            d[y][x] = k[y * N + x];
        }
    }
    b.apply_kernel(&Kernel::<N>::new(d))
}

pub fn run7(ctx: &'static Ctx) {
    let m = ctx.pick(5, 9);
    let mut shapes: Vec<(u32, u32)> = (1..=m).flat_map(|w| (1..=m).map(move |h| (w, h))).collect();
    shapes.extend([(7, 7), (8, 9), (9, 8), (1, 12), (12, 1), (11, 11), (13, 12)]);
    shapes.sort();
    shapes.dedup();
    par(&shapes, |&(w, h)| {
        ctx.case(&format!("window/{}x{}", w, h), |c| {
            let b = distinct_buf(w, h);
            for n in 1..=11usize {
                for y in -3..h as i32 + 3 {
                    for x in -3..w as i32 + 3 {
                        let want = refwin(&b, x, y, n);
                        let eq = |got: &Vec<Vec<Rgb>>| got.len() == n && got.iter().zip(&want).all(|(a, b)| a.len() == n && a.iter().zip(b).all(|(p, q)| same_px(p, q)));
                        let d = b.get_kernel_dyn(x, y, n);
                        ensure!(eq(&d), "get_kernel_dyn({},{},{}) is not the clamped window", x, y, n);
                        let s = match n {
                            1 => win_static::<1>(&b, x, y),
                            2 => win_static::<2>(&b, x, y),
                            3 => win_static::<3>(&b, x, y),
                            4 => win_static::<4>(&b, x, y),
                            5 => win_static::<5>(&b, x, y),
                            7 => win_static::<7>(&b, x, y),
                            9 => win_static::<9>(&b, x, y),
                            11 => win_static::<11>(&b, x, y),
                            _ => want.clone(),
                        };
                        ensure!(eq(&s), "get_kernel::<{}>({},{}) is not the clamped window", n, x, y);
                        let o = (n / 2) as i32;
                        let out = x - o < 0 || y - o < 0 || x + o >= w as i32 || y + o >= h as i32;
                        c.obs(out, &(x, y, n));
                    }
                }
            }
            Ok(())
        });
        let ks: Vec<(u32, u32)> = (1..=ctx.pick(5, 9)).flat_map(|a| (1..=ctx.pick(5, 9)).map(move |b| (a, b))).collect();
        for wide in [false, true] {
        ctx.case(&format!("convolve{}/{}x{}", if wide { "-wide" } else { "" }, w, h), |c| {
            let mut b = distinct_buf(w, h);
            if wide {
                // intermediate results leave 0..1; a convolution is linear there as well
                b.mod_colors(|p| Rgb { data: p.data.map(|v| v * 5.0 - 2.0) });
            }
            let before = bits(&b);
            for &(kw, kh) in &ks {
                let k = weights(kw * 31 + kh, (kw * kh) as usize);
                let kd = KernelDyn::new(k.clone(), kw, kh);
                for y in 0..kh {
                    for x in 0..kw {
                        ensure!(kd.get(x, y) == k[(y * kw + x) as usize], "KernelDyn::get({},{})", x, y);
                    }
                }
                let en: Vec<(u32, u32, f32)> = kd.enumerate().collect();
                ensure!(en.iter().enumerate().all(|(i, e)| *e == (i as u32 % kw, i as u32 / kw, k[i])) && en.len() == k.len(), "KernelDyn::enumerate {:?}", en);
                ensure!((kd.width, kd.height) == (kw, kh), "KernelDyn size");
                let r = b.apply_kernel_dyn(&kd);
                ensure!((r.width(), r.height()) == (w, h), "apply_kernel_dyn changes the size");
                let mut stat = vec![("dynamic", r)];
                if kw == kh {
                    match kw {
                        1 => stat.push(("static", static_conv::<1>(&b, &k))),
                        3 => stat.push(("static", static_conv::<3>(&b, &k))),
                        5 => stat.push(("static", static_conv::<5>(&b, &k))),
                        7 => stat.push(("static", static_conv::<7>(&b, &k))),
                        _ => {}
                    }
                }
                for y in 0..h as i32 {
                    for x in 0..w as i32 {
                        let want = conv_ref(&b, x, y, kw as i32, kh as i32, &k);
                        for (n, r) in &stat {
                            let got = r.data()[(y as u32 * w + x as u32) as usize];
                            ensure!(close_px(&got.data, &want, if wide { 3e-4 } else { 1e-4 }), "{} {}x{} kernel at ({},{}): {:?}, expected {:?}", n, kw, kh, x, y, got.data, want);
                        }
                        let v = b.get_kernel_value(x as u32, y as u32, &kd);
                        ensure!(close_px(&v.data, &want, if wide { 3e-4 } else { 1e-4 }), "get_kernel_value {}x{} at ({},{}): {:?}, expected {:?}", kw, kh, x, y, v.data, want);
                        c.obs(kw * kh > 1, &(kw, kh, x, y));
                    }
                }
            }
            ensure!(bits(&b) == before, "convolution changed its source");
            Ok(())
        });
        }
    });

    // large images and large windows
    let big: Vec<(u32, u32)> = ctx.pick(vec![(300, 3), (3, 300), (60, 50), (290, 270)], vec![(300, 3), (3, 300), (60, 50), (290, 270), (66000, 1), (1, 66000), (257, 256)]);
    par(&big, |&(w, h)| {
        let edge = |n: u32| -> Vec<i32> {
            let n = n as i32;
            let mut v: Vec<i32> = (-3..4).chain(n - 4..n + 4).chain([n / 3, n / 2, 250, 254, 255, 256, 257, 258, 65535, 65536, -300]).filter(|i| *i < n + 40).collect();
            v.sort();
            v.dedup();
            v
        };
        ctx.case(&format!("window-large/{}x{}", w, h), |c| {
            let b = distinct_buf(w, h);
            for n in [2usize, 3, 5, 8, 13, 21, 31, 40, 64, 101] {
                for y in edge(h) {
                    for x in edge(w) {
                        let want = refwin(&b, x, y, n);
                        let eq = |got: &Vec<Vec<Rgb>>| got.len() == n && got.iter().zip(&want).all(|(a, b)| a.len() == n && a.iter().zip(b).all(|(p, q)| same_px(p, q)));
                        ensure!(eq(&b.get_kernel_dyn(x, y, n)), "get_kernel_dyn({},{},{}) is not the clamped window", x, y, n);
                        let s = match n {
                            3 => win_static::<3>(&b, x, y),
                            13 => win_static::<13>(&b, x, y),
                            21 => win_static::<21>(&b, x, y),
                            31 => win_static::<31>(&b, x, y),
                            40 => win_static::<40>(&b, x, y),
                            _ => want.clone(),
                        };
                        ensure!(eq(&s), "get_kernel::<{}>({},{}) is not the clamped window", n, x, y);
                        c.obs(true, &(x, y, n));
                    }
                }
            }
            Ok(())
        });
        // windows larger than the image, sizes beyond small integer types
        ctx.case(&format!("window-huge/{}x{}", w, h), |c| {
            let b = distinct_buf(w, h);
            for n in [127usize, 128, 129, 255, 256, 257, 300, 513] {
                for y in [-1, 0, h as i32 / 2, h as i32 - 1, h as i32 + 2] {
                    for x in [-1, 0, w as i32 / 2, w as i32 - 1, w as i32 + 2] {
                        let want = refwin(&b, x, y, n);
                        let eq = |got: &Vec<Vec<Rgb>>| got.len() == n && got.iter().zip(&want).all(|(a, b)| a.len() == n && a.iter().zip(b).all(|(p, q)| same_px(p, q)));
                        ensure!(eq(&b.get_kernel_dyn(x, y, n)), "get_kernel_dyn({},{},{}) is not the clamped window", x, y, n);
                        let s = match n {
                            129 => win_static::<129>(&b, x, y),
                            _ => want.clone(),
                        };
                        ensure!(eq(&s), "get_kernel::<{}>({},{}) is not the clamped window", n, x, y);
                        c.obs(true, &(x, y, n));
                    }
                }
            }
            Ok(())
        });
        for (kw, kh) in [(1u32, 3u32), (3, 3), (31, 1), (1, 31), (13, 21), (33, 33), (300, 1), (1, 300), (70, 4)] {
            if kw * kh > 100 && w * h > 5000 {
                continue;
            }
            ctx.case(&format!("convolve-large/{}x{}/{}x{}", w, h, kw, kh), |c| {
                let b = distinct_buf(w, h);
                // weights of both signs, so that the sums stay small
                let n = (kw * kh) as usize;
                let k: Vec<f32> = weights(kw * 31 + kh, n).iter().map(|v| v / n as f32).collect();
                let kd = KernelDyn::new(k.clone(), kw, kh);
                let r = b.apply_kernel_dyn(&kd);
                ensure!((r.width(), r.height()) == (w, h), "size");
                let st = if (kw, kh) == (3, 3) { Some(static_conv::<3>(&b, &k)) } else if (kw, kh) == (33, 33) { Some(static_conv::<33>(&b, &k)) } else { None };
                for y in 0..h as i32 {
                    for x in 0..w as i32 {
                        let i = (y as u32 * w + x as u32) as usize;
                        let want = conv_ref(&b, x, y, kw as i32, kh as i32, &k);
                        ensure!(close_px(&r.data()[i].data, &want, 1e-4), "({},{}): {:?}, expected {:?}", x, y, r.data()[i].data, want);
                        if let Some(s) = &st {
                            ensure!(close_px(&s.data()[i].data, &want, 1e-4), "static ({},{}): {:?}, expected {:?}", x, y, s.data()[i].data, want);
                        }
                        c.obs(true, &(x, y));
                    }
                }
                Ok(())
            });
        }
    });

    // gaussian kernels: static = dynamic = formula, symmetric, sum 1
    fn gauss<const N: usize>(ctx: &'static Ctx) {
        for s in 1..=ctx.pick(24, 80) {
            let sigma = s as f32 / 8.0;
            ctx.case(&format!("gauss/{}/{}", N, sigma), |c| {
                let k = Kernel::<N>::new_gaussian(sigma);
                let d = KernelDyn::new_gaussian(N as u32, sigma);
                ensure!((d.width, d.height) == (N as u32, N as u32), "size");
                let o = (N / 2) as f64;
                let f = |x: usize, y: usize| (-((x as f64 - o).powi(2) + (y as f64 - o).powi(2)) / (2.0 * (sigma as f64).powi(2))).exp();
                let sum: f64 = (0..N).flat_map(|y| (0..N).map(move |x| (x, y))).map(|(x, y)| f(x, y)).sum();
                for y in 0..N {
                    for x in 0..N {
                        let want = f(x, y) / sum;
                        ensure!((k.data[y][x] as f64 - want).abs() < 2e-4 * want + 1e-30, "static kernel ({},{}) is {}, expected {}", x, y, k.data[y][x], want);
                        ensure!((d.get(x as u32, y as u32) as f64 - want).abs() < 2e-4 * want + 1e-30, "dynamic kernel ({},{}) is {}, expected {}", x, y, d.get(x as u32, y as u32), want);
                        c.obs(true, &(x, y, d.get(x as u32, y as u32).to_bits()));
                    }
                }
                Ok(())
            });
        }
        for sigma in [0.0f32, 1e-30, 1e-10, 1e30] {
            ctx.case(&format!("gauss/{}/{:e}", N, sigma), |c| {
                let k = Kernel::<N>::new_gaussian(sigma);
                let d = KernelDyn::new_gaussian(N as u32, sigma);
                let s1: f32 = k.data.iter().flatten().sum();
                let s2: f32 = d.enumerate().map(|e| e.2).sum();
                ensure!((s1 - 1.0).abs() < 1e-4 && (s2 - 1.0).abs() < 1e-4, "weights sum to {} / {}", s1, s2);
                c.obs(true, &(s1.to_bits(), s2.to_bits()));
                Ok(())
            });
        }
    }
    // a kernel is generic over what it is applied to and how many values come out
    fn outputs<const N: usize, const S: usize>(ctx: &'static Ctx) {
        for seed in 0..ctx.pick(6, 40) {
            ctx.case(&format!("kernel-generic/{}/{}/{}", N, S, seed), |c| {
                let k = weights(seed, N * N);
                let k: [[f32; N]; N] = std::array::from_fn(|y| std::array::from_fn(|x| k[y * N + x]));
                // (column, row) as the elements of the window
                let d: [[(u32, u32); N]; N] = std::array::from_fn(|y| std::array::from_fn(|x| (x as u32, y as u32)));
                let f = |v: &(u32, u32), i: usize| ((v.0 * 5 + v.1 * 3 + i as u32 * 7 + seed) % 11) as f32 / 4.0;
                let r: [f32; S] = Kernel::<N>::new(k).apply_kernel(&d, f);
                for (i, v) in r.iter().enumerate() {
                    let mut want = 0f64;
                    for y in 0..N {
                        for x in 0..N {
                            want += k[y][x] as f64 * f(&d[y][x], i) as f64;
                        }
                    }
                    ensure!((*v as f64 - want).abs() < 1e-3, "output {} of {} is {}, expected {}", i, S, v, want);
                    c.obs(true, &v.to_bits());
                }
                Ok(())
            });
        }
    }
    macro_rules! outs {
        ($($s:literal)*) => { $( outputs::<1, $s>(ctx); outputs::<2, $s>(ctx); outputs::<3, $s>(ctx); outputs::<4, $s>(ctx); outputs::<5, $s>(ctx); outputs::<8, $s>(ctx); )* };
    }
    outs!(0 1 2 3 4 5 6 8 17);
    gauss::<1>(ctx);
    gauss::<3>(ctx);
    gauss::<5>(ctx);
    gauss::<7>(ctx);
    gauss::<9>(ctx);
    gauss::<11>(ctx);
    gauss::<13>(ctx);
    gauss::<25>(ctx);
    if !ctx.quick() {
        gauss::<15>(ctx);
        gauss::<51>(ctx);
        gauss::<65>(ctx);
    }
    ctx.case("sobel", |c| {
        let x = KernelDyn::new_sobel_x();
        let y = KernelDyn::new_sobel_y();
        let gx: [f32; 9] = [-1.0, 0.0, 1.0, -2.0, 0.0, 2.0, -1.0, 0.0, 1.0];
        ensure!(x.enumerate().all(|(i, j, v)| v == gx[(j * 3 + i) as usize]), "horizontal sobel kernel");
        ensure!(y.enumerate().all(|(i, j, v)| v == -gx[(i * 3 + j) as usize]), "vertical sobel kernel is not the rotated horizontal one");
        c.obs(true, &1);
        Ok(())
    });
    for (w, h, n) in [(0u32, 3u32, 0usize), (2, 3, 5), (2, 3, 7), (3, 2, 4), (1, 1, 0)] {
        ctx.case(&format!("badkernel/{}x{}/{}", w, h, n), |c| {
            let r = guard(|| KernelDyn::new(vec![0.0; n], w, h));
            ensure!(r.is_ok() == (n as u32 == w * h), "KernelDyn::new accepted {} weights: {}", n, r.is_ok());
            c.obs(true, &r.is_ok());
            Ok(())
        });
    }
}
