//! C02, second part: files as other programs write them, built byte by byte from the format
//! specifications, with the colours the specification assigns to them as the oracle.
use crate::ctx::*;
use crate::p_codec::{check_pixels, chunk, lin_px, raw_jpeg, zlib};
use crate::gen::bits;

// ---- PNG: filters, split data, ancillary chunks -----------------------------------------------

fn paeth(a: i32, b: i32, c: i32) -> u8 {
    let p = a + b - c;
    let (pa, pb, pc) = ((p - a).abs(), (p - b).abs(), (p - c).abs());
    (if pa <= pb && pa <= pc { a } else if pb <= pc { b } else { c }) as u8
}

fn png_rows(rows: &[Vec<u8>], bpp: usize, filter: &dyn Fn(usize) -> u8) -> Vec<u8> {
    let mut out = vec![];
    for (y, row) in rows.iter().enumerate() {
        let f = filter(y);
        out.push(f);
        for (i, v) in row.iter().enumerate() {
            let a = if i >= bpp { row[i - bpp] } else { 0 } as i32;
            let b = if y > 0 { rows[y - 1][i] } else { 0 } as i32;
            let c = if y > 0 && i >= bpp { rows[y - 1][i - bpp] } else { 0 } as i32;
            let p = match f { 0 => 0, 1 => a as u8, 2 => b as u8, 3 => ((a + b) / 2) as u8, _ => paeth(a, b, c) };
            out.push(v.wrapping_sub(p));
        }
    }
    out
}

fn png(ctx: &'static Ctx) {
    // (colour type, depth, channels)
    let kinds = [(0u8, 1u8, 1usize), (0, 2, 1), (0, 4, 1), (0, 8, 1), (0, 16, 1), (2, 8, 3), (2, 16, 3), (3, 1, 1), (3, 2, 1), (3, 4, 1), (3, 8, 1), (4, 8, 2), (4, 16, 2), (6, 8, 4), (6, 16, 4)];
    let extras = ["none", "gama", "srgb", "chrm", "sbit", "phys", "text", "bkgd", "time", "private", "after", "exif", "iccp"];
    let mut items = vec![];
    for k in kinds {
        for filter in 0..6u8 {
            items.push((k, filter));
        }
    }
    par(&items, |((ct, depth, chans), filter)| {
        let (ct, depth, chans, filter) = (*ct, *depth, *chans, *filter);
        ctx.case(&format!("foreign-png/t{}d{}f{}", ct, depth, filter), |c| {
            let max = (1u32 << depth) - 1;
            let shapes: &[(u32, u32)] = if ctx.quick() { &[(1, 1), (5, 4), (8, 2), (17, 5)] } else { &[(1, 1), (1, 6), (2, 3), (5, 4), (7, 7), (8, 2), (9, 9), (17, 5), (33, 6), (64, 64)] };
            for (w, h) in shapes.iter().copied() {
                for split in [0usize, 1, 3] {
                    for extra in extras {
                        if split != 0 && extra != "none" || split != 0 && w * h > 500 {
                            continue;
                        }
                        for short in [false, true] {
                            if short && (ct != 3 || depth == 1) {
                                continue;
                            }
                            // a palette may have fewer entries than the depth allows
                            let n = if ct == 3 { if short { max / 2 + 2 } else { (max + 1).min(256) } } else { max + 1 };
                            let val = |x: u32, y: u32, k: usize| -> u32 { let i = x + y * w; (i * 7 + i * i + k as u32 * (max / 3 + 1) + 1) % n };
                            let plte: Vec<u8> = (0..n.min(256)).flat_map(|i| [(i * 53 % 256) as u8, (255 - i) as u8, (i * 7 % 256) as u8]).collect();
                            let rows: Vec<Vec<u8>> = (0..h)
                                .map(|y| {
                                    let mut r = vec![];
                                    let (mut acc, mut nb) = (0u32, 0u32);
                                    for x in 0..w {
                                        for k in 0..chans {
                                            let v = val(x, y, k);
                                            match depth {
                                                16 => r.extend((v as u16).to_be_bytes()),
                                                8 => r.push(v as u8),
                                                d => {
                                                    acc = (acc << d) | v;
                                                    nb += d as u32;
                                                    if nb == 8 { r.push(acc as u8); acc = 0; nb = 0; }
                                                }
                                            }
                                        }
                                    }
                                    if nb > 0 { r.push((acc << (8 - nb)) as u8); }
                                    r
                                })
                                .collect();
                            let bpp = (chans * depth as usize / 8).max(1);
                            let raw = png_rows(&rows, bpp, &|y| if filter < 5 { filter } else { (y % 5) as u8 });
                            let mut f = b"\x89PNG\r\n\x1a\n".to_vec();
                            let mut ihdr = vec![];
                            ihdr.extend(w.to_be_bytes());
                            ihdr.extend(h.to_be_bytes());
                            ihdr.extend([depth, ct, 0, 0, 0]);
                            chunk(&mut f, b"IHDR", &ihdr);
                            match extra {
                                "gama" => chunk(&mut f, b"gAMA", &100_000u32.to_be_bytes()),
                                "srgb" => chunk(&mut f, b"sRGB", &[0]),
                                "chrm" => chunk(&mut f, b"cHRM", &[31270u32, 32900, 64000, 33000, 30000, 60000, 15000, 6000].iter().flat_map(|v| v.to_be_bytes()).collect::<Vec<_>>()),
                                "sbit" => chunk(&mut f, b"sBIT", &vec![depth.min(8).max(1); if ct == 3 { 3 } else { chans }]),
                                "phys" => chunk(&mut f, b"pHYs", &[0, 0, 1, 0, 0, 0, 2, 0, 1]),
                                "text" => chunk(&mut f, b"tEXt", b"Comment\0made by hand"),
                                "time" => chunk(&mut f, b"tIME", &[7, 0xE9, 1, 2, 3, 4, 5]),
                                "private" => chunk(&mut f, b"prVt", &[1, 2, 3]),
                                "exif" => chunk(&mut f, b"eXIf", b"MM\0\x2a\0\0\0\x08\0\x01\x01\x12\0\x03\0\0\0\x01\0\x06\0\0\0\0\0\0"),
                                "iccp" => { let mut d = b"p\0\0".to_vec(); d.extend(zlib(&[0u8; 128])); chunk(&mut f, b"iCCP", &d) }
                                _ => {}
                            }
                            if ct == 3 {
                                chunk(&mut f, b"PLTE", &plte);
                            } else if ct == 2 && extra == "text" {
                                // a suggested palette
                                chunk(&mut f, b"PLTE", &[1, 2, 3, 200, 100, 50]);
                            }
                            if extra == "bkgd" {
                                let d: Vec<u8> = match ct { 3 => vec![0], 0 | 4 => vec![0, 1], _ => vec![0, 1, 0, 1, 0, 1] };
                                chunk(&mut f, b"bKGD", &d);
                            }
                            let z = zlib(&raw);
                            if split == 0 {
                                chunk(&mut f, b"IDAT", &z);
                            } else {
                                for p in z.chunks(split) {
                                    chunk(&mut f, b"IDAT", p);
                                    if split == 3 { chunk(&mut f, b"IDAT", &[]); }
                                }
                            }
                            if extra == "after" {
                                chunk(&mut f, b"tEXt", b"Comment\0afterwards");
                            }
                            chunk(&mut f, b"IEND", &[]);
                            if extra == "after" {
                                f.extend(b"trailing bytes");
                            }
                            let want = |x: u32, y: u32| -> [f64; 4] {
                                let s = |k| val(x, y, k);
                                match ct {
                                    0 => lin_px(&[s(0), s(0), s(0), max], max),
                                    2 => lin_px(&[s(0), s(1), s(2), max], max),
                                    4 => lin_px(&[s(0), s(0), s(0), s(1)], max),
                                    6 => lin_px(&[s(0), s(1), s(2), s(3)], max),
                                    _ => { let i = s(0) as usize * 3; lin_px(&[plte[i] as u32, plte[i + 1] as u32, plte[i + 2] as u32, 255], 255) }
                                }
                            };
                            let d = check_pixels(&f, w, h, &want, 2e-6).map_err(|e| format!("{}x{} split {} chunk {} short {}: {}", w, h, split, extra, short, e))?;
                            c.obs(true, &bits(&d));
                        }
                    }
                }
            }
            Ok(())
        });
    });
}

// ---- GIF --------------------------------------------------------------------------------------

/// LZW without compression: a clear code before the code size would grow.
pub fn lzw(min: u8, data: &[u8], block: usize) -> Vec<u8> {
    let clear = 1u32 << min;
    let size = min as u32 + 1;
    let (mut acc, mut n, mut bytes) = (0u64, 0u32, vec![]);
    let mut put = |code: u32| {
        acc |= (code as u64) << n;
        n += size;
        while n >= 8 { bytes.push(acc as u8); acc >>= 8; n -= 8; }
    };
    let every = (clear - 2).max(1) as usize;
    for (i, v) in data.iter().enumerate() {
        if i % every == 0 { put(clear); }
        put(*v as u32);
    }
    put(clear + 1);
    if n > 0 { bytes.push(acc as u8); }
    let mut out = vec![min];
    for b in bytes.chunks(block) {
        out.push(b.len() as u8);
        out.extend(b);
    }
    out.push(0);
    out
}

fn gif(ctx: &'static Ctx) {
    let pals: Vec<usize> = (1..=8).map(|k| 1usize << k).collect();
    let mut items: Vec<(usize, usize)> = vec![];
    for g in std::iter::once(0).chain(pals.iter().copied()) {
        for l in std::iter::once(0).chain(pals.iter().copied()) {
            if g + l > 0 { items.push((g, l)); }
        }
    }
    par(&items, |(g, l)| {
        let (g, l) = (*g, *l);
        ctx.case(&format!("foreign-gif/g{}l{}", g, l), |c| {
            let gpal: Vec<u8> = (0..g).flat_map(|i| [(i * 29 + 3) as u8, 255 - i as u8, (i * 7) as u8]).collect();
            let lpal: Vec<u8> = (0..l).flat_map(|i| [(i * 3) as u8, (i * 31 + 90) as u8, 255 - (i * 5) as u8]).collect();
            let pal = if l > 0 { &lpal } else { &gpal };
            let n = pal.len() / 3;
            let shapes: &[(u32, u32)] = if ctx.quick() { &[(1, 1), (5, 9), (20, 13)] } else { &[(1, 1), (1, 8), (5, 9), (16, 16), (20, 13), (300, 3)] };
            for (w, h) in shapes.iter().copied() {
                for inter in [false, true] {
                    for trans in [None, Some(0usize), Some(n - 1), Some(255)] {
                        for ext in ["none", "comment", "app", "gce", "plain", "after", "gif87", "bg", "dispose"] {
                            if ext == "gif87" && trans.is_some() || trans.is_some() && ext == "gce" { continue; }
                            for block in [255usize, 1, 100] {
                                if block != 255 && ext != "none" { continue; }
                                let idx = |x: u32, y: u32| ((x * 3 + y * 5 + x * y) as usize % n) as u8;
                                let mut f = if ext == "gif87" { b"GIF87a".to_vec() } else { b"GIF89a".to_vec() };
                                f.extend((w as u16).to_le_bytes());
                                f.extend((h as u16).to_le_bytes());
                                let bitsof = |n: usize| n.trailing_zeros() as u8 - 1;
                                f.push(if g > 0 { 0x80 | bitsof(g) | 0x70 } else { 0x70 });
                                f.push(if ext == "bg" && g > 1 { 1 } else { 0 });
                                f.push(if ext == "bg" { 49 } else { 0 });
                                f.extend(&gpal);
                                match ext {
                                    "comment" => f.extend(b"\x21\xFE\x05hello\x03abc\0"),
                                    "app" => f.extend(b"\x21\xFF\x0BNETSCAPE2.0\x03\x01\0\0\0"),
                                    "plain" => f.extend(b"\x21\x01\x0C\0\0\0\0\x01\0\x01\0\x01\x01\0\0\x02hi\0"),
                                    _ => {}
                                }
                                if trans.is_some() || ext == "gce" || ext == "dispose" {
                                    f.extend([0x21, 0xF9, 4, trans.is_some() as u8 | if ext == "dispose" { 2 << 2 } else { 0 }, 5, 0, trans.unwrap_or(0) as u8, 0]);
                                }
                                f.push(0x2C);
                                f.extend([0, 0, 0, 0]);
                                f.extend((w as u16).to_le_bytes());
                                f.extend((h as u16).to_le_bytes());
                                f.push(if l > 0 { 0x80 | bitsof(l) } else { 0 } | if inter { 0x40 } else { 0 });
                                f.extend(&lpal);
                                let rows: Vec<u32> = if inter { (0..h).step_by(8).chain((4..h).step_by(8)).chain((2..h).step_by(4)).chain((1..h).step_by(2)).collect() } else { (0..h).collect() };
                                let data: Vec<u8> = rows.iter().flat_map(|y| (0..w).map(move |x| (x, *y))).map(|(x, y)| idx(x, y)).collect();
                                f.extend(lzw((n.trailing_zeros() as u8).max(2), &data, block));
                                if ext == "after" { f.extend(b"\x21\xFE\x02ok\0"); }
                                f.push(0x3B);
                                let want = |x: u32, y: u32| {
                                    let i = idx(x, y) as usize;
                                    lin_px(&[pal[i * 3] as u32, pal[i * 3 + 1] as u32, pal[i * 3 + 2] as u32, if Some(i) == trans { 0 } else { 255 }], 255)
                                };
                                let d = check_pixels(&f, w, h, &want, 2e-6).map_err(|e| format!("{}x{} interlaced {} transparent {:?} {} block {}: {}", w, h, inter, trans, ext, block, e))?;
                                c.obs(true, &bits(&d));
                            }
                        }
                    }
                }
            }
            Ok(())
        });
    });
}

// ---- BMP --------------------------------------------------------------------------------------

fn lv(v: u32, bits: u32) -> u32 {
    let m = (1u32 << bits) - 1;
    ((v as f64 * 255.0 / m as f64).round()) as u32
}

fn bmp(ctx: &'static Ctx) {
    // header size, bits, compression, masks
    let mut items: Vec<(u32, u16, u32, Option<[u32; 4]>, &'static str)> = vec![];
    for bpp in [1u16, 4, 8, 24] {
        items.push((12, bpp, 0, None, "core"));
    }
    for hs in [40u32, 108, 124] {
        for bpp in [1u16, 4, 8, 16, 24, 32] {
            items.push((hs, bpp, 0, None, "rgb"));
        }
        items.push((hs, 16, 3, Some([0xF800, 0x07E0, 0x001F, 0]), "565"));
        items.push((hs, 16, 3, Some([0x7C00, 0x03E0, 0x001F, 0]), "555"));
        items.push((hs, 32, 3, Some([0xFF0000, 0xFF00, 0xFF, 0]), "xrgb"));
        items.push((hs, 32, 3, Some([0xFF, 0xFF00, 0xFF0000, 0]), "xbgr"));
        items.push((hs, 32, 3, Some([0xFF000000, 0xFF0000, 0xFF00, 0]), "rgbx"));
        if hs >= 108 {
            items.push((hs, 32, 3, Some([0xFF0000, 0xFF00, 0xFF, 0xFF000000]), "argb"));
            items.push((hs, 32, 3, Some([0xFF000000, 0xFF0000, 0xFF00, 0xFF]), "rgba"));
        }
        items.push((hs, 8, 1, None, "rle8"));
        items.push((hs, 4, 2, None, "rle4"));
    }
    par(&items, |(hs, bpp, comp, masks, name)| {
        let (hs, bpp, comp, masks, name) = (*hs, *bpp, *comp, *masks, *name);
        ctx.case(&format!("foreign-bmp/h{}b{}-{}", hs, bpp, name), |c| {
            for w in 1..=ctx.pick(9u32, 18) {
                for h in 1..=ctx.pick(3u32, 6) {
                    for top in [false, true] {
                        // top down images must not be compressed
                        if top && (hs == 12 || comp == 1 || comp == 2) { continue; }
                        for used in [0u32, 1] {
                            // used: fewer palette entries than the depth allows, extra space before the pixels
                            if used == 1 && (hs == 12 || bpp > 8 || bpp == 1) { continue; }
                            let n = if bpp > 8 { 0 } else if used == 1 { (1u32 << bpp) - 3 } else { 1 << bpp };
                            let pal: Vec<[u8; 3]> = (0..n).map(|i| [(i * 5 + 11) as u8, (255 - i) as u8, (i * 11 + 60) as u8]).collect();
                            let px = |x: u32, y: u32| (x * 7 + y * 29 + 1 + (x / 3) * 5) % n.max(1);
                            let chan = |x: u32, y: u32, k: u32, m: u32| (x * 31 + y * 67 + k * 101 + x * y * k + 5) % (m + 1);
                            let mut f = b"BM".to_vec();
                            let mut body: Vec<u8> = vec![];
                            let rows: Vec<u32> = if top { (0..h).collect() } else { (0..h).rev().collect() };
                            let width_of = |m: u32| m.count_ones();
                            for y in &rows {
                                let y = *y;
                                let mut line = vec![];
                                match (comp, bpp) {
                                    (1, _) | (2, _) => {
                                        // alternate encoded runs and absolute runs of at least three pixels
                                        let mut x = 0;
                                        let mut abs = y % 2 == 0;
                                        while x < w {
                                            let left = w - x;
                                            if abs && left >= 3 {
                                                let k = left.min(5);
                                                line.extend([0, k as u8]);
                                                let p: Vec<u8> = (x..x + k).map(|x| px(x, y) as u8).collect();
                                                let mut q = if comp == 1 { p } else { p.chunks(2).map(|c| c[0] << 4 | c.get(1).copied().unwrap_or(0)).collect() };
                                                if q.len() % 2 == 1 { q.push(0); }
                                                line.extend(q);
                                                x += k;
                                            } else {
                                                let v = px(x, y);
                                                let mut k = 1;
                                                while x + k < w && px(x + k, y) == v { k += 1; }
                                                if comp == 2 && k == 1 && left >= 2 {
                                                    // a run of two alternating colours
                                                    let v2 = px(x + 1, y);
                                                    line.extend([2, (v << 4 | v2) as u8]);
                                                    x += 2;
                                                } else {
                                                    line.extend([k as u8, if comp == 1 { v as u8 } else { (v << 4 | v) as u8 }]);
                                                    x += k;
                                                }
                                            }
                                            abs = !abs;
                                        }
                                        line.extend(if y == *rows.last().unwrap() { [0, 1] } else { [0, 0] });
                                        body.extend(line);
                                        continue;
                                    }
                                    (_, 16) | (_, 32) => {
                                        let m = masks.unwrap_or(if bpp == 16 { [0x7C00, 0x3E0, 0x1F, 0] } else { [0xFF0000, 0xFF00, 0xFF, 0] });
                                        for x in 0..w {
                                            let mut v = 0u32;
                                            for (k, m) in m.iter().enumerate() {
                                                if *m != 0 { v |= chan(x, y, k as u32, (1u32.wrapping_shl(width_of(*m))) - 1) << m.trailing_zeros(); }
                                            }
                                            if bpp == 16 { line.extend((v as u16).to_le_bytes()) } else { line.extend(v.to_le_bytes()) }
                                        }
                                    }
                                    (_, 24) => for x in 0..w { line.extend([chan(x, y, 2, 255) as u8, chan(x, y, 1, 255) as u8, chan(x, y, 0, 255) as u8]) },
                                    _ => {
                                        let (mut acc, mut nb) = (0u32, 0);
                                        for x in 0..w {
                                            acc = acc << bpp | px(x, y);
                                            nb += bpp;
                                            if nb == 8 { line.push(acc as u8); acc = 0; nb = 0; }
                                        }
                                        if nb > 0 { line.push((acc << (8 - nb)) as u8); }
                                    }
                                }
                                while line.len() % 4 != 0 { line.push(0); }
                                body.extend(line);
                            }
                            let mask_bytes = if hs == 40 && comp == 3 { 12 } else { 0 };
                            let entry = if hs == 12 { 3 } else { 4 };
                            let gap = if used == 1 { 6 } else { 0 };
                            let off = 14 + hs + mask_bytes + n * entry + gap;
                            f.extend((off + body.len() as u32).to_le_bytes());
                            f.extend([0; 4]);
                            f.extend(off.to_le_bytes());
                            f.extend(hs.to_le_bytes());
                            if hs == 12 {
                                f.extend((w as u16).to_le_bytes());
                                f.extend((h as u16).to_le_bytes());
                                f.extend(1u16.to_le_bytes());
                                f.extend(bpp.to_le_bytes());
                            } else {
                                f.extend(w.to_le_bytes());
                                f.extend((if top { -(h as i32) } else { h as i32 }).to_le_bytes());
                                f.extend(1u16.to_le_bytes());
                                f.extend(bpp.to_le_bytes());
                                f.extend(comp.to_le_bytes());
                                f.extend((body.len() as u32).to_le_bytes());
                                f.extend([0; 8]);
                                f.extend((if used == 1 { n } else { 0 }).to_le_bytes());
                                f.extend([0; 4]);
                                let start = f.len();
                                if let Some(m) = masks {
                                    let k = if hs == 40 { 3 } else { 4 };
                                    for v in &m[..k] { f.extend(v.to_le_bytes()); }
                                }
                                let total = if hs == 40 { start + mask_bytes as usize } else { start + hs as usize - 40 };
                                f.resize(total, 0);
                            }
                            for p in &pal {
                                f.extend([p[2], p[1], p[0]]);
                                if hs != 12 { f.push(0); }
                            }
                            f.resize(f.len() + gap as usize, 0);
                            f.extend(&body);
                            let want = |x: u32, y: u32| {
                                if bpp <= 8 {
                                    let p = pal[px(x, y) as usize];
                                    lin_px(&[p[0] as u32, p[1] as u32, p[2] as u32, 255], 255)
                                } else {
                                    let m = masks.unwrap_or(if bpp == 16 { [0x7C00, 0x3E0, 0x1F, 0] } else { [0xFF; 4] });
                                    let g = |k: usize| { let b = if bpp == 24 { 8 } else { width_of(m[k]) }; lv(chan(x, y, k as u32, (1 << b) - 1), b) };
                                    lin_px(&[g(0), g(1), g(2), if masks.is_some_and(|m| m[3] != 0) { g(3) } else { 255 }], 255)
                                }
                            };
                            let d = check_pixels(&f, w, h, &want, 2e-6).map_err(|e| format!("{}x{} top down {} short palette {}: {}", w, h, top, used, e))?;
                            c.obs(true, &bits(&d));
                        }
                    }
                }
            }
            Ok(())
        });
    });
}

// ---- ICO --------------------------------------------------------------------------------------

fn dib(w: u32, h: u32, bpp: u16, idx: &dyn Fn(u32, u32) -> u32, pal: &[[u8; 3]], rgba: &dyn Fn(u32, u32) -> [u8; 4], mask: Option<&dyn Fn(u32, u32) -> bool>) -> Vec<u8> {
    let mut f = vec![];
    f.extend(40u32.to_le_bytes());
    f.extend(w.to_le_bytes());
    f.extend((h * 2).to_le_bytes());
    f.extend(1u16.to_le_bytes());
    f.extend(bpp.to_le_bytes());
    f.extend([0u8; 24]);
    for p in pal { f.extend([p[2], p[1], p[0], 0]); }
    for y in (0..h).rev() {
        let mut line = vec![];
        let (mut acc, mut nb) = (0u32, 0);
        for x in 0..w {
            let p = rgba(x, y);
            match bpp {
                32 => line.extend([p[2], p[1], p[0], p[3]]),
                24 => line.extend([p[2], p[1], p[0]]),
                _ => {
                    acc = acc << bpp | idx(x, y);
                    nb += bpp;
                    if nb == 8 { line.push(acc as u8); acc = 0; nb = 0; }
                }
            }
        }
        if nb > 0 { line.push((acc << (8 - nb)) as u8); }
        while line.len() % 4 != 0 { line.push(0); }
        f.extend(line);
    }
    if let Some(m) = mask {
        for y in (0..h).rev() {
            let mut line = vec![0u8; w.div_ceil(8) as usize];
            for x in 0..w { if m(x, y) { line[(x / 8) as usize] |= 0x80 >> (x % 8); } }
            while line.len() % 4 != 0 { line.push(0); }
            f.extend(line);
        }
    }
    f
}

fn ico_file(entries: &[(u32, u32, u16, Vec<u8>)]) -> Vec<u8> {
    let mut f = vec![0, 0, 1, 0];
    f.extend((entries.len() as u16).to_le_bytes());
    let mut off = 6 + 16 * entries.len();
    for (w, h, bpp, d) in entries {
        f.extend([*w as u8, *h as u8, 0, 0, 1, 0]);
        f.extend(bpp.to_le_bytes());
        f.extend((d.len() as u32).to_le_bytes());
        f.extend((off as u32).to_le_bytes());
        off += d.len();
    }
    for e in entries { f.extend(&e.3); }
    f
}

fn ico(ctx: &'static Ctx) {
    let mut items = vec![];
    for bpp in [1u16, 4, 8, 24, 32] {
        for mask in [false, true] {
            for pos in 0..3usize {
                items.push((bpp, mask, pos));
            }
        }
    }
    par(&items, |(bpp, mask, pos)| {
        let (bpp, mask, pos) = (*bpp, *mask, *pos);
        ctx.case(&format!("foreign-ico/b{}{}p{}", bpp, if mask { "m" } else { "" }, pos), |c| {
            let shapes: &[(u32, u32)] = if ctx.quick() { &[(1, 1), (8, 8), (9, 3), (33, 5), (256, 2)] } else { &[(1, 1), (2, 7), (8, 8), (9, 3), (16, 16), (33, 5), (48, 48), (255, 2), (256, 2), (3, 256)] };
            for (w, h) in shapes.iter().copied() {
                let n = if bpp <= 8 { 1u32 << bpp } else { 0 };
                let pal: Vec<[u8; 3]> = (0..n).map(|i| [(i * 5 + 11) as u8, (255 - i) as u8, (i * 11 + 60) as u8]).collect();
                let idx = |x: u32, y: u32| (x * 7 + y * 29 + 1) % n.max(1);
                let rgba = |x: u32, y: u32| [(x * 31 + 5) as u8, (y * 67 + 9) as u8, (x * y * 3 + 100) as u8, (x * 17 + y * 41 + 3) as u8];
                let m = |x: u32, y: u32| (x * 3 + y * 5) % 4 == 1;
                let d = dib(w, h, bpp, &idx, &pal, &rgba, if mask { Some(&m) } else { None });
                // the wanted entry is the only one, or the largest of several of the same depth
                let small = dib(1, 1, bpp, &|_, _| 0, &pal, &|_, _| [1, 2, 3, 255], if mask { Some(&|_, _| false) } else { None });
                let mut entries = vec![(w, h, bpp, d)];
                if pos > 0 && w * h > 1 {
                    entries.push((1, 1, bpp, small.clone()));
                    if pos == 2 { entries.swap(0, 1); }
                }
                let f = ico_file(&entries);
                let want = |x: u32, y: u32| {
                    let (p, a) = if bpp <= 8 { (pal[idx(x, y) as usize], 255) } else { let p = rgba(x, y); ([p[0], p[1], p[2]], if bpp == 32 { p[3] } else { 255 }) };
                    // the mask says which pixels are invisible
                    let a = if mask && m(x, y) { 0 } else { a };
                    lin_px(&[p[0] as u32, p[1] as u32, p[2] as u32, a as u32], 255)
                };
                let d = check_pixels(&f, w, h, &want, 2e-6).map_err(|e| format!("{}x{}: {}", w, h, e))?;
                c.obs(true, &bits(&d));
            }
            Ok(())
        });
    });
}

// ---- JPEG and WebP ----------------------------------------------------------------------------

fn jpeg(ctx: &'static Ctx) {
    use jpeg_encoder::{ColorType as T, SamplingFactor as S};
    let mut items = vec![];
    for (name, t, n) in [("luma", T::Luma, 1usize), ("rgb", T::Rgb, 3), ("rgba", T::Rgba, 4), ("ycbcr", T::Ycbcr, 3), ("cmyk", T::Cmyk, 4), ("ycck", T::CmykAsYcck, 4)] {
        for s in [S::F_1_1, S::F_2_1, S::F_1_2, S::F_2_2, S::F_4_1, S::F_4_2, S::F_1_4, S::F_2_4] {
            for prog in [false, true] {
                items.push((name, t, n, s, prog));
            }
        }
    }
    par(&items, |(name, t, n, s, prog)| {
        let (name, t, n, s, prog) = (*name, *t, *n, *s, *prog);
        ctx.case(&format!("foreign-jpeg/{}-{:?}{}", name, s, if prog { "-prog" } else { "" }), |c| {
            for (w, h) in [(1u16, 1u16), (8, 8), (17, 9), (40, 33), (64, 5)] {
                for restart in [0u16, 1, 3] {
                    for seg in 0..4 {
                        if seg > 0 && restart > 0 { continue; }
                        let data: Vec<u8> = (0..w as usize * h as usize).flat_map(|i| { let (x, y) = (i % w as usize, i / w as usize); (0..n).map(move |k| (x * 5 + y * 3 + k * 60) as u8) }).collect();
                        let mut out = vec![];
                        let mut e = jpeg_encoder::Encoder::new(&mut out, 92);
                        e.set_progressive(prog);
                        e.set_sampling_factor(s);
                        if restart > 0 { e.set_restart_interval(restart); }
                        match seg {
                            1 => e.add_app_segment(1, b"Exif\0\0MM\0\x2a\0\0\0\x08\0\x01\x01\x12\0\x03\0\0\0\x01\0\x06\0\0\0\0\0\0").map_err(|e| e.to_string())?,
                            2 => e.add_app_segment(15, &[7; 300]).map_err(|e| e.to_string())?,
                            3 => e.add_icc_profile(&[0; 200]).map_err(|e| e.to_string())?,
                            _ => {}
                        }
                        if e.encode(&data, w, h, t).is_err() { c.obs(false, &"refused"); continue; }
                        let (_, _, _, raw) = match raw_jpeg(&out) { Ok(r) => r, Err(_) => { c.obs(false, &"library cannot read"); continue } };
                        let four = matches!(t, T::Cmyk | T::CmykAsYcck);
                        let want = |x: u32, y: u32| {
                            let p = raw[(x + y * w as u32) as usize];
                            if four {
                                let f = |k: usize| srgb_lin((255 - p[k]) as f64 * (255 - p[3]) as f64 / 65025.0);
                                [f(0), f(1), f(2), 1.0]
                            } else {
                                lin_px(&[p[0], p[1], p[2], 255], 255)
                            }
                        };
                        let d = check_pixels(&out, w as u32, h as u32, &want, 3e-6).map_err(|e| format!("{}x{} restart {} segment {}: {}", w, h, restart, seg, e))?;
                        // the reference stays close to the source for gray images
                        if matches!(t, T::Luma) {
                            for y in 0..h as u32 { for x in 0..w as u32 {
                                let s = data[(x + y * w as u32) as usize] as i32;
                                let g = raw[(x + y * w as u32) as usize][0] as i32;
                                if (s - g).abs() > 60 { return Err(format!("level {} is read as {}", s, g)); }
                            } }
                        }
                        c.obs(true, &bits(&d));
                    }
                }
            }
            Ok(())
        });
    });
}
fn srgb_lin(v: f64) -> f64 {
    if v <= 0.04045 { v / 12.92 } else { ((v + 0.055) / 1.055).powf(2.4) }
}

fn webp(ctx: &'static Ctx) {
    let mut items = vec![];
    for colors in [1u32, 2, 3, 4, 5, 16, 17, 256, 4096] {
        for alpha in 0..3 {
            for wrap in 0..4 {
                items.push((colors, alpha, wrap));
            }
        }
    }
    par(&items, |(colors, alpha, wrap)| {
        let (colors, alpha, wrap) = (*colors, *alpha, *wrap);
        ctx.case(&format!("foreign-webp/{}-{}-{}", colors, alpha, wrap), |c| {
            for (w, h) in [(1u32, 1u32), (5, 3), (16, 16), (33, 7), (64, 64)] {
                let px = |x: u32, y: u32| -> [u8; 4] {
                    let k = (x * 7 + y * 13 + x * y) % colors;
                    let a = match alpha { 0 => 255, 1 => if k % 2 == 0 { 255 } else { 1 }, _ => (k * 31 % 255 + 1) as u8 };
                    [(k * 5) as u8, (k * 77 + 9) as u8, (255 - k % 256) as u8, a]
                };
                let data: Vec<u8> = (0..h).flat_map(|y| (0..w).map(move |x| (x, y))).flat_map(|(x, y)| px(x, y)).collect();
                let mut f = unsafe {
                    let mut p = std::ptr::null_mut();
                    let n = libwebp_sys::WebPEncodeLosslessRGBA(data.as_ptr(), w as i32, h as i32, w as i32 * 4, &mut p);
                    if n == 0 { return Err("libwebp does not encode".into()); }
                    let v = std::slice::from_raw_parts(p, n as usize).to_vec();
                    libwebp_sys::WebPFree(p as *mut _);
                    v
                };
                if wrap > 0 {
                    // the extended container, with metadata before or after the image
                    let body = f[12..].to_vec();
                    let has_x = body.starts_with(b"VP8X");
                    if !has_x {
                        let mut b = b"VP8X".to_vec();
                        b.extend(10u32.to_le_bytes());
                        b.push(if alpha > 0 { 0x10 } else { 0 } | match wrap { 1 => 0x20, 2 => 0x08, _ => 0x04 });
                        b.extend([0; 3]);
                        b.extend(&(w - 1).to_le_bytes()[..3]);
                        b.extend(&(h - 1).to_le_bytes()[..3]);
                        if wrap == 1 { b.extend(b"ICCP\x06\0\0\0abcdef"); }
                        b.extend(&body);
                        if wrap == 2 { b.extend(b"EXIF\x05\0\0\0abcde\0"); }
                        if wrap == 3 { b.extend(b"XMP \x04\0\0\0<x/>"); }
                        f = b"RIFF".to_vec();
                        f.extend((b.len() as u32 + 4).to_le_bytes());
                        f.extend(b"WEBP");
                        f.extend(b);
                    }
                }
                let want = |x: u32, y: u32| { let p = px(x, y); lin_px(&[p[0] as u32, p[1] as u32, p[2] as u32, p[3] as u32], 255) };
                let d = check_pixels(&f, w, h, &want, 2e-6).map_err(|e| format!("{}x{}: {}", w, h, e))?;
                c.obs(true, &bits(&d));
            }
            Ok(())
        });
    });
}

pub fn run(ctx: &'static Ctx) {
    png(ctx);
    gif(ctx);
    bmp(ctx);
    ico(ctx);
    jpeg(ctx);
    webp(ctx);
}
