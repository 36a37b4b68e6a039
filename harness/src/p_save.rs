//! C01: a save that reports success has delivered the complete file; a save that cannot deliver it
//! reports an error. Fault enumeration over every write call / every byte of the output stream.
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use d10::{EncodingFormat as EF, Image, PixelBuffer, Rgb};
use std::io::{Error, ErrorKind, Write};

pub const RULE: &str = "A case is (format+options, image, fault plan). Fault plans: delivery in chunks of 1,2,3,7 bytes or with an Interrupted before every write; a sticky or one-off error (4 kinds, or Ok(0)) at every write call and at every byte offset of the stream; for files, RLIMIT_FSIZE (SIGXFSZ ignored) set to every byte length below the file's size. Non-trivial: the fault was actually reached; outcomes are hashed as (case, fault position, error kind).";
pub const ASSUME: &[&str] = &[
    "images up to 3x2 for the per-byte enumeration plus larger ones (so that 8 KiB and 32 KiB internal buffers overflow) for which the per-call enumeration is complete and byte offsets are enumerated around the buffer boundaries",
    "file system faults are modelled by RLIMIT_FSIZE (EFBIG), missing directories and directories in place of the file",
];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    Call(usize, ErrorKind, bool),
    Byte(usize, ErrorKind, bool),
    ZeroAtByte(usize),
}

struct W {
    out: Vec<u8>,
    calls: usize,
    chunk: usize,
    interrupts: bool,
    pending_int: bool,
    fault: Fault,
    hit: bool,
    fired: bool,
}

impl W {
    fn new(chunk: usize, interrupts: bool, fault: Fault) -> W {
        W { out: vec![], calls: 0, chunk, interrupts, pending_int: interrupts, fault, hit: false, fired: false }
    }
}

impl Write for W {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupts {
            if self.pending_int {
                self.pending_int = false;
                return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
            }
            self.pending_int = true;
        }
        let call = self.calls;
        self.calls += 1;
        let mut n = buf.len().min(self.chunk);
        match self.fault {
            Fault::None => {}
            Fault::Call(c, kind, sticky) => {
                if call == c || (sticky && call > c) {
                    self.hit = true;
                    return Err(Error::new(kind, "injected"));
                }
            }
            Fault::Byte(b, kind, sticky) => {
                if self.out.len() >= b && (sticky || !self.fired) {
                    self.hit = true;
                    self.fired = true;
                    return Err(Error::new(kind, "injected"));
                }
                if !self.fired {
                    n = n.min(b - self.out.len());
                }
            }
            Fault::ZeroAtByte(b) => {
                if self.out.len() >= b {
                    self.hit = true;
                    return Ok(0);
                }
                n = n.min(b - self.out.len());
            }
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn images() -> Vec<(&'static str, PixelBuffer<Rgb>)> {
    vec![("1x1", photo(1, 1)), ("3x2", photo(3, 2))]
}
fn big() -> PixelBuffer<Rgb> {
    photo(130, 90)
}

/// The complete stream: what an unconstrained writer receives.
fn full(img: &PixelBuffer<Rgb>, f: &EF) -> Result<(Vec<u8>, usize), String> {
    let mut w = W::new(usize::MAX, false, Fault::None);
    d10_codecs::encode(&mut w, img, f.clone()).map_err(|e| format!("encoding failed: {}", e))?;
    let r = d10_codecs::decode_buffer(&w.out).map_err(|e| format!("complete output is not decodable: {}", e))?;
    ensure!(
        r.buffer.width() == img.width() && r.buffer.height() == img.height(),
        "output decodes to {}x{}",
        r.buffer.width(),
        r.buffer.height()
    );
    Ok((w.out, w.calls))
}

const KINDS: [ErrorKind; 4] = [ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof];

fn faulty(c: &Case, img: &PixelBuffer<Rgb>, f: &EF, full: &[u8], fault: Fault) -> Res {
    faulty_api(c, img, f, full, fault, false)?;
    faulty_api(c, img, f, full, fault, true).map_err(|e| format!("save_to_writer: {}", e))
}

fn faulty_api(c: &Case, img: &PixelBuffer<Rgb>, f: &EF, full: &[u8], fault: Fault, api: bool) -> Res {
    let mut w = W::new(usize::MAX, false, fault);
    let r = if api { Image::new_from_buffer(img.clone()).save_to_writer(&mut w, f.clone()) } else { d10_codecs::encode(&mut w, img, f.clone()) };
    c.obs(w.hit, &(format!("{:?}", fault), r.is_err()));
    if !w.hit {
        ensure!(r.is_ok(), "{:?}: fault not reached but encode failed: {:?}", fault, r.err());
        ensure!(w.out == full, "{:?}: fault not reached but {} of {} bytes delivered", fault, w.out.len(), full.len());
        return Ok(());
    }
    let err = match r {
        Ok(()) => return Err(format!("{:?}: write failed but encode reported success; {} of {} bytes delivered", fault, w.out.len(), full.len())),
        Err(e) => e,
    };
    let sticky = matches!(fault, Fault::ZeroAtByte(_) | Fault::Call(_, _, true) | Fault::Byte(_, _, true));
    if sticky {
        ensure!(full.starts_with(&w.out), "{:?}: delivered bytes are not a prefix of the complete file", fault);
    }
    match err {
        d10::EncodingError::IoError(e) => {
            if let Fault::Call(_, k, _) | Fault::Byte(_, k, _) = fault {
                ensure!(e.kind() == k, "{:?}: reported as {:?}", fault, e.kind());
            }
        }
        e => return Err(format!("{:?}: not reported as an I/O error but as {:?}", fault, e)),
    }
    Ok(())
}

pub fn run(ctx: &'static Ctx) {
    let formats = ctx.pick(formats_small(), formats_all());
    par(&formats, |(name, f)| {
        for (iname, img) in images() {
            ctx.case(&format!("chunks/{}/{}", name, iname), |c| {
                let (full, calls) = full(&img, f)?;
                c.obs(true, &full);
                let mut again = vec![];
                d10_codecs::encode(&mut again, &img, f.clone()).map_err(|e| e.to_string())?;
                ensure!(again == full, "two encodings of one image differ");
                for chunk in [1, 2, 3, 7] {
                    for ints in [false, true] {
                        let mut w = W::new(chunk, ints, Fault::None);
                        let r = d10_codecs::encode(&mut w, &img, f.clone());
                        c.obs(true, &(chunk, ints, w.calls));
                        ensure!(r.is_ok(), "chunk {} interrupts {}: {:?}", chunk, ints, r.err());
                        ensure!(w.out == full, "chunk {} interrupts {}: {} of {} bytes", chunk, ints, w.out.len(), full.len());
                    }
                }
                let _ = calls;
                // the entry points agree
                let im = Image::new_from_buffer(img.clone());
                let b = im.save_to_buffer(f.clone()).map_err(|e| e.to_string())?;
                ensure!(b == full, "save_to_buffer differs from encode");
                let mut v = vec![];
                im.save_to_writer(&mut v, f.clone()).map_err(|e| e.to_string())?;
                ensure!(v == full, "save_to_writer differs from encode");
                Ok(())
            });
            ctx.case(&format!("calls/{}/{}", name, iname), |c| {
                let (full, calls) = full(&img, f)?;
                for i in 0..calls + 1 {
                    for k in KINDS {
                        for sticky in [true, false] {
                            faulty(c, &img, f, &full, Fault::Call(i, k, sticky))?;
                        }
                    }
                }
                Ok(())
            });
            ctx.case(&format!("bytes/{}/{}", name, iname), |c| {
                let (full, _) = full(&img, f)?;
                for b in 0..full.len() + 1 {
                    faulty(c, &img, f, &full, Fault::Byte(b, ErrorKind::Other, true))?;
                    faulty(c, &img, f, &full, Fault::ZeroAtByte(b))?;
                    faulty(c, &img, f, &full, Fault::Byte(b, ErrorKind::Other, false))?;
                }
                Ok(())
            });
            ctx.case(&format!("file/{}/{}", name, iname), |c| {
                let (full, _) = full(&img, f)?;
                let dir = format!("{}/f-{}-{}", scratch(), name.replace(':', "_"), iname);
                std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
                let im = Image::new_from_buffer(img.clone());
                let path = format!("{}/a.bin", dir);
                for pre in [None, Some(0usize), Some(1), Some(full.len()), Some(full.len() + 5000)] {
                    for api in 0..2 {
                        let _ = std::fs::remove_file(&path);
                        if let Some(n) = pre {
                            std::fs::write(&path, vec![0xAAu8; n]).unwrap();
                        }
                        let r = if api == 0 {
                            d10_codecs::encode_to_file(&path, &img, Some(f.clone()))
                        } else {
                            im.save_with_format(&path, f.clone())
                        };
                        ensure!(r.is_ok(), "save failed: {:?}", r.err());
                        let got = std::fs::read(&path).map_err(|e| e.to_string())?;
                        c.obs(true, &(pre, api));
                        ensure!(got == full, "file over {:?} old bytes has {} bytes, expected {}", pre, got.len(), full.len());
                    }
                }
                let r = im.save_with_format(format!("{}/missing/a.bin", dir), f.clone());
                c.obs(true, &1);
                ensure!(r.is_err(), "saving into a missing directory succeeded");
                let r = im.save_with_format(&dir, f.clone());
                c.obs(true, &2);
                ensure!(r.is_err(), "saving over a directory succeeded");
                std::fs::remove_dir_all(&dir).map_err(|e| e.to_string())?;
                Ok(())
            });
            fsize_case(ctx, name, iname);
        }
    });

    // default format from the extension
    for (ext, f) in [
        ("png", EF::png_default()), ("PNG", EF::png_default()), ("jpg", EF::jpeg_default()), ("jpeg", EF::jpeg_default()),
        ("JpEg", EF::jpeg_default()), ("gif", EF::gif_default()), ("GIF", EF::gif_default()), ("bmp", EF::bmp_default()),
        ("Bmp", EF::bmp_default()), ("ico", EF::ico_default()), ("ICO", EF::ico_default()), ("webp", EF::webp_default()), ("WebP", EF::webp_default()),
    ] {
        ctx.case(&format!("ext/{}", ext), |c| {
            let img = photo(3, 2);
            let path = format!("{}/x.{}", scratch(), ext);
            Image::new_from_buffer(img.clone()).save(&path).map_err(|e| e.to_string())?;
            let got = std::fs::read(&path).map_err(|e| e.to_string())?;
            let mut want = vec![];
            d10_codecs::encode(&mut want, &img, f.clone()).map_err(|e| e.to_string())?;
            c.obs(true, &got);
            ensure!(got == want, "save(x.{}) is not the default {:?} encoding", ext, f);
            Ok(())
        });
    }
    for bad in ["x", "x.", "x.txt", ".png", "x.pngx", "x.tiff", "png", "x.png ", "x.jp2", "x.web"] {
        ctx.case(&format!("badext/{}", bad), |c| {
            let path = format!("{}/{}", scratch(), bad);
            let r = Image::new_from_buffer(photo(3, 2)).save(&path);
            c.obs(true, &r.is_err());
            ensure!(matches!(r, Err(d10::EncodingError::BadFileExtension(_))), "save({:?}) gave {:?}", bad, r);
            ensure!(!std::path::Path::new(&path).exists(), "save({:?}) failed but left a file", bad);
            Ok(())
        });
    }
    // images the format cannot represent are refused, not truncated
    for (w, h) in [(65536u32, 1u32), (1, 65536), (65537, 1), (70000, 1), (131072, 1), (257, 1), (1, 257), (300, 300), (512, 1), (16384, 1), (1, 16384)] {
        for (name, f) in formats_small().into_iter().filter(|(n, _)| ["jpeg", "gif", "ico-rgba8", "webp-default", "webp-lossless", "png-rgba8", "bmp-rgba8", "jpeg-gray"].contains(&n.as_str())) {
            ctx.case(&format!("dims/{}/{}x{}", name, w, h), |c| {
                let img = buf(w, h, |x, y| px8(x as u8, y as u8, 7, 255));
                let mut out = vec![];
                let r = d10_codecs::encode(&mut out, &img, f.clone());
                c.obs(true, &(out.len(), r.is_ok()));
                if r.is_ok() {
                    // reported success: the container's own width/height fields must say so
                    let d = dims(&out).ok_or("unrecognisable output")?;
                    ensure!(d == (w, h), "success reported, but the file says {}x{}", d.0, d.1);
                } else {
                    ensure!(!matches!(f, EF::Png { .. } | EF::Bmp { .. }), "png/bmp refused: {:?}", r.err());
                }
                Ok(())
            });
        }
    }

    // larger images: buffers inside the encoders and the file layer overflow
    let formats = formats_small();
    par(&formats, |(name, f)| {
        ctx.case(&format!("big/{}", name), |c| {
            let img = big();
            let (full, calls) = full(&img, f)?;
            for chunk in [5000, 8192, 1] {
                let mut w = W::new(chunk, true, Fault::None);
                let r = d10_codecs::encode(&mut w, &img, f.clone());
                ensure!(r.is_ok() && w.out == full, "chunk {}: {} of {} bytes, {:?}", chunk, w.out.len(), full.len(), r.err());
                c.obs(true, &chunk);
            }
            let step = (calls / ctx.pick(40, 400)).max(1);
            let mut i = 0;
            while i < calls + 1 {
                faulty(c, &img, f, &full, Fault::Call(i, ErrorKind::Other, true))?;
                faulty(c, &img, f, &full, Fault::Call(i, ErrorKind::Other, false))?;
                i += if i < 20 || i + 20 > calls { 1 } else { step.min(calls.saturating_sub(i).max(1)) };
            }
            for b in boundary(full.len()) {
                faulty(c, &img, f, &full, Fault::Byte(b, ErrorKind::Other, true))?;
                faulty(c, &img, f, &full, Fault::ZeroAtByte(b))?;
            }
            Ok(())
        });
        fsize_case(ctx, name, "big");
    });
}

/// width, height as stored in the container
pub fn dims(b: &[u8]) -> Option<(u32, u32)> {
    let be = |i: usize| Some(u32::from_be_bytes(b.get(i..i + 4)?.try_into().ok()?));
    let le16 = |i: usize| Some(u16::from_le_bytes(b.get(i..i + 2)?.try_into().ok()?) as u32);
    let le = |i: usize| Some(i32::from_le_bytes(b.get(i..i + 4)?.try_into().ok()?).unsigned_abs());
    if b.starts_with(b"\x89PNG") {
        return Some((be(16)?, be(20)?));
    }
    if b.starts_with(b"GIF8") {
        return Some((le16(6)?, le16(8)?));
    }
    if b.starts_with(b"BM") {
        return Some((le(18)?, le(22)?));
    }
    if b.starts_with(&[0, 0, 1, 0]) {
        let f = |v: u8| if v == 0 { 256 } else { v as u32 };
        return Some((f(*b.get(6)?), f(*b.get(7)?)));
    }
    if b.starts_with(&[0xff, 0xd8]) {
        let mut i = 2;
        while i + 9 < b.len() {
            let m = b[i + 1];
            let len = u16::from_be_bytes([b[i + 2], b[i + 3]]) as usize;
            if [0xC0, 0xC1, 0xC2].contains(&m) {
                return Some((
                    u16::from_be_bytes([b[i + 7], b[i + 8]]) as u32,
                    u16::from_be_bytes([b[i + 5], b[i + 6]]) as u32,
                ));
            }
            i += 2 + len;
        }
        return None;
    }
    if b.starts_with(b"RIFF") {
        let d = d10_codecs::decode_buffer(b).ok()?;
        return Some((d.buffer.width(), d.buffer.height()));
    }
    None
}

fn boundary(len: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, 1, 2];
    for m in [1024, 4096, 8192, 16384, 24576, 32768, 40960] {
        for d in [-1i64, 0, 1] {
            v.push((m + d) as usize);
        }
    }
    for d in 1..=20 {
        v.push(len.saturating_sub(d));
    }
    v.retain(|b| *b < len);
    v.sort();
    v.dedup();
    v
}

fn fsize_case(ctx: &Ctx, name: &str, iname: &str) {
    ctx.case(&format!("fsize/{}/{}", name, iname), |c| {
        let dir = format!("{}/s-{}-{}", scratch(), name.replace(':', "_"), iname);
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let out = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["fsize-child", name, iname, &dir])
            .output()
            .map_err(|e| format!("harness: {}", e))?;
        let _ = std::fs::remove_dir_all(&dir);
        let txt = String::from_utf8_lossy(&out.stdout).into_owned();
        for l in txt.lines() {
            if let Some(n) = l.strip_prefix("done ") {
                for i in 0..n.parse::<u64>().unwrap_or(0) {
                    c.obs(true, &i);
                }
                return Ok(());
            }
            if let Some(m) = l.strip_prefix("bad ") {
                return Err(m.to_string());
            }
        }
        Err(format!("save under a file size limit died: {:?} {}", out.status, String::from_utf8_lossy(&out.stderr)))
    });
}

/// Child process: SIGXFSZ ignored, RLIMIT_FSIZE set to every length below the file's real one.
pub fn fsize_child(args: &[String]) -> i32 {
    let (name, iname, dir) = (&args[0], &args[1], &args[2]);
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
    let Some((_, f)) = formats_all().into_iter().chain(formats_small()).find(|(n, _)| n == name) else { return 2 };
    let img = if iname == "big" { big() } else { images().into_iter().find(|(n, _)| n == iname).unwrap().1 };
    let mut full = vec![];
    if let Err(e) = d10_codecs::encode(&mut full, &img, f.clone()) {
        println!("bad encoding failed: {}", e);
        return 0;
    }
    let im = Image::new_from_buffer(img.clone());
    let limits: Vec<usize> = if iname == "big" { boundary(full.len()) } else { (0..full.len()).collect() };
    let set = |n: u64| unsafe {
        let mut r: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut r);
        r.rlim_cur = n.min(r.rlim_max);
        libc::setrlimit(libc::RLIMIT_FSIZE, &r);
    };
    let path = format!("{}/o.{}", dir, ext_of(&f));
    let mut n = 0;
    for l in limits {
        let _ = std::fs::remove_file(&path);
        set(l as u64);
        let r = if l % 2 == 0 { im.save_with_format(&path, f.clone()) } else { d10_codecs::encode_to_file(&path, &img, Some(f.clone())) };
        set(u64::MAX);
        let got = std::fs::read(&path).unwrap_or_default();
        if r.is_ok() {
            println!("bad save to a file that cannot grow beyond {} of {} bytes reported success ({} bytes on disk)", l, full.len(), got.len());
            return 0;
        }
        if !full.starts_with(&got) {
            println!("bad file limited to {} bytes holds something else than a prefix of the image file", l);
            return 0;
        }
        n += 1;
    }
    println!("done {}", n);
    0
}
