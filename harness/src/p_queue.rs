//! C19: the command queue against an interpreter that performs the same steps through `Image`.
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use d10::{EncodingFormat, FilterMode, Image, Intensity, PixelBuffer, Rgb};
use d10_commands::{Cmd, CommandError, Queue};
use rand::script;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::error::Error;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

pub const RULE: &str = "All command sequences up to length 3 (quick) or 4 (thorough), one longer when they start by opening an image, over an alphabet of 27 commands (opening two images, a damaged one, a missing one, a file saved by the sequence; saving under three names, over the input, with an unknown extension, into a missing directory; silent; every operation), each followed by a save, executed by Queue::run in a scratch directory under a scripted random generator and by an interpreter over Image in a second directory: same result, same error, byte-identical directories (neighbouring files with similar names included). Plus every command over a parameter grid and every builder method against the command it stands for, and every queue run twice. One file under several names (through other directories, other letter case) in all sequences up to length 3 (4) after opening it; queues of up to 257 commands made of every ordered pair of ten steps. Non-trivial: a file was written or an error reported.";
pub const ASSUME: &[&str] = &["the operations themselves are decided by C08 to C18; here the queue has to select the operation, its argument and its target"];

#[derive(Clone, Copy, Debug)]
pub enum C {
    Silent,
    Open(&'static str),
    Save(&'static str),
    Gray(Intensity),
    Invert,
    Gamma(f32),
    Level(f32, f32, f32),
    Brightness(f32),
    Contrast(f32),
    BC(f32, f32),
    Sat(f32),
    Stretch(f32),
    Light(f32),
    Hue(f32),
    Rotate(f32, FilterMode),
    RandomNoise(f32),
    Salt(f32),
    RgbNoise(f32),
}
use C::*;

impl C {
    pub fn cmd(&self, dir: &Path) -> Cmd {
        match *self {
            Silent => Cmd::Silent,
            Open(p) => Cmd::Open(dir.join(p)),
            Save(p) => Cmd::Save(dir.join(p)),
            Gray(i) => Cmd::ToGray(i),
            Invert => Cmd::Invert,
            Gamma(v) => Cmd::Gamma(v),
            Level(black_point, white_point, gamma) => Cmd::Level { black_point, white_point, gamma },
            Brightness(v) => Cmd::Brightness(v),
            Contrast(v) => Cmd::Contrast(v),
            BC(brightness, contrast) => Cmd::BrightnessContrast { brightness, contrast },
            Sat(v) => Cmd::Saturation(v),
            Stretch(v) => Cmd::StretchSaturation(v),
            Light(v) => Cmd::Lightness(v),
            Hue(v) => Cmd::HueRotate(v),
            Rotate(radians, filter) => Cmd::Rotate { radians, filter },
            RandomNoise(v) => Cmd::RandomNoise(v),
            Salt(v) => Cmd::SaltNPepperNoise(v),
            RgbNoise(v) => Cmd::RgbNoise(v),
        }
    }
    /// the builder method, where there is one
    fn build(&self, q: Queue, dir: &Path) -> Option<Queue> {
        Some(match *self {
            Silent => q.silent(),
            Open(p) => q.open(dir.join(p)),
            Save(p) => q.save(dir.join(p)),
            Gray(i) => q.to_gray(i),
            Invert => q.invert(),
            Gamma(v) => q.gamma(v),
            Level(a, b, c) => q.level(a, b, c),
            Brightness(v) => q.brightness(v),
            Contrast(v) => q.contrast(v),
            BC(a, b) => q.brightness_contrast(a, b),
            Sat(v) => q.saturation(v),
            Stretch(v) => q.stretch_saturation(v),
            Light(v) => q.lightness(v),
            Hue(v) => q.hue_rotate(v),
            Rotate(a, f) => q.rotate(a, f),
            RandomNoise(_) | Salt(_) | RgbNoise(_) => return None,
        })
    }
}

/// How a run ended.
#[derive(Debug, PartialEq, Clone)]
pub enum End {
    Ok,
    Missing,
    Decoding(String),
    Encoding(String),
}

pub fn apply(c: &C, img: &Image) -> Image {
    match *c {
        Gray(i) => img.map_colors(|c| c.to_gray_with_intensity(i)),
        Invert => img.map_colors(|c| c.invert()),
        Gamma(v) => img.map_colors(|c| c.with_gamma(v)),
        Level(a, b, g) => img.map_colors(|c| c.with_level(a, b, g)),
        Brightness(v) => img.map_colors(|c| c.with_brightness(v)),
        Contrast(v) => img.map_colors(|c| c.with_contrast(v)),
        BC(a, b) => img.map_colors(|c| c.with_brightness_contrast(a, b)),
        Sat(v) => img.map_colors(|c| c.with_saturation(v)),
        Stretch(v) => img.map_colors(|c| c.stretch_saturation(v)),
        Light(v) => img.map_colors(|c| c.with_lightness(v)),
        Hue(v) => img.map_colors(|c| c.with_hue_rotate(v)),
        Rotate(a, f) => img.rotate(a, f),
        RandomNoise(v) => img.random_noise(v),
        Salt(v) => img.salt_n_pepper_noise(v),
        RgbNoise(v) => img.rgb_noise(v),
        Silent | Open(_) | Save(_) => unreachable!(),
    }
}

/// The specification: one current image, commands in order, the first failure ends the run.
pub fn interpret(cmds: &[C], dir: &Path) -> End {
    let mut img: Option<Image> = None;
    for c in cmds {
        match c {
            Silent => {}
            Open(p) => match Image::open(dir.join(p)) {
                Ok(i) => img = Some(i),
                Err(e) => return End::Decoding(e.to_string()),
            },
            Save(p) => match &img {
                None => return End::Missing,
                Some(i) => {
                    if let Err(e) = i.save(dir.join(p)) {
                        return End::Encoding(e.to_string());
                    }
                }
            },
            op => match &img {
                None => return End::Missing,
                Some(i) => img = Some(apply(op, i)),
            },
        }
    }
    End::Ok
}

pub type Files = BTreeMap<String, Vec<u8>>;

/// file names as text, bytes that are not UTF-8 as %XX
pub fn key(name: &OsStr) -> String {
    match name.to_str() {
        Some(s) => s.to_string(),
        None => name.as_bytes().iter().map(|b| if b.is_ascii() { char::from(*b).to_string() } else { format!("%{:02X}", b) }).collect(),
    }
}
fn name_of(key: &str) -> OsString {
    if !key.contains('%') {
        return key.into();
    }
    let b = key.as_bytes();
    let (mut out, mut i) = (vec![], 0);
    while i < b.len() {
        if b[i] == b'%' {
            out.push(u8::from_str_radix(&key[i + 1..i + 3], 16).expect("escape"));
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    OsString::from_vec(out)
}
pub fn read_dir(dir: &Path) -> Files {
    std::fs::read_dir(dir)
        .map(|d| d.flatten().map(|e| (key(&e.file_name()), if e.path().is_dir() { b"<dir>".to_vec() } else { std::fs::read(e.path()).unwrap_or_default() })).collect())
        .unwrap_or_default()
}
/// brings the directory to exactly these files
pub fn write_dir(dir: &Path, want: &Files) {
    let _ = std::fs::create_dir_all(dir);
    let have = read_dir(dir);
    for (n, b) in &have {
        if want.get(n) != Some(b) {
            let p = dir.join(name_of(n));
            if p.is_dir() {
                let _ = std::fs::remove_dir_all(&p);
            } else {
                let _ = std::fs::remove_file(&p);
            }
        }
    }
    for (n, b) in want {
        if have.get(n) != Some(b) {
            if b == b"<dir>" {
                std::fs::create_dir_all(dir.join(name_of(n))).expect("scratch dir");
            } else {
                std::fs::write(dir.join(name_of(n)), b).expect("scratch file");
            }
        }
    }
}

pub fn initial() -> Files {
    let a: PixelBuffer<Rgb> = photo(3, 2);
    let b: PixelBuffer<Rgb> = buf(2, 3, |x, y| px8((x * 90 + 20) as u8, (y * 70 + 30) as u8, (200 - x * 50 - y * 30) as u8, 255));
    let mut m = Files::new();
    let pa = Image::new_from_buffer(a).save_to_buffer(EncodingFormat::png_default()).unwrap();
    m.insert("bad.png".into(), pa[..pa.len() * 2 / 3].to_vec());
    m.insert("a.png".into(), pa);
    m.insert("b.bmp".into(), Image::new_from_buffer(b).save_to_buffer(EncodingFormat::bmp_default()).unwrap());
    m.insert("dir.png".into(), b"<dir>".to_vec());
    m.insert("old.unknown".into(), b"notes of the user".to_vec());
    // neighbours a save might mistake for its own temporary or left over files
    m.insert("empty.unknown".into(), vec![]);
    for n in ["out.png.tmp", "out.png~", "out.tmp", "s1.png.bak", ".s1.png.tmp", "s1.png.part", "tmp"] {
        m.insert(n.into(), n.as_bytes().to_vec());
    }
    m.insert("out.bak".into(), vec![]);
    m
}

/// strips the directory from an error text
fn norm(s: String, dir: &Path) -> String {
    s.replace(&dir.to_string_lossy().into_owned(), "DIR")
}

fn end_of(r: Result<(), CommandError>, dir: &Path) -> Result<End, String> {
    Ok(match r {
        Ok(()) => End::Ok,
        Err(e) => {
            let text = norm(e.to_string(), dir);
            let src = e.source().map(|s| norm(s.to_string(), dir));
            match e {
                CommandError::MissingImage => {
                    ensure!(text == "Missing image" && src.is_none(), "missing image reported as {:?} source {:?}", text, src);
                    End::Missing
                }
                CommandError::Decoding(_) => {
                    ensure!(src.as_deref() == Some(&text), "text {:?} but source {:?}", text, src);
                    End::Decoding(text)
                }
                CommandError::Encoding(_) => {
                    ensure!(src.as_deref() == Some(&text), "text {:?} but source {:?}", text, src);
                    End::Encoding(text)
                }
            }
        }
    })
}

thread_local! {
    static DIRS: RefCell<Option<(PathBuf, PathBuf)>> = const { RefCell::new(None) };
}
fn dirs() -> (PathBuf, PathBuf) {
    DIRS.with(|d| {
        d.borrow_mut()
            .get_or_insert_with(|| {
                static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
                let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                (PathBuf::from(format!("{}/q{}a", scratch(), n)), PathBuf::from(format!("{}/q{}b", scratch(), n)))
            })
            .clone()
    })
}

fn with_script<R>(f: impl FnOnce() -> R) -> R {
    script::set((0..16u64).map(|i| i.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(17)).collect());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    script::clear();
    match r {
        Ok(v) => v,
        Err(e) => std::panic::resume_unwind(e),
    }
}

fn diff(a: &Files, b: &Files) -> Res {
    for (n, d) in a {
        match b.get(n) {
            None => return Err(format!("file {} was written but should not exist", n)),
            Some(x) if x != d => return Err(format!("file {} differs from what the commands should store ({} and {} bytes)", n, d.len(), x.len())),
            _ => {}
        }
    }
    for n in b.keys() {
        ensure!(a.contains_key(n), "file {} is missing", n);
    }
    Ok(())
}

fn check_queue(c: &Case, init: &Files, cmds: &[C], mk: impl Fn(&Path) -> Queue, twice: bool) -> Res {
    let (da, db) = dirs();
    write_dir(&da, init);
    write_dir(&db, init);
    let q = mk(&da);
    ensure!(q.len() == cmds.len() && q.is_empty() == cmds.is_empty(), "len {} is_empty {} for {} commands", q.len(), q.is_empty(), cmds.len());
    let end = end_of(with_script(|| q.run()), &da)?;
    let want = match with_script(|| interpret(cmds, &db)) {
        End::Decoding(s) => End::Decoding(norm(s, &db)),
        End::Encoding(s) => End::Encoding(norm(s, &db)),
        e => e,
    };
    ensure!(end == want, "ended with {:?} instead of {:?}", end, want);
    let (fa, fb) = (read_dir(&da), read_dir(&db));
    diff(&fa, &fb)?;
    c.traces(1);
    c.transitions(cmds.len() as u64);
    c.obs(fa != *init || end != End::Ok, &(hash_of(&fa), format!("{:?}", end)));
    if twice {
        write_dir(&da, init);
        let again = end_of(with_script(|| q.run()), &da)?;
        ensure!(again == end, "the second run ended with {:?}, the first with {:?}", again, end);
        diff(&read_dir(&da), &fb).map_err(|e| format!("second run: {}", e))?;
    }
    Ok(())
}

pub const ALPHA: [C; 27] = [
    Open("a.png"),
    Open("b.bmp"),
    Open("bad.png"),
    Open("gone.png"),
    Open("s1.png"),
    Save("s1.png"),
    Save("s2.gif"),
    Save("a.png"),
    Save("x.unknown"),
    Save("nodir/x.png"),
    Silent,
    Gray(Intensity::Average),
    Invert,
    Gamma(0.5),
    Level(0.1, 0.8, 1.3),
    Brightness(0.3),
    Contrast(1.4),
    BC(0.1, 1.3),
    Sat(0.4),
    Stretch(0.3),
    Light(0.2),
    Hue(75.0),
    Rotate(1.0, FilterMode::Bilinear),
    Rotate(90.0, FilterMode::Nearest),
    RandomNoise(0.4),
    Salt(0.3),
    RgbNoise(0.5),
];

pub fn run(ctx: &'static Ctx) {
    mute_stdout();
    let init = initial();

    // all histories: one case per prefix of length depth-1
    let depth = ctx.pick(3, 4);
    let mut prefixes: Vec<Vec<usize>> = vec![];
    for n in 0..depth {
        prefixes.extend(sequences(ALPHA.len(), n));
    }
    // one deeper after an image was opened
    prefixes.extend(sequences(ALPHA.len(), depth - 1).flat_map(|s| (0..2).map(move |o| std::iter::once(o).chain(s.iter().copied()).collect())));
    par(&prefixes, |p| {
        let name = format!("seq/{}", p.iter().map(|i| i.to_string()).collect::<Vec<_>>().join("."));
        ctx.case(&name, |c| {
            let base: Vec<C> = p.iter().map(|i| ALPHA[*i]).collect();
            if p.len() >= depth - 1 {
                // the last command, then a save that shows the image
                for last in ALPHA {
                    let mut cmds = base.clone();
                    cmds.push(last);
                    cmds.push(Save("out.png"));
                    check_queue(c, &init, &cmds, |d| cmds.iter().fold(Queue::new(), |q, c| q.with(c.cmd(d))), false).map_err(|e| format!("{:?}: {}", cmds, e))?;
                }
                c.states(ALPHA.len() as u64);
            } else {
                // the sequence as it is, without any final save
                check_queue(c, &init, &base, |d| { let mut q = Queue::default(); for c in &base { q.push(c.cmd(d)); } q }, true).map_err(|e| format!("{:?}: {}", base, e))?;
                c.states(1);
            }
            Ok(())
        });
    });

    // one file under several names: what a sequence stores is what it later loads
    let al = [Open("a.png"), Open("dir.png/../a.png"), Open("s1.png"), Open("./s1.png"), Open("A.png"), Save("a.png"), Save("dir.png/../a.png"), Save("./s1.png"), Save("s1.png"), Save("dir.png/../dir.png/.././s1.png"), Save("A.png"), Invert, Brightness(0.3)];
    let seqs: Vec<Vec<usize>> = sequences(al.len(), ctx.pick(3, 4)).collect();
    let init0 = init.clone();
    par(&seqs, |s| {
        ctx.case(&format!("alias/{}", s.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(".")), |c| {
            for first in [0usize, 1] {
                let base: Vec<C> = std::iter::once(al[first]).chain(std::iter::once(Invert)).chain(s.iter().map(|i| al[*i])).collect();
                for last in [Open("a.png"), Open("dir.png/../s1.png"), Save("s2.bmp")] {
                    let mut cmds = base.clone();
                    cmds.extend([last, Save("out.png")]);
                    check_queue(c, &init0, &cmds, |d| cmds.iter().fold(Queue::new(), |q, c| q.with(c.cmd(d))), false).map_err(|e| format!("{:?}: {}", cmds, e))?;
                    c.states(1);
                }
            }
            Ok(())
        });
    });

    // long queues: two steps over and over, every length
    let pairs: Vec<(C, C)> = {
        let st = [Invert, Hue(75.0), Open("b.bmp"), Save("s1.png"), Open("s1.png"), Save("a.png"), Open("a.png"), Gamma(0.9), Rotate(90.0, FilterMode::Nearest), Silent];
        st.iter().flat_map(|a| st.iter().map(move |b| (*a, *b))).collect()
    };
    par(&pairs.iter().enumerate().collect::<Vec<_>>(), |(i, (a, b))| {
        ctx.case(&format!("long/{}", i), |c| {
            let lens: Vec<usize> = (1..=ctx.pick(20, 40)).chain([33, 64, 65, 130, 257]).collect();
            for n in lens {
                if n > 60 && matches!(a, Save(_) | Open(_)) && matches!(b, Save(_) | Open(_)) && ctx.quick() {
                    continue;
                }
                let mut cmds = vec![Open("a.png")];
                cmds.extend((0..n).map(|k| if k % 2 == 0 { *a } else { *b }));
                cmds.extend([Brightness(0.2), Save("out.png")]);
                check_queue(c, &init0, &cmds, |d| { let mut q = Queue::new(); for c in &cmds { q.push(c.cmd(d)); } q }, false).map_err(|e| format!("{} times {:?} {:?}: {}", n, a, b, e))?;
                c.states(1);
            }
            Ok(())
        });
    });

    // every command over its parameters
    let vals: Vec<f32> = ctx.pick(vec![-1.0, -0.25, 0.0, 0.3, 1.0, 1.7, 45.0, 200.0], vec![-400.0, -2.0, -1.0, -0.5, -0.25, 0.0, 0.1, 0.3, 0.5, 0.9, 1.0, 1.1, 1.7, 2.0, 3.0, 45.0, 90.0, 180.0, 200.0, 361.0]);
    let mut grid: Vec<C> = vec![Silent, Invert, Open("a.png"), Open("b.bmp"), Open("dir.png"), Open("bad.png"), Save("o.png"), Save("o.jpg"), Save("o.webp"), Save("o.ico"), Save("o.bmp"), Save("o.gif"), Save("o"), Save("o.PNG"), Save("dir.png"), Save("old.unknown"), Save("empty.unknown"), Save("out.bak"), Open("empty.unknown"), Save("b.bmp"), Save("bad.png"), Open("old.unknown"), Open("")];
    for i in [Intensity::Average, Intensity::Red, Intensity::Green, Intensity::Blue, Intensity::Rec601Luma, Intensity::Rec709Luma, Intensity::Brightness, Intensity::Lightness, Intensity::Saturation] {
        grid.push(Gray(i));
    }
    let singles: Vec<f32> = vals.iter().copied().chain([-720.0, -540.0, -360.0, -270.0, -180.0, -90.0, -30.0, -1.5, -0.001, 0.001, 0.5, 0.999, 1.001, 2.0, 60.0, 89.0, 90.0, 91.0, 120.0, 135.0, 179.0, 180.0, 181.0, 240.0, 269.0, 270.0, 300.0, 359.0, 360.0, 361.0, 450.0, 540.0, 720.0, 1e9]).collect();
    for &v in &singles {
        grid.extend([Gamma(v), Brightness(v), Contrast(v), Sat(v), Stretch(v), Light(v), Hue(v)]);
        for f in [FilterMode::Nearest, FilterMode::Bilinear, FilterMode::Bicubic, FilterMode::Lanczos3, FilterMode::Auto] {
            grid.push(Rotate(v, f));
        }
    }
    for v in (0..=20).map(|i| i as f32 / 20.0).chain([0.001, 0.999]) {
        grid.extend([RandomNoise(v), RgbNoise(v), Salt(v / 2.0)]);
    }
    for &v in &vals {
        for &w in &vals {
            grid.push(BC(v, w));
            for g in [0.6f32, 1.0, 1.8] {
                grid.push(Level(v, w, g));
            }
        }
    }
    let mut init = init;
    // transparent colours, grays and the extremes
    let t = [[1.0f32, 0.5, 0.0, 0.0], [0.4, 0.4, 0.4, 1.0], [0.6, 0.6, 0.6, 0.3], [0.0, 0.0, 0.0, 1.0], [1.0, 1.0, 1.0, 1.0], [0.0, 0.0, 0.0, 0.0], [1.0, 0.0, 1.0, 1.0], [0.2, 0.9, 0.35, 0.0], [0.9, 0.8, 0.1, 1.0], [0.5, 0.25, 0.75, 0.9]];
    init.insert("t.png".into(), Image::new_from_buffer(buf(5, 4, |x, y| Rgb { data: t[((x * 3 + y * 7) % 10) as usize] })).save_to_buffer(EncodingFormat::png_default()).unwrap());
    // every ordered pair of steps with opposite and equal parameters, put into the queue in each way
    let mut steps: Vec<C> = vec![Invert, Level(0.1, 0.8, 1.3), Level(0.3, 1.0, 0.7), BC(0.3, 0.5), BC(-0.4, 1.6), Silent];
    steps.extend([Intensity::Average, Intensity::Red, Intensity::Green, Intensity::Blue, Intensity::Rec709Luma, Intensity::Lightness, Intensity::Saturation].map(Gray));
    steps.extend([0.4f32, -0.45, 0.9].map(Brightness));
    steps.extend([0.6f32, -0.5].map(Contrast));
    for v in [0.4f32, 2.5] {
        steps.extend([Gamma(v), Sat(v), Light(v), Stretch(v)]);
    }
    steps.extend([Sat(0.0), Light(0.0)]);
    steps.extend([90.0f32, -90.0, 200.0].map(Hue));
    steps.extend([(90.0f32, FilterMode::Nearest), (-90.0, FilterMode::Nearest), (30.0, FilterMode::Bilinear), (180.0, FilterMode::Auto)].map(|(a, f)| Rotate(a, f)));
    steps.extend([RandomNoise(0.3), Salt(0.2), RgbNoise(0.6)]);
    par(&steps, |a| {
        ctx.case(&format!("opposite/{:?}", a), |c| {
            for b in &steps {
                for input in ["a.png", "t.png"] {
                    let cmds = [Open(input), *a, *b, Save("out.png")];
                    check_queue(c, &init, &cmds, |d| { let mut q = Queue::new(); for c in &cmds { q.push(c.cmd(d)); } q }, false).map_err(|e| format!("{:?} pushed: {}", b, e))?;
                    check_queue(c, &init, &cmds, |d| cmds.iter().fold(Queue::new(), |q, c| q.with(c.cmd(d))), false).map_err(|e| format!("{:?} with: {}", b, e))?;
                    if cmds.iter().all(|c| matches!(c, Silent) || c.build(Queue::new(), Path::new("/x")).is_some()) {
                        check_queue(c, &init, &cmds, |d| cmds.iter().fold(Queue::new(), |q, c| c.build(q, d).unwrap()), false).map_err(|e| format!("{:?} built: {}", b, e))?;
                    }
                    c.states(1);
                }
            }
            Ok(())
        });
    });
    par(&grid, |g| {
        ctx.case(&format!("param/{:?}", g), |c| {
            for input in ["a.png", "b.bmp", "t.png"] {
                let cmds = [Open(input), *g, Save("out.png"), Save("out2.bmp")];
                check_queue(c, &init, &cmds, |d| cmds.iter().fold(Queue::new(), |q, c| q.with(c.cmd(d))), true)?;
                if matches!(g, Silent) || g.build(Queue::new(), Path::new("/x")).is_some() {
                    // builder methods
                    check_queue(c, &init, &cmds, |d| cmds.iter().fold(Queue::new(), |q, c| c.build(q, d).unwrap()), false).map_err(|e| format!("built: {}", e))?;
                }
                check_queue(c, &init, &[*g], |d| Queue::new().with(g.cmd(d)), false).map_err(|e| format!("alone: {}", e))?;
                // no image yet
                let cmds = [*g, Save("out.png")];
                check_queue(c, &init, &cmds, |d| cmds.iter().fold(Queue::new(), |q, c| q.with(c.cmd(d))), false).map_err(|e| format!("without image: {}", e))?;
            }
            Ok(())
        });
    });
    unmute_stdout();
}
