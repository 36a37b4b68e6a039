//! C20: the command line tool (the real binary) against an interpreter of its argument grammar.
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::p_queue::{apply, read_dir, write_dir, Files, C};
use d10::{EncodingFormat, FilterMode, Image, Intensity, PixelBuffer, Rgb};
use std::cell::RefCell;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub const RULE: &str = "The d10 binary is executed in a scratch directory with all argument lists up to length 3 (quick) or 4 (thorough), one longer when they start with a readable image, over an alphabet of plain names (readable, damaged, missing, not UTF-8, empty), every kind of option, well-formed and malformed parameters; and with every option times every parameter text of a list of numbers, non-numbers, lists of wrong length and option names. An interpreter of the grammar predicts exit code, standard error, the number of log lines and the byte-exact directory afterwards. Numbers in 39 spellings and lists in every order on an image with all 256 levels. Every prefix, edit, transposition, case change and concatenation of every option name must be rejected or taken like the interpreter does. Non-trivial: a file was written or an error reported.";
pub const ASSUME: &[&str] = &["numbers are what f32::from_str accepts", "noise options with a strength other than 0 are compared by the kind of their outcome, because the generator of the binary is not scripted"];

enum Step {
    Silent,
    Open(OsString),
    Save(OsString),
    Op(C),
}

/// The grammar. Err: the text that has to be named in the message.
fn parse(args: &[OsString]) -> Result<Vec<Step>, String> {
    let mut out = vec![];
    let mut i = 0;
    while i < args.len() {
        let a = &args[i];
        i += 1;
        let b = a.as_bytes();
        if b.first() != Some(&b'-') {
            out.push(if out.iter().all(|s| matches!(s, Step::Silent)) { Step::Open(a.clone()) } else { Step::Save(a.clone()) });
            continue;
        }
        let name = a.to_string_lossy()[1..].to_string();
        let numbers = |i: &mut usize, n: usize| -> Result<Vec<f32>, String> {
            let p = args.get(*i).ok_or(name.clone())?.to_string_lossy().into_owned();
            *i += 1;
            let parts: Vec<&str> = if n == 1 { vec![&p] } else { p.split(',').collect() };
            if parts.len() != n {
                return Err(p.clone());
            }
            parts.iter().map(|s| s.parse::<f32>().map_err(|_| p.clone())).collect()
        };
        out.push(match name.as_str() {
            "silent" => Step::Silent,
            "invert" => Step::Op(C::Invert),
            "open" | "save" => {
                let p = args.get(i).ok_or(name.clone())?.clone();
                i += 1;
                if name == "open" { Step::Open(p) } else { Step::Save(p) }
            }
            "grayscale" => {
                let p = args.get(i).ok_or(name.clone())?.to_string_lossy().into_owned();
                i += 1;
                Step::Op(C::Gray(match p.as_str() {
                    "average" => Intensity::Average,
                    "rec601luma" => Intensity::Rec601Luma,
                    "rec709luma" | "default" => Intensity::Rec709Luma,
                    "brightness" => Intensity::Brightness,
                    "lightness" => Intensity::Lightness,
                    "saturation" => Intensity::Saturation,
                    "red" => Intensity::Red,
                    "green" => Intensity::Green,
                    "blue" => Intensity::Blue,
                    _ => return Err(p),
                }))
            }
            "level" => {
                let v = numbers(&mut i, 3)?;
                Step::Op(C::Level(v[0], v[1], v[2]))
            }
            "brightness-contrast" => {
                let v = numbers(&mut i, 2)?;
                Step::Op(C::BC(v[0], v[1]))
            }
            n => {
                let f: fn(f32) -> C = match n {
                    "gamma" => C::Gamma,
                    "brightness" => C::Brightness,
                    "contrast" => C::Contrast,
                    "saturation" => C::Sat,
                    "stretch-saturation" => C::Stretch,
                    "lightness" => C::Light,
                    "hue-rotate" => C::Hue,
                    "rotate" => |v| C::Rotate(v, FilterMode::Bilinear),
                    "random-noise" => C::RandomNoise,
                    "salt-n-pepper-noise" => C::Salt,
                    "rgb-noise" => C::RgbNoise,
                    _ => return Err(a.to_string_lossy().into_owned()),
                };
                Step::Op(f(numbers(&mut i, 1)?[0]))
            }
        });
    }
    Ok(out)
}

struct Out {
    code: Option<i32>,
    stdout: String,
    stderr: String,
}

fn spawn(dir: &Path, args: &[OsString]) -> Out {
    let exe = std::env::var_os("D10_CLI").expect("D10_CLI");
    let o = Command::new(exe).args(args).current_dir(dir).stdin(Stdio::null()).env_remove("RUST_BACKTRACE").output().expect("cannot run the tool");
    Out { code: o.status.code(), stdout: String::from_utf8_lossy(&o.stdout).into_owned(), stderr: String::from_utf8_lossy(&o.stderr).into_owned() }
}

thread_local! {
    static DIRS: RefCell<Option<(PathBuf, PathBuf)>> = const { RefCell::new(None) };
}
fn dirs() -> (PathBuf, PathBuf) {
    DIRS.with(|d| {
        d.borrow_mut()
            .get_or_insert_with(|| {
                static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
                let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                (PathBuf::from(format!("{}/c{}a", scratch(), n)), PathBuf::from(format!("{}/c{}b", scratch(), n)))
            })
            .clone()
    })
}

pub fn init() -> Files {
    let mut m = crate::p_queue::initial();
    m.remove("dir.png");
    // the file whose name is not UTF-8 shows another image
    m.insert(crate::p_queue::key(OsStr::from_bytes(ODD)), Image::new_from_buffer(buf(2, 2, |x, y| px8((x * 50 + 20) as u8, (y * 90 + 3) as u8, 77, 255))).save_to_buffer(EncodingFormat::png_default()).unwrap());
    m
}
const ODD: &[u8] = b"\xffodd.png";

/// relative path inside `dir`
fn at(dir: &Path, p: &OsStr) -> PathBuf {
    if p.is_empty() { PathBuf::new() } else { dir.join(p) }
}

fn check(c: &Case, init: &Files, args: &[OsString]) -> Res {
    let (da, db) = dirs();
    for d in [&da, &db] {
        write_dir(d, init);
    }
    let before = read_dir(&da);
    let o = spawn(&da, args);
    let show = || format!("exit {:?} stdout {:?} stderr {:?}", o.code, o.stdout, o.stderr);
    let after = read_dir(&da);
    c.traces(1);
    c.transitions(args.len() as u64);
    match if args.is_empty() { Err("Missing arguments".to_string()) } else { parse(args) } {
        Err(named) => {
            ensure!(o.code == Some(1), "a bad argument list has to exit with 1: {}", show());
            ensure!(o.stdout.is_empty(), "something was executed before the bad argument list was reported: {}", show());
            ensure!(o.stderr.contains(&named), "the message does not name {:?}: {}", named, show());
            ensure!(after == before, "files changed although the argument list is bad: {}", show());
            c.obs(true, &(1, o.stderr.clone()));
        }
        Ok(steps) => {
            // reference
            let mut img: Option<Image> = None;
            let mut err: Option<String> = None;
            let total = steps.iter().filter(|s| !matches!(s, Step::Silent)).count();
            let mut lines = vec![];
            let (mut n, mut silent) = (0, false);
            for s in &steps {
                if !matches!(s, Step::Silent) {
                    n += 1;
                    if !silent {
                        lines.push(format!("{}/{}: ", n, total));
                    }
                }
                let r = match s {
                    Step::Silent => {
                        silent = true;
                        Ok(())
                    }
                    Step::Open(p) => Image::open(at(&db, p)).map(|i| img = Some(i)).map_err(|e| e.to_string()),
                    Step::Save(p) => match &img {
                        None => Err("Missing image".into()),
                        Some(i) => i.save(at(&db, p)).map_err(|e| e.to_string()),
                    },
                    Step::Op(op) => match &img {
                        None => Err("Missing image".into()),
                        Some(i) => {
                            img = Some(apply(op, i));
                            Ok(())
                        }
                    },
                };
                if let Err(e) = r {
                    err = Some(e.replace(&format!("{}/", db.to_string_lossy()), ""));
                    break;
                }
            }
            match &err {
                None => ensure!(o.code == Some(0) && o.stderr.is_empty(), "should succeed: {}", show()),
                Some(e) => ensure!(o.code == Some(1) && o.stderr.trim_end() == e.trim_end(), "should fail with {:?}: {}", e, show()),
            }
            let got: Vec<&str> = o.stdout.lines().collect();
            ensure!(got.len() == lines.len() && got.iter().zip(&lines).all(|(g, l)| g.starts_with(l.as_str())), "log should be {:?}: {}", lines, show());
            let want = read_dir(&db);
            for k in after.keys().chain(want.keys()) {
                ensure!(after.get(k) == want.get(k), "file {:?} is {:?} instead of {:?} (sizes): {}", k, after.get(k).map(|d| d.len()), want.get(k).map(|d| d.len()), show());
            }
            c.obs(after != before || err.is_some(), &(hash_of(&after), err));
        }
    }
    Ok(())
}

const ALPHA: [&str; 25] = [
    "a.png", "b.bmp", "o1.png", "o2.bmp", "gone.png", "bad.png", "x.unknown", "", "-", "-nope", "-silent", "-open", "-save", "-invert", "-grayscale", "average", "-gamma", "0.5", "-level", "0.1,0.8,1.3",
    "-brightness-contrast", "0.1,1.3", "-rotate", "\u{fffd}ODD", "-saturation",
];
fn tok(s: &str) -> OsString {
    match s {
        "\u{fffd}ODD" => OsString::from_vec(ODD.to_vec()),
        "\u{fffd}NEW" => OsString::from_vec(b"n\xfe\xc3(.png".to_vec()),
        "\u{fffd}NEW2" => OsString::from_vec(b"\xe2\x82.bmp".to_vec()),
        _ => s.into(),
    }
}

fn noise_kind(c: &Case, opt: &str, v: &str) -> Res {
    let (da, _) = dirs();
    let mut init = Files::new();
    let src: PixelBuffer<Rgb> = buf(8, 8, |x, y| px8(40 + (x * 9) as u8, 60 + (y * 11) as u8, 90 + ((x + y) * 5) as u8, 255));
    let img = Image::new_from_buffer(src);
    init.insert("in.png".into(), img.save_to_buffer(EncodingFormat::png_default()).unwrap());
    write_dir(&da, &init);
    let args: Vec<OsString> = ["in.png", opt, v, "out.png"].iter().map(|s| s.into()).collect();
    let o = spawn(&da, &args);
    ensure!(o.code == Some(0), "exit {:?} {:?}", o.code, o.stderr);
    let out = Image::open(da.join("out.png")).map_err(|e| e.to_string())?;
    ensure!(out.width() == 8 && out.height() == 8, "size");
    // only outcomes that hold whatever the generator delivers are compared
    let s: f32 = v.parse().unwrap();
    let (mut bw, mut one, mut changed, mut inside) = (0, 0, 0, 0);
    for (a, b) in Image::open(da.join("in.png")).unwrap().data().iter().zip(out.data()) {
        let ones = (0..3).filter(|i| b.data[*i] > 0.999).count();
        let kept = (0..3).filter(|i| (a.data[*i] - b.data[*i]).abs() < 0.01).count();
        bw += (*b == Rgb::BLACK || *b == Rgb::WHITE) as usize;
        one += (ones == 1 && kept == 2) as usize;
        changed += (kept < 3) as usize;
        inside += (0..3).all(|i| b.data[i] <= a.data[i] * (1.0 - s) + s + 0.01) as usize;
    }
    let ok = match opt {
        "-salt-n-pepper-noise" => bw >= 60,
        "-rgb-noise" => one >= 60,
        _ => changed > 0 && inside == 64,
    };
    ensure!(ok, "{} {}: of 64 pixels {} are black or white, {} have one channel at full intensity, {} changed, {} are mixed at most by the intensity", opt, v, bw, one, changed, inside);
    c.obs(true, &opt);
    Ok(())
}

pub fn run(ctx: &'static Ctx) {
    let init = init();
    let depth = ctx.pick(3, 4);
    let mut prefixes: Vec<Vec<usize>> = vec![];
    for n in 0..depth {
        prefixes.extend(sequences(ALPHA.len(), n));
    }
    prefixes.extend(sequences(ALPHA.len(), depth - 1).map(|s| std::iter::once(0).chain(s).collect()));
    // the deepest level of the general search only needs lists that are not already decided by their
    // first two arguments: a list whose first argument is an unknown option is bad whatever follows
    par(&prefixes, |p| {
        if p.len() >= 2 && p[..p.len() - 1].contains(&9) {
            return;
        }
        ctx.case(&format!("args/{}", p.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(".")), |c| {
            let base: Vec<OsString> = p.iter().map(|i| tok(ALPHA[*i])).collect();
            check(c, &init, &base).map_err(|e| format!("{:?}: {}", base, e))?;
            c.states(1);
            if p.len() >= depth - 1 {
                for last in ALPHA {
                    let mut args = base.clone();
                    args.push(tok(last));
                    check(c, &init, &args).map_err(|e| format!("{:?}: {}", args, e))?;
                    c.states(1);
                }
            }
            Ok(())
        });
    });

    // every option times every parameter text
    let texts: Vec<&str> = vec![
        "0", "1", "0.5", "-0.5", "+1.2", "1e-1", ".5", "2.", "45", "-90", "inf", "NaN", "", " 1", "1 ", "1,2", "1,2,3", "0.1,0.9", "0.1,0.9,1.1", "-0.2,1.2", "0,1,0.4", "0.1,0.9,", ",,", "a", "0x1", "1f", "a,b", "a,1", "1,a", "a,b,c", "a,1,1", "1,a,1", "1,1,a", "1,2,3,4",
        "average", "rec601luma", "rec709luma", "default", "brightness", "lightness", "saturation", "red", "green", "blue", "Red", "-invert", "o1.png",
        "--1", "-", "+", "++1", "+-1", "-+1", "1,--2", "--1,2", "1,+2", "-1,-2", "-1,--1,2", "1,--2,1", "1,1,--2", "-1,-2,-3", "1, 2", "1 ,2", " 1,2", "1,2 ", "1, 2,3", "1,2, 3", "1.,.2", "infinity", "-inf", "+NaN", "nan", "1,inf", "1e400", "1e", "1E2", "1_0", "1.0.0", "1;2", "1,,2", ",1", "1,", "1,2,,", "0,0,0", "\u{663}", "\u{ff11}", "1\u{a0}", "\u{fffd}ODD", "old.unknown", "RED", "Average", "average ", "rec601", "rec709", "luma", "grey", "",
    ];
    let opts = ["-silent", "-open", "-save", "-grayscale", "-invert", "-gamma", "-level", "-brightness", "-contrast", "-brightness-contrast", "-saturation", "-stretch-saturation", "-lightness", "-hue-rotate", "-rotate", "-random-noise", "-salt-n-pepper-noise", "-rgb-noise", "--invert", "-Invert", "-inver", "-invertx", "-rot", "--", "-gray", "-flip", "-help", "invert"];
    let mut jobs = vec![];
    for o in opts {
        for t in &texts {
            jobs.push((o, *t));
        }
    }
    par(&jobs, |(o, t)| {
        // strengths other than 0 are random
        if o.ends_with("-noise") && t.parse::<f32>().map(|v| v != 0.0).unwrap_or(false) {
            return;
        }
        ctx.case(&format!("param/{}/{}", o, t), |c| {
            for tail in [&["out.png"][..], &["out.png", "-invert", "out2.png"][..], &["\u{fffd}NEW", "-save", "\u{fffd}NEW2"][..], &[][..]] {
                for head in [&["a.png"][..], &["-open", "b.bmp"][..], &["-silent"][..], &[][..]] {
                    let mut args: Vec<OsString> = head.iter().map(|s| s.into()).collect();
                    args.push(o.into());
                    args.push(tok(t));
                    args.extend(tail.iter().map(|t| tok(t)));
                    check(c, &init, &args).map_err(|e| format!("{:?}: {}", args, e))?;
                }
            }
            Ok(())
        });
    });
    // numbers in every spelling, on an image that shows small differences; the order of their lists
    let mut init2 = init.clone();
    let ramp: PixelBuffer<Rgb> = buf(32, 16, |x, y| { let i = (x + y * 32) as u32; if i < 256 { px8(i as u8, i as u8, i as u8, 255) } else { px8((i * 7 % 256) as u8, (i * 13 % 256) as u8, (i * 29 % 251) as u8, 255) } });
    init2.insert("r.png".into(), Image::new_from_buffer(ramp).save_to_buffer(EncodingFormat::png_default()).unwrap());
    let spell = [
        "1.2344e0", "12344e-4", "0.12344E+1", "+1.2344", "001.2344", "1.23440000", "1.2344", "0.4567", "4.567e-1", "45.67E-2", ".4567", "-0.3456", "-3.456e-1", "-.3456", "-3456e-4", "123.4567", "1.234567e2", "1234567e-4", "0.0625", "6.25e-2", "0.000625", "1.7e0", "17e-1", "1.e0", "1.e-1", "2e0", "2E00", "+0.7654321", "0.76543210987654321", "-0", "-0.0", "1e-3", "1e3", "1e10", "-1e10", "1e-40", "359.25", "-721.5", "33.3333",
    ];
    let mut jobs: Vec<(&str, String)> = vec![];
    for o in ["-gamma", "-brightness", "-contrast", "-saturation", "-stretch-saturation", "-lightness", "-hue-rotate", "-rotate"] {
        jobs.extend(spell.iter().map(|s| (o, s.to_string())));
    }
    let pts = ["-0.5", "0", "0.25", "6e-1", "1", "1.5"];
    for a in pts {
        for b in pts {
            jobs.push(("-brightness-contrast", format!("{},{}", a, b)));
            for c in pts {
                jobs.push(("-level", format!("{},{},{}", a, b, c)));
            }
        }
    }
    for a in spell {
        jobs.push(("-brightness-contrast", format!("0.1,{}", a)));
        jobs.push(("-brightness-contrast", format!("{},0.9", a)));
        jobs.push(("-level", format!("{},0.9,1.1", a)));
        jobs.push(("-level", format!("0.1,{},1.1", a)));
        jobs.push(("-level", format!("0.1,0.9,{}", a)));
    }
    par(&jobs, |(o, t)| {
        ctx.case(&format!("number/{}/{}", o, t), |c| {
            for tail in [&["out.png"][..], &["out.png", "-invert", "b.bmp"][..]] {
                let mut args: Vec<OsString> = vec!["r.png".into(), o.into(), t.into()];
                args.extend(tail.iter().map(|t| tok(t)));
                check(c, &init2, &args).map_err(|e| format!("{:?}: {}", args, e))?;
            }
            Ok(())
        });
    });
    for (o, v) in [("-salt-n-pepper-noise", "0.5"), ("-rgb-noise", "1"), ("-random-noise", "0.5"), ("-random-noise", "0.8")] {
        ctx.case(&format!("noise/{}/{}", o, v), |c| noise_kind(c, o, v));
    }

    // every near miss of every option name
    let names = ["silent", "open", "save", "grayscale", "invert", "gamma", "level", "brightness", "contrast", "brightness-contrast", "saturation", "stretch-saturation", "lightness", "hue-rotate", "rotate", "random-noise", "salt-n-pepper-noise", "rgb-noise"];
    let mut near: Vec<String> = vec![];
    for n in names {
        for i in 1..n.len() {
            near.push(n[..i].into());
            near.push(n[i..].into());
            near.push(format!("{}{}", &n[..i], &n[i + 1..]));
            near.push(format!("{}{}{}{}", &n[..i - 1], &n[i..i + 1], &n[i - 1..i], &n[i + 1..]));
        }
        for i in 0..=n.len() {
            for a in ctx.pick(&["-", "x", " "][..], &["-", "_", "x", " ", "=", ".", "e", "s", "S", "1", "\u{e9}", "\n"][..]) {
                near.push(format!("{}{}{}", &n[..i], a, &n[i..]));
                if i < n.len() {
                    near.push(format!("{}{}{}", &n[..i], a, &n[i + 1..]));
                }
            }
            if i < n.len() {
                near.push(format!("{}{}{}", &n[..i], n[i..i + 1].to_uppercase(), &n[i + 1..]));
            }
        }
        near.extend([n.to_uppercase(), n.replace('-', "_"), n.replace('-', ""), n.replace('-', " "), format!("{}=1", n), format!("{}=", n), format!("{}:1", n), format!("{}1", n), format!("{}s", n), format!("no-{}", n), format!("{0}-{0}", n)]);
        for m in names {
            near.push(format!("{}{}", n, m));
            near.push(format!("{}-{}", n, m));
        }
    }
    near.sort();
    near.dedup();
    let jobs: Vec<_> = near.chunks(40).enumerate().collect();
    par(&jobs, |(i, ch)| {
        ctx.case(&format!("names/{}", i), |c| {
            for n in ch.iter().filter(|n| !(n.ends_with("-noise") && names.contains(&n.as_str()))) {
                let o: OsString = format!("-{}", n).into();
                for v in ctx.pick(&["1"][..], &["1", "average", "0.1,0.9,1.1"][..]) {
                    let args = [OsString::from("a.png"), o.clone(), OsString::from(v), "out.png".into()];
                    check(c, &init, &args).map_err(|e| format!("{:?}: {}", args, e))?;
                }
            }
            Ok(())
        });
    });

    // longer workflows: every ordered pair of operations between open and save, with silent at every position
    let ops: Vec<Vec<&str>> = vec![
        vec!["-invert"], vec!["-grayscale", "red"], vec!["-gamma", "0.7"], vec!["-level", "0.1,0.8,1.3"], vec!["-brightness", "0.2"], vec!["-contrast", "1.3"], vec!["-brightness-contrast", "0.1,1.2"],
        vec!["-saturation", "0.5"], vec!["-stretch-saturation", "0.4"], vec!["-lightness", "0.3"], vec!["-hue-rotate", "50"], vec!["-rotate", "0.5"], vec!["mid.png"], vec!["-open", "b.bmp"], vec!["-save", "mid2.bmp"], vec!["b.bmp"], vec!["-open", "mid.png"], vec!["-silent"],
    ];
    let triples: Vec<Vec<usize>> = sequences(ops.len(), ctx.pick(2, 3)).collect();
    par(&triples, |s| {
        ctx.case(&format!("flow/{}", s.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(".")), |c| {
            for silent in 0..=s.len() + 1 {
                let mut args: Vec<&str> = vec!["a.png"];
                for (k, i) in s.iter().enumerate() {
                    if k == silent {
                        args.push("-silent");
                    }
                    args.extend(&ops[*i]);
                }
                if silent == s.len() {
                    args.push("-silent");
                }
                args.push("out.png");
                let args: Vec<OsString> = args.iter().map(|s| s.into()).collect();
                check(c, &init, &args).map_err(|e| format!("{:?}: {}", args, e))?;
                c.states(1);
            }
            Ok(())
        });
    });
}
