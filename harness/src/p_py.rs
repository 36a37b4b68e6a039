//! C21 (numpy) and C22 (Python API): the real extension module, driven by harness/py/driver.py,
//! against the Rust API.
use crate::ctx::*;
use crate::gen::*;
use d10::illuminant::{D50, D65, E};
use d10::observer::{O10, O2};
use d10::ops::{BalanceMode, BlendOp, DrawingMode, SaturationMode};
use d10::{
    BmpColorType, Color, EdgeDetection, EncodingFormat, EqualizeMode, FilterMode, Hsl, Hsv, IcoColorType, Image, Intensity, JpegSamplingFactor, Lab, Lch,
    PngColorType, PngCompression, PngFilterType, Rgb, Srgb, WebPPreset, Xyz, Yuv,
};
use std::collections::BTreeMap;
use std::process::{Command, Stdio};

pub const RULE21: &str = "Through the compiled extension module: to_np_array for images of every shape up to 3x3 (and 0x0) and an alphabet of colours in all 17 colour spaces times 6 data types given as string and as class (and unsupported ones); from_np_array for the 6 data types times 9 colour space names (with and without alpha, auto, gray, unknown) times depths 1 to 5 and none times 8 memory layouts (contiguous, Fortran, strided, negative strides, swapped axes, a slice of channels, read-only, unaligned); all levels of uint8 and of uint16 there and back; PNG files of all 256 levels read into arrays and back; independence of copies. The expected arrays are computed from the Rust colour types. Non-trivial: an array or image with content was compared.";
pub const ASSUME21: &[&str] = &["the colour conversions themselves are decided by C12", "integer types: nearest level, saturating; within 0.02 of the middle between two levels either one (uint32: within 600 levels)"];
pub const RULE22: &str = "Through the compiled extension module: every method of Image with every mode name, default and keyword over parameter grids on five images, each compared with the Rust call it stands for and with the unchanged receiver; every callback method with recording, failing, mistyped and re-entrant callbacks; every encoding option against the bytes of the Rust encoder; every colour class with constructors, properties, conversions, comparison and text; and all sequences up to length 3 (quick) or 4 (thorough) over 16 statements on two variables. Callbacks raising every kind of exception; images of up to 70000 rows or columns. Non-trivial: a value was compared.";
pub const ASSUME22: &[&str] = &["what the operations compute is decided by C08 to C18; here the binding has to select the operation, its arguments, defaults and target", "noise is compared at strength 0 and by the kind of its outcome"];

pub struct Job {
    id: String,
    code: String,
    exp: String,
    tol: f64,
}

#[derive(Default)]
pub struct Jobs {
    images: BTreeMap<String, Image>,
    jobs: Vec<Job>,
    counts: BTreeMap<String, u32>,
}

pub fn num(v: f32) -> String {
    num64(v as f64)
}
fn num64(v: f64) -> String {
    if v.is_nan() {
        "NaN".into()
    } else if v.is_infinite() {
        if v > 0.0 { "Infinity".into() } else { "-Infinity".into() }
    } else {
        format!("{:?}", v)
    }
}
fn nums(v: impl IntoIterator<Item = f32>) -> String {
    v.into_iter().map(num).collect::<Vec<_>>().join(", ")
}
fn jimg(i: &Image) -> String {
    format!("{{\"img\": [{}, {}, [{}]]}}", i.width(), i.height(), nums(i.data().iter().flat_map(|c| c.data)))
}
const NONE: &str = "{\"none\": 0}";
fn jf(v: f64) -> String {
    format!("{{\"f\": {}}}", num64(v))
}
fn jb(v: bool) -> String {
    format!("{{\"b\": {}}}", v)
}
fn jstr(v: &str) -> String {
    format!("{{\"s\": {}}}", js(v))
}
fn jhex(v: &[u8]) -> String {
    format!("{{\"hex\": \"{}\"}}", v.iter().map(|b| format!("{:02x}", b)).collect::<String>())
}
fn jl(v: &[String]) -> String {
    format!("{{\"l\": [{}]}}", v.join(", "))
}
fn jcol(class: &str, d: &[f32]) -> String {
    format!("{{\"col\": [{}, [{}]]}}", js(class), nums(d.iter().copied()))
}
fn jrgb(c: &Rgb) -> String {
    jcol("Rgb", &c.data)
}
fn jerr(class: &str, parts: &[&str]) -> String {
    let mut v = vec![js(class)];
    v.extend(parts.iter().map(|p| js(p)));
    format!("{{\"err\": [{}]}}", v.join(", "))
}
const REJ: &str = "{\"rejected\": 1}";
fn py(c: &Rgb) -> String {
    format!("Rgb({})", nums(c.data))
}

impl Jobs {
    fn image(&mut self, name: &str, img: Image) {
        self.images.insert(name.into(), img);
    }
    fn add(&mut self, group: &str, code: impl Into<String>, exp: impl Into<String>) {
        self.add_tol(group, code, exp, 1e-5);
    }
    fn add_tol(&mut self, group: &str, code: impl Into<String>, exp: impl Into<String>, tol: f64) {
        let n = self.counts.entry(group.into()).or_insert(0);
        self.jobs.push(Job { id: format!("{}/{}", group, n), code: code.into(), exp: exp.into(), tol });
        *n += 1;
    }
    /// an expression on x = I(name) that leaves x as it is
    fn pure(&mut self, group: &str, name: &str, expr: &str, exp: &str) {
        let x = jimg(&self.images[name]);
        self.add(group, format!("x=I('{}')\nr=[{}, x]", name, expr), jl(&[exp.into(), x]));
    }
    /// a statement that changes x and gives None
    fn inplace(&mut self, group: &str, name: &str, expr: &str, after: &Image) {
        self.add(group, format!("x=I('{}')\nr=[{}, x]", name, expr), jl(&[NONE.into(), jimg(after)]));
    }
}

fn run_chunk(dir: &str, n: usize, defs: &str, jobs: &[&Job]) -> Vec<Result<(), String>> {
    let jf = format!("{}/jobs{}", dir, n);
    let rf = format!("{}/res{}", dir, n);
    let wd = format!("{}/wd{}", dir, n);
    std::fs::create_dir_all(&wd).unwrap();
    let mut text = defs.to_string();
    let skip = defs.lines().count();
    for j in jobs {
        text.push_str(&format!("{{\"code\": {}, \"exp\": {}, \"tol\": {:?}}}\n", js(&j.code), j.exp, j.tol));
    }
    std::fs::write(&jf, text).unwrap();
    let _ = std::fs::remove_file(&rf);
    let mut out: Vec<Result<(), String>> = jobs.iter().map(|_| Err("was not run".to_string())).collect();
    let mut start = 0usize;
    for round in 0..20 {
        // the definitions are read in any case: a restart goes to job `start`
        let child = Command::new("/opt/vp/venv/bin/python")
            .args([&format!("{}/driver.py", dir), &jf, &rf, &start.to_string()])
            .env("PYTHONPATH", dir)
            .env("PYTHONDONTWRITEBYTECODE", "1")
            .env("OPENBLAS_NUM_THREADS", "1")
            .current_dir(&wd)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(std::fs::File::create(format!("{}/err{}", dir, n)).unwrap())
            .spawn();
        let mut child = match child {
            Ok(c) => c,
            Err(e) => {
                eprintln!("cannot start python: {}", e);
                std::process::exit(3);
            }
        };
        let mut waited = 0u64;
        let mut last = 0u64;
        let mut since = 0u64;
        let mut hung = false;
        let status = loop {
            if let Ok(Some(s)) = child.try_wait() {
                break Some(s);
            }
            std::thread::sleep(std::time::Duration::from_millis(20));
            waited += 20;
            let size = std::fs::metadata(&rf).map(|m| m.len()).unwrap_or(0);
            if size != last {
                last = size;
                since = waited;
            }
            if waited - since > 120_000 {
                hung = true;
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
        };
        let res = std::fs::read_to_string(&rf).unwrap_or_default();
        let mut begun: Option<usize> = None;
        let mut ended = false;
        for l in res.lines() {
            let mut p = l.splitn(3, ' ');
            let kind = p.next().unwrap_or("");
            let i = p.next().and_then(|v| v.parse::<usize>().ok()).map(|v| v - skip);
            match (kind, i) {
                ("B", Some(i)) => begun = Some(i),
                ("O", Some(i)) => {
                    out[i] = Ok(());
                    begun = None;
                }
                ("F", Some(i)) => {
                    out[i] = Err(p.next().unwrap_or("").to_string());
                    begun = None;
                }
                ("E", _) => ended = true,
                _ => {}
            }
        }
        if ended {
            break;
        }
        match begun {
            Some(i) => {
                let err = std::fs::read_to_string(format!("{}/err{}", dir, n)).unwrap_or_default();
                let what = if hung { "did not terminate".to_string() } else { format!("the interpreter died ({:?}): {}", status, err.lines().last().unwrap_or("")) };
                out[i] = Err(what);
                let _ = std::fs::remove_file(&rf);
                // keep what is known, go on with the next one
                start = skip + i + 1;
                if start >= skip + jobs.len() {
                    break;
                }
            }
            None => {
                let err = std::fs::read_to_string(format!("{}/err{}", dir, n)).unwrap_or_default();
                if round == 0 && res.is_empty() {
                    // nothing ran: the module cannot be loaded
                    for o in out.iter_mut() {
                        *o = Err(format!("the module cannot be used: {}", err.lines().last().unwrap_or("")));
                    }
                }
                break;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&wd);
    out
}

fn run_jobs(ctx: &'static Ctx, j: &Jobs) {
    let dir = scratch();
    std::fs::write(format!("{}/driver.py", dir), include_str!("../py/driver.py")).unwrap();
    let Some(so) = std::env::var_os("D10_PYMOD") else {
        eprintln!("D10_PYMOD is not set");
        std::process::exit(3);
    };
    std::fs::copy(so, format!("{}/d10.so", dir)).expect("the extension module");
    let mut defs = String::new();
    for (n, i) in &j.images {
        defs.push_str(&format!("{{\"img\": {}, \"data\": [{}, {}, [{}]]}}\n", js(n), i.width(), i.height(), nums(i.data().iter().flat_map(|c| c.data))));
    }
    let sel: Vec<&Job> = j.jobs.iter().filter(|x| ctx.only.as_ref().is_none_or(|o| *o == x.id)).collect();
    let size = (sel.len() / 32).clamp(25, 1500);
    let chunks: Vec<(usize, &[&Job])> = sel.chunks(size).enumerate().collect();
    par(&chunks, |(n, c)| {
        let res = run_chunk(&dir, *n, &defs, c);
        for (job, r) in c.iter().zip(res) {
            ctx.case(&job.id, |k| {
                k.traces(1);
                k.transitions(job.code.lines().count() as u64);
                k.states(1);
                k.obs(true, &(&job.code, &job.exp));
                r.map_err(|e| format!("{} -- {}", job.code.replace('\n', "; "), e))
            });
        }
    });
}

// ---------------------------------------------------------------------------------------------
// C21

const SPACES: [&str; 17] = ["rgb", "rgba", "srgb", "srgba", "gray", "hsl", "hsla", "hsv", "hsva", "yuv", "yuva", "xyz", "xyza", "lab", "laba", "lch", "lcha"];
const DTYPES: [&str; 6] = ["float32", "float64", "uint8", "uint16", "uint32", "bool"];

fn channels(c: &Rgb, space: &str) -> Vec<f32> {
    let (n, d): (usize, Vec<f32>) = match space.trim_end_matches('a') {
        "rgb" => (3, c.data.to_vec()),
        "srgb" => (3, c.to_srgb().data.to_vec()),
        "gr" | "gray" => (1, vec![c.to_gray().data[0]]),
        "hsl" => (3, c.to_hsl().data.to_vec()),
        "hsv" => (3, c.to_hsv().data.to_vec()),
        "yuv" => (3, c.to_yuv().data.to_vec()),
        "xyz" => (3, c.to_xyz().data.to_vec()),
        "lab" => (3, c.to_lab::<D65, O2>().data.to_vec()),
        "lch" => (3, c.to_lch::<D65, O2>().data.to_vec()),
        x => panic!("{}", x),
    };
    let n = if space.ends_with('a') { 4 } else { n };
    d[..n].to_vec()
}

fn color_of(v: &[f32], space: &str) -> Rgb {
    let a = v.get(3).copied().unwrap_or(1.0);
    match space.trim_end_matches('a') {
        "rgb" | "uto" | "auto" => Rgb::new_with_alpha(v[0], v[1], v[2], a),
        "srgb" => Srgb::new_with_alpha(v[0], v[1], v[2], a).to_rgb(),
        "hsl" => Hsl::new_with_alpha(v[0], v[1], v[2], a).to_rgb(),
        "hsv" => Hsv::new_with_alpha(v[0], v[1], v[2], a).to_rgb(),
        "yuv" => Yuv::new_with_alpha(v[0], v[1], v[2], a).to_rgb(),
        "xyz" => Xyz::new_with_alpha(v[0], v[1], v[2], a).to_rgb(),
        "lab" => Lab::<D65, O2>::new_with_alpha(v[0], v[1], v[2], a).to_rgb(),
        "lch" => Lch::<D65, O2>::new_with_alpha(v[0], v[1], v[2], a).to_rgb(),
        x => panic!("{}", x),
    }
}

fn palette() -> Vec<Rgb> {
    let mut v = vec![];
    for r in [0.0, 0.37, 1.0] {
        for g in [0.0, 0.61, 1.0] {
            for b in [0.0, 0.18, 1.0] {
                let a = [1.0, 0.25, 0.0, 0.73][v.len() % 4];
                v.push(Rgb { data: [r, g, b, a] });
            }
        }
    }
    v
}

/// expected array of the data type
fn as_dtype(v: f32, t: &str, exact: bool) -> (String, f64) {
    let v = v as f64;
    match t {
        "float32" | "float64" => (num64(v), if exact { 0.0 } else { 1e-6 }),
        "bool" => (if !exact && (v - 0.5).abs() < 1e-4 { "\"*\"".into() } else { (v >= 0.5).to_string() }, 1e-5),
        "uint8" => (num64((v * 255.0).clamp(0.0, 255.0)), 0.52),
        "uint16" => (num64((v * 65535.0).clamp(0.0, 65535.0)), 0.9),
        "uint32" => (num64((v * 4294967295.0).clamp(0.0, 4294967295.0)), 600.0),
        x => panic!("{}", x),
    }
}

fn np_expect(img: &Image, space: &str, t: &str) -> (String, f64) {
    let mut tol = 0.0;
    let mut depth = if space == "gray" { 1 } else if space.ends_with('a') { 4 } else { 3 };
    let mut vals = vec![];
    for c in img.data() {
        let ch = channels(c, space);
        depth = ch.len();
        for v in ch {
            let (s, t) = as_dtype(v, t, space.starts_with("rgb"));
            vals.push(s);
            tol = t;
        }
    }
    (format!("{{\"np\": [{}, [{}, {}, {}], [{}]]}}", js(t), img.height(), img.width(), depth, vals.join(", ")), tol)
}

pub fn run21(ctx: &'static Ctx) {
    let mut j = Jobs::default();
    let pal = palette();
    let mut shapes = vec![(0u32, 0u32), (1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (3, 3), (7, 1), (1, 7)];
    if !ctx.quick() {
        shapes.extend([(4, 4), (5, 3), (3, 5), (9, 3), (27, 1), (1, 27)]);
    }
    for (k, (w, h)) in shapes.iter().enumerate() {
        let img = Image::new_from_raw(*w, *h, (0..w * h).map(|i| pal[(i as usize * 5 + k * 7) % pal.len()]).collect());
        j.image(&format!("s{}x{}", w, h), img);
    }
    j.image("pal", Image::new_from_raw(9, 3, pal.clone()));
    j.image("w300x2", Image::new_from_buffer(distinct_buf(300, 2)));
    j.image("w2x300", Image::new_from_buffer(distinct_buf(2, 300)));
    // values that only some types can hold, and both sides of the middle
    let half = [0.5f32, 0.49999997, 0.50000006, 1.2e-8, 3.3e-7, 1e-20, 0.1, 1.0 / 3.0, 0.99999994, 0.499, 0.501, 0.2, 0.7, 0.0019, 5.96e-8, 0.3];
    j.image("fine", Image::new_from_raw(16, 1, (0..16).map(|i| Rgb { data: [half[i], half[(i + 5) % 16], half[(i + 10) % 16], half[(i + 15) % 16]] }).collect()));
    // both ends of the range, for which every type has an exact value
    j.image("ends", Image::new_from_raw(16, 1, (0..16u32).map(|i| Rgb { data: [(i & 1) as f32, (i >> 1 & 1) as f32, (i >> 2 & 1) as f32, (i >> 3 & 1) as f32] }).collect()));
    // every mix of the extremes and the middle
    let lat = [0.0f32, 1.0 / 255.0, 0.5, 1.0];
    j.image("mixes", Image::new_from_raw(16, 16, (0..256usize).map(|i| Rgb { data: [lat[i & 3], lat[i >> 2 & 3], lat[i >> 4 & 3], lat[i >> 6 & 3]] }).collect()));
    // densely spaced values for the rounding of every type
    let ramp = ctx.pick(1021u32, 16381);
    j.image("ramp", Image::new_from_raw(ramp, 1, (0..ramp).map(|i| { let v = i as f32 / (ramp - 1) as f32; Rgb { data: [v, 1.0 - v, (v * 7.0).fract(), (v * 3.0).fract()] } }).collect()));

    // to_np_array
    let images = j.images.clone();
    for (n, img) in &images {
        for s in SPACES {
            for t in DTYPES {
                let (e, mut tol) = np_expect(img, s, t);
                if n == "ends" && s.starts_with("rgb") {
                    tol = 0.0;
                }
                let x = jimg(img);
                j.add_tol(&format!("to/{}/{}/{}", n, s, t), format!("x=I('{}')\nr=[x.to_np_array('{}', '{}'), x]", n, s, t), jl(&[e.clone(), x]), tol);
                if n != "ramp" {
                    j.add_tol(&format!("to/{}/{}/{}", n, s, t), format!("r=I('{}').to_np_array(data_type=np.{}, colorspace='{}')", n, if t == "bool" { "bool_" } else { t }, s), e, tol);
                }
            }
            let (e, tol) = np_expect(img, s, "float32");
            j.add_tol(&format!("to/{}/{}/default", n, s), format!("r=I('{}').to_np_array('{}')", n, s), e, tol);
        }
        for t in DTYPES {
            let (e, tol) = np_expect(img, "rgba", t);
            j.add_tol(&format!("to/{}/default/{}", n, t), format!("r=I('{}').to_np_array(data_type='{}')", n, t), e, tol);
        }
        let (e, tol) = np_expect(img, "rgba", "float32");
        j.add_tol(&format!("to/{}/default/default", n), format!("r=I('{}').to_np_array()", n), e, tol);
    }
    let (e, _) = np_expect(&images["s3x2"], "rgb", "bool");
    j.add("to/boolclass", "r=I('s3x2').to_np_array('rgb', bool)", e);
    for s in ["RGB", "", "cmyk", "rgbaa", "graya", "auto", "ycbcr", "hsi"] {
        j.add("to/badspace", format!("r=I('s3x2').to_np_array('{}')", s), jerr("OSError", &[s]));
    }
    for t in ["'int8'", "'int32'", "'float16'", "''", "'Float32'", "'complex64'", "'uint64'", "np.int32", "np.int64", "np.float16", "np.uint64", "np.complex128", "int", "5", "[1]"] {
        j.add("to/badtype", format!("r=I('s3x2').to_np_array('rgb', {})", t), jerr("", &[]));
    }
    // the array is an independent copy
    for s in SPACES {
        let x = jimg(&images["s3x2"]);
        j.add("to/copy", format!("x=I('s3x2')\na=x.to_np_array('{}')\na[:]=0.25\nb=x.to_np_array('{}')\nr=[x, bool((b==0.25).all())]", s, s), jl(&[x, jb(false)]));
    }

    // from_np_array
    let bases = ["rgb", "srgb", "hsl", "hsv", "yuv", "xyz", "lab", "lch"];
    let mut names: Vec<Option<String>> = vec![None, Some("auto".into()), Some("gray".into()), Some("graya".into()), Some("cmyk".into()), Some("".into()), Some("RGB".into())];
    for b in bases {
        names.push(Some(b.into()));
        names.push(Some(format!("{}a", b)));
    }
    let layouts: [(&str, &str); 8] = [
        ("unaligned", "g=np.zeros(a.nbytes+1, 'u1')\nb=g[1:].view(a.dtype).reshape(a.shape)\nb[:]=a"),
        ("c", "b=a"),
        ("f", "b=np.asfortranarray(a)"),
        ("step", "g=np.zeros((a.shape[0]*2, a.shape[1]*3)+a.shape[2:], a.dtype)\ng[::2, ::3]=a\nb=g[::2, ::3]"),
        ("neg", "b=a[::-1, ::-1].copy()[::-1, ::-1]"),
        ("swap", "b=np.swapaxes(np.swapaxes(a, 0, 1).copy(), 0, 1)"),
        ("chan", "g=np.zeros(a.shape[:-1]+(a.shape[-1]+3,), a.dtype)\ng[..., 2:2+a.shape[-1]]=a\nb=g[..., 2:2+a.shape[-1]]"),
        ("ro", "b=a.copy()\nb.setflags(write=False)"),
    ];
    let sizes: Vec<(u32, u32)> = ctx.pick(vec![(1, 1), (3, 2), (2, 3)], vec![(1, 1), (3, 2), (2, 3), (1, 5), (5, 1), (4, 4), (6, 3)]);
    for t in DTYPES {
        for &(w, h) in &sizes {
            for depth in [0usize, 1, 2, 3, 4, 5] {
                let ch = depth.max(1);
                let n = (w * h) as usize * ch;
                // levels of the type and the floats they stand for
                let raw: Vec<(String, f32)> = (0..n)
                    .map(|i| {
                        let k = (i * 37 + 11 * depth + w as usize) % 101;
                        let f = k as f64 / 100.0;
                        match t {
                            "float32" | "float64" => {
                                let v = f * 1.5 - 0.25;
                                (num64(v), v as f32)
                            }
                            "bool" => (if k % 3 != 0 { "1" } else { "0" }.to_string(), if k % 3 != 0 { 1.0 } else { 0.0 }),
                            _ => {
                                let m: u64 = match t { "uint8" => 255, "uint16" => 65535, _ => 4294967295 };
                                let v = if k == 0 { 0 } else if k == 100 { m } else { (f * m as f64) as u64 };
                                (v.to_string(), (v as f64 / m as f64) as f32)
                            }
                        }
                    })
                    .collect();
                let shape = if depth == 0 { format!("({}, {})", h, w) } else { format!("({}, {}, {})", h, w, depth) };
                let make = format!("a=np.array([{}]).astype('{}').reshape{}", raw.iter().map(|r| r.0.clone()).collect::<Vec<_>>().join(","), t, shape);
                for name in &names {
                    let nm = name.as_deref().unwrap_or("auto");
                    let base = bases.contains(&nm) || nm == "auto";
                    let with_a = nm.ends_with('a') && bases.contains(&&nm[..nm.len() - 1]);
                    let ok = match depth {
                        4 => base || with_a,
                        3 => base,
                        0 | 1 => nm == "gray" || nm == "auto",
                        _ => false,
                    };
                    let exp = if ok {
                        let data: Vec<Rgb> = raw
                            .chunks(ch)
                            .map(|c| {
                                let v: Vec<f32> = c.iter().map(|x| x.1).collect();
                                if ch == 1 { Rgb { data: [v[0].clamp(0.0, 1.0), v[0].clamp(0.0, 1.0), v[0].clamp(0.0, 1.0), 1.0] } } else { color_of(&v, nm) }
                            })
                            .collect();
                        jimg(&Image::new_from_raw(w, h, data))
                    } else {
                        jerr("OSError", &["Bad"])
                    };
                    for (ln, l) in layouts.iter() {
                        let arg = match name { None => String::new(), Some(n) => format!(", '{}'", n) };
                        let code = format!("{}\n{}\nc=b.copy()\nr=[Image.from_np_array(b{}), bool((b==c).all())]", make, l, arg);
                        j.add_tol(&format!("from/{}/{}x{}x{}/{}/{}", t, w, h, depth, name.as_deref().unwrap_or("none"), ln), code, if ok { jl(&[exp.clone(), jb(true)]) } else { exp.clone() }, 2e-5);
                    }
                }
            }
        }
    }
    // every mix of the extremes per channel
    for t in DTYPES {
        let lv: Vec<(String, f32)> = match t {
            "float32" | "float64" => [-0.5f64, 0.0, 1.0 / 255.0, 0.5, 1.0, 1.5].iter().map(|v| (num64(*v), *v as f32)).collect(),
            "bool" => vec![("0".into(), 0.0), ("1".into(), 1.0)],
            _ => {
                let m: u64 = match t { "uint8" => 255, "uint16" => 65535, _ => 4294967295 };
                [0, 1, m / 2, m - 1, m].iter().map(|v| (v.to_string(), (*v as f64 / m as f64) as f32)).collect()
            }
        };
        for ch in [1usize, 3, 4] {
            let k = lv.len();
            let n = k.pow(ch as u32);
            let at = |i: usize, c: usize| &lv[i / k.pow(c as u32) % k];
            let raw: Vec<String> = (0..n).flat_map(|i| (0..ch).map(move |c| at(i, c).0.clone()).collect::<Vec<_>>()).collect();
            for sp in ["gray", "auto", "rgb", "srgb", "hsl", "hsv", "yuv", "xyz", "lab", "lch"] {
                for a in ["", "a"] {
                    if (ch == 1) != (sp == "gray") && !(sp == "auto" && a.is_empty()) || a == "a" && (ch != 4 || sp == "auto") {
                        continue;
                    }
                    let data = (0..n)
                        .map(|i| {
                            let v: Vec<f32> = (0..ch).map(|c| at(i, c).1).collect();
                            if ch == 1 { let g = v[0].clamp(0.0, 1.0); Rgb { data: [g, g, g, 1.0] } } else { color_of(&v, sp) }
                        })
                        .collect();
                    let code = format!("r=Image.from_np_array(np.array([{}]).astype('{}').reshape((1, {}, {})), '{}{}')", raw.join(","), t, n, ch, sp, a);
                    j.add_tol(&format!("mixes/{}/{}/{}{}", t, ch, sp, a), code, jimg(&Image::new_from_raw(n as u32, 1, data)), 2e-5);
                }
            }
        }
    }
    // larger arrays: there and back, and single pixels
    for t in DTYPES {
        for (w, h) in [(300u32, 2u32), (2, 300), (257, 255)] {
            for (ln, l) in layouts.iter() {
                for (sh, sp) in [("4", "rgba"), ("3", "rgb")] {
                    let m = match t { "uint8" => "251", "uint16" => "65521", "uint32" => "4294967291", "bool" => "2", _ => "4097" };
                    let f = if t.starts_with("float") { "/4096.0" } else { "" };
                    let code = format!(
                        "a=((np.arange({w}*{h}*{sh}, dtype='uint64')*{k})%{m}{f}).astype('{t}').reshape({h}, {w}, {sh})\n{l}\nx=Image.from_np_array(b, '{sp}')\nd=x.to_np_array('{sp}', '{t}')\nm={top}\nq=max(abs([p.red, p.green, p.blue][c]-float(a[v, u, c])/m) for u, v in (({w}-1, {h}-1), (0, {h}-1), ({w}-1, 0), ({w}//2, {h}//2), (1, 0), (0, 1)) for p in [x.get_pixel(u, v)] for c in (0, 1, 2))\nr=[x.width, x.height, bool((np.abs(d.astype('float64')-a.astype('float64'))<={slack}).all()), bool(q<1e-5)]",
                        k = if t == "uint32" { "104729" } else { "7" },
                        top = match t { "uint8" => "255.0", "uint16" => "65535.0", "uint32" => "4294967295.0", _ => "1.0" },
                        slack = if t == "uint32" { "600" } else { "0" },
                    );
                    j.add(&format!("large/{}/{}x{}/{}/{}", t, w, h, ln, sp), code, jl(&[jf(w as f64), jf(h as f64), jb(true), jb(true)]));
                }
            }
        }
    }
    for t in ["int8", "int16", "int32", "int64", "uint64", "float16", "complex64", "complex128", "object", "U3", ">f4", ">u2"] {
        j.add("from/badtype", format!("r=Image.from_np_array(np.zeros((2, 3, 4)).astype('{}'))", t), jerr("", &[]));
        j.add("from/badtype", format!("r=Image.from_np_array(np.zeros((2, 3)).astype('{}'), 'gray')", t), jerr("", &[]));
    }
    for v in ["None", "5", "'x'", "[[1.0]]", "[[[1.0, 1.0, 1.0]]]", "np.float32(3)", "I('s3x2')", "Rgb(1, 1, 1)"] {
        j.add("from/noarray", format!("r=Image.from_np_array({})", v), jerr("TypeError", &[]));
    }
    for t in DTYPES {
        for s in ["()", "(0,)", "(4,)", "(12,)", "(1, 2, 3, 4)", "(1, 1, 1, 1)", "(2, 1, 1, 1, 4)"] {
            for name in ["", ", 'auto'", ", 'gray'", ", 'rgb'", ", 'rgba'"] {
                j.add("from/baddims", format!("r=Image.from_np_array(np.ones({}, '{}'){})", s, t, name), jerr("OSError", &["Bad number of dimensions"]));
            }
        }
        j.add("from/empty", format!("r=Image.from_np_array(np.ones((0, 0, 4), '{}'))", t), jimg(&Image::new(0, 0)));
        j.add("from/empty", format!("r=Image.from_np_array(np.ones((0, 0, 3), '{}'), 'hsl')", t), jimg(&Image::new(0, 0)));
        j.add("from/empty", format!("r=Image.from_np_array(np.ones((0, 0), '{}'))", t), jimg(&Image::new(0, 0)));
    }
    // independence: changing the source array afterwards
    for t in ["float32", "uint8"] {
        for d in ["(2, 3, 4)", "(2, 3, 3)", "(2, 3)"] {
            j.add("from/copy", format!("a=np.ones({}, '{}')\nx=Image.from_np_array(a)\na[:]=0\nr=[x.get_pixel(2, 1).red > 0, bool((a==0).all())]", d, t), jl(&[jb(true), jb(true)]));
            j.add("from/copy", format!("a=np.ones({}, '{}')\nx=Image.from_np_array(a)\nx.mod_colors(lambda c: Rgb(0, 0, 0, 0))\nr=bool((a==1).all())", d, t), jb(true));
        }
    }
    // keywords
    j.add("from/keyword", "r=Image.from_np_array(array=np.full((1, 1, 3), 0.5, 'float32'), colorspace='srgb')", jimg(&Image::new_from_raw(1, 1, vec![Srgb::new(0.5, 0.5, 0.5).to_rgb()])));

    // all levels there and back
    for s in ["rgba", "srgba"] {
        j.add(&format!("levels/{}/uint8", s), format!("a=np.stack([(np.arange(256)*k+o)%256 for k, o in ((1, 0), (3, 7), (5, 1), (255, 255))], axis=-1).astype('uint8').reshape(16, 16, 4)\nx=Image.from_np_array(a, '{}')\nb=x.to_np_array('{}', 'uint8')\nr=[x.width, x.height, str(b.dtype), a.shape==b.shape, bool((a==b).all())]", s, s), jl(&[jf(16.0), jf(16.0), jstr("uint8"), jb(true), jb(true)]));
        j.add(&format!("levels/{}/uint16", s), format!("a=np.stack([(np.arange(65536)*k+o)%65536 for k, o in ((1, 0), (3, 7), (5, 1), (65535, 65535))], axis=-1).astype('uint16').reshape(256, 256, 4)\nx=Image.from_np_array(a, '{}')\nb=x.to_np_array('{}', 'uint16')\nr=[a.shape==b.shape, bool((a==b).all())]", s, s), jl(&[jb(true), jb(true)]));
    }
    j.add("levels/gray/uint8", "a=np.arange(256).astype('uint8').reshape(16, 16)\nb=Image.from_np_array(a).to_np_array('gray', np.uint8)\nr=[list(b.shape), bool((a==b[:, :, 0]).all())]", jl(&[jl(&[jf(16.0), jf(16.0), jf(1.0)]), jb(true)]));
    j.add("levels/gray/uint16", "a=np.arange(65536).astype('uint16').reshape(256, 256)\nb=Image.from_np_array(a, 'gray').to_np_array('gray', np.uint16)\nr=bool((a==b[:, :, 0]).all())", jb(true));
    for s in ["rgba", "srgba", "hsla", "hsva", "yuva", "xyza", "laba", "lcha"] {
        for t in ["float32", "float64"] {
            j.add_tol(&format!("round/{}/{}", s, t), format!("r=Image.from_np_array(I('pal').to_np_array('{}', '{}'), '{}')", s, t, s), jimg(&images["pal"]), 2e-3);
        }
    }
    for t in ["float32", "float64"] {
        j.add_tol(&format!("exact/{}", t), format!("x=I('ramp')\ny=Image.from_np_array(x.to_np_array('rgba', '{}'))\nr=y", t), jimg(&images["ramp"]), 1e-7);
    }
    // files
    let px: Vec<Rgb> = (0..256u32).map(|i| px8(i as u8, (i * 3 + 7) as u8, (255 - i) as u8, (i * 5 + 1) as u8)).collect();
    let file = Image::new_from_raw(16, 16, px.clone());
    for (n, f) in [
        ("png", EncodingFormat::Png { color_type: PngColorType::Rgba8, compression: PngCompression::Default, filter: PngFilterType::Sub }),
        ("bmp", EncodingFormat::Bmp { color_type: BmpColorType::Rgba8 }),
    ] {
        let path = format!("{}/levels.{}", scratch(), n);
        std::fs::write(&path, file.save_to_buffer(f).unwrap()).unwrap();
        j.add(&format!("file/{}", n), format!("b=Image.open('{}').to_np_array('srgba', 'uint8').astype(int).reshape(256, 4)\ni=np.arange(256)\nr=[bool((b[:, 0]==i).all()), bool((b[:, 1]==(i*3+7)%256).all()), bool((b[:, 2]==255-i).all()), bool((b[:, 3]==(i*5+1)%256).all())]", path), jl(&[jb(true), jb(true), jb(true), jb(true)]));
        j.add(&format!("file/{}", n), format!("i=np.arange(256)\na=np.stack([i, (i*3+7)%256, 255-i, (i*5+1)%256], axis=-1).astype('uint8').reshape(16, 16, 4)\nx=Image.from_np_array(a, 'srgb')\nx.save('o.{}')\nr=bool((Image.open('o.{}').to_np_array('srgba', 'uint8')==a).all())", n, n), jb(true));
    }
    run_jobs(ctx, &j);
}

// ---------------------------------------------------------------------------------------------
// C22
include!("p_py22.rs");
