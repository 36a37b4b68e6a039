fn enum_names() -> (Vec<(&'static str, FilterMode)>, Vec<(&'static str, fn() -> BlendOp)>) {
    use BlendOp::*;
    (
        vec![("nearest", FilterMode::Nearest), ("bilinear", FilterMode::Bilinear), ("bicubic", FilterMode::Bicubic), ("lanczos3", FilterMode::Lanczos3), ("auto", FilterMode::Auto), ("default", FilterMode::Auto)],
        vec![
            ("normal", || Normal), ("addition", || Addition), ("subtract", || Subtract), ("darken", || Darken), ("lighten", || Lighten), ("hsl_darken", || HslDarken), ("hsl_lighten", || HslLighten),
            ("lch_darken", || LchDarken), ("lch_lighten", || LchLighten), ("lch_hue", || LchHue), ("lch_saturation", || LchSaturation), ("lch_color", || LchColor),
        ],
    )
}

const BAD: [&str; 5] = ["foo", "", "Nearest", "none", "default "];

pub fn run22(ctx: &'static Ctx) {
    let mut j = Jobs::default();
    let opaque = |w: u32, h: u32, o: u32| Image::new_from_raw(w, h, (0..w * h).map(|i| { let c = distinct_px(i + o); Rgb { data: [c.data[0], c.data[1], c.data[2], 1.0] } }).collect());
    j.image("a", Image::new_from_buffer(distinct_buf(4, 3)));
    j.image("o", opaque(5, 4, 30));
    j.image("g", Image::new_from_raw(3, 3, (0..9).map(|i| { let v = i as f32 / 8.0; Rgb { data: [v, v, v, 1.0] } }).collect()));
    j.image("p", Image::new_from_raw(3, 1, vec![Rgb { data: [1.0, 0.0, 0.1, 1.0] }, Rgb { data: [0.0, 0.8, 0.3, 0.5] }, Rgb { data: [0.2, 0.1, 0.9, 1.0] }]));
    j.image("n", Image::new_from_raw(1, 1, vec![Rgb { data: [0.3, 0.6, 0.2, 0.75] }]));
    j.image("e", Image::new(0, 0));
    j.image("big", Image::new_from_buffer(distinct_buf2(17, 11, 3)));
    if !ctx.quick() {
        j.image("w", Image::new_from_buffer(distinct_buf2(23, 2, 9)));
        j.image("h", opaque(2, 19, 5));
        j.image("m", Image::new_from_buffer(distinct_buf2(32, 24, 1)));
    }
    let imgs = j.images.clone();

    constructors(&mut j, &imgs);
    pixels(&mut j, &imgs);
    operations(&mut j, &imgs, ctx);
    callbacks(&mut j, &imgs);
    compose(&mut j, &imgs);
    files(&mut j, &imgs, ctx);
    colors(&mut j, ctx);
    sequences22(&mut j, ctx);
    run_jobs(ctx, &j);
}

fn constructors(j: &mut Jobs, imgs: &BTreeMap<String, Image>) {
    let c = Rgb { data: [0.2, 0.4, 0.9, 0.5] };
    for w in 0..4u32 {
        for h in 0..4u32 {
            let ok = (w == 0) == (h == 0);
            let (e1, e2) = if ok { (jimg(&Image::new(w, h)), jimg(&Image::new_with_color(w, h, c))) } else { (REJ.into(), REJ.into()) };
            j.add("new", format!("r=Image({}, {})", w, h), e1.clone());
            j.add("new", format!("r=Image(width={}, height={})", w, h), e1.clone());
            j.add("new", format!("r=Image({}, {}, None)", w, h), e1);
            j.add("new", format!("r=Image({}, {}, {})", w, h, py(&c)), e2.clone());
            j.add("new", format!("r=Image(height={}, width={}, color={})", h, w, py(&c)), e2);
            for n in 0..10u32 {
                let list: Vec<Rgb> = (0..n).map(distinct_px).collect();
                let e = if n == w * h && ok { jimg(&Image::new_from_raw(w, h, list.clone())) } else { REJ.into() };
                j.add("from_list", format!("r=Image.from_list({}, {}, [{}])", w, h, list.iter().map(py).collect::<Vec<_>>().join(", ")), e);
            }
        }
    }
    for bad in ["Image()", "Image(3)", "Image(-1, 2)", "Image(2, -1)", "Image('2', 2)", "Image(2.5, 2)", "Image(2, 2, 5)", "Image(2, 2, Hsl(0.1, 0.2, 0.3))", "Image(4294967296, 1)", "Image(65536, 65536)", "Image.from_list(1, 1, [5])", "Image.from_list(1, 1, [Hsl(1, 1, 1)])", "Image.from_list(1, 1, None)", "Image.from_list(2, 1, Rgb(1, 1, 1))"] {
        j.add("new/bad", format!("r={}", bad), REJ);
    }
    for (n, i) in imgs {
        j.add("basic", format!("x=I('{}')\nr=[x.width, x.height, len(x), x.has_transparency(), x.is_grayscale(), len(x.to_list())]", n), jl(&[jf(i.width() as f64), jf(i.height() as f64), jf(i.data().len() as f64), jb(i.has_transparency()), jb(i.is_grayscale()), jf(i.data().len() as f64)]));
        j.add("basic", format!("x=I('{}')\nl=x.to_list()\nfor c in l: c.red=0.5; c.alpha=0.1\nr=x", n), jimg(i));
        j.add("basic", format!("x=I('{}')\nr=Image.from_list(x.width, x.height, x.to_list())", n), jimg(i));
        j.add("basic", format!("x=I('{}')\ny=Image.from_list(list=x.to_list(), height=x.height, width=x.width)\ny.mod_colors(lambda c: c.invert())\nr=x", n), jimg(i));
        for attr in ["width", "height"] {
            j.add("basic", format!("x=I('{}')\nx.{} = 7\nr=1", n, attr), jerr("AttributeError", &[]));
        }
    }
}

fn pixels(j: &mut Jobs, imgs: &BTreeMap<String, Image>) {
    for c in [Rgb { data: [0.25, 0.5, 0.75, 0.125] }, Rgb { data: [0.75, 0.25, 1.0, 0.0] }] {
        pixels_with(j, imgs, c);
    }
    large(j);
}

/// Images with more rows or columns than a byte counts, in statements that check themselves.
fn large(j: &mut Jobs) {
    for (w, h) in [(300u32, 1u32), (1, 300), (300, 2), (2, 300), (259, 261), (70_000, 1), (1, 70_000)] {
        let mk = format!("w, h={}, {}\nx=Image.from_list(w, h, [Rgb((i%509)/512, (i//509)/512, 0.25, 1) for i in range(w*h)])\ncode=lambda c: round(c.red*512)+509*round(c.green*512)", w, h);
        // (the coordinates of the wide and high ones do not fit into one channel each)
        let ok = |j: &mut Jobs, g: &str, body: &str| if w.max(h) < 1000 || !g.ends_with("_enum") { j.add(&format!("large/{}", g), format!("{}\n{}", mk, body), jb(true)) };
        ok(j, "list", "r=[code(c) for c in x.to_list()]==list(range(w*h)) and len(x)==w*h and (x.width, x.height)==(w, h)");
        ok(j, "get", "r=all(code(x.get_pixel(u, v))==u+v*w==code(x[u, v]) and code(x.get_pixel_clamped(u, v))==u+v*w and x.is_in_image(u, v) for v in range(h) for u in range(w))");
        ok(j, "outside", "r=not any(x.is_in_image(u, v) or x.get_pixel(u, v) is not None for u, v in ((w, 0), (0, h), (w, h), (-1, 0), (0, -1), (w+256, 0), (0, h+256), (w+65536, 0))) and code(x.get_pixel_clamped(w+256, h+256))==w*h-1");
        ok(j, "map", "s=[]\ny=x.map_colors(lambda c: s.append(code(c)) or c.invert())\nr=s==list(range(w*h)) and all(abs(p.red+q.red-1)<1e-5 and abs(p.green+q.green-1)<1e-5 for p, q in zip(x.to_list(), y.to_list()))");
        ok(j, "mod", "s=[]\nx.mod_colors(lambda c: s.append(code(c)) or c)\nr=s==list(range(w*h))==[code(c) for c in x.to_list()]");
        ok(j, "map_enum", "s=[]\ny=x.map_colors_enumerated(lambda u, v, c: s.append((u, v, code(c))) or Rgb(u/512, v/512, 0))\nr=s==[(i%w, i//w, i) for i in range(w*h)] and [(round(c.red*512), round(c.green*512)) for c in y.to_list()]==[t[:2] for t in s]");
        ok(j, "mod_enum", "s=[]\nx.mod_colors_enumerated(lambda u, v, c: s.append((u, v, code(c))) or Rgb(u/512, v/512, 0))\nr=s==[(i%w, i//w, i) for i in range(w*h)] and [(round(c.red*512), round(c.green*512)) for c in x.to_list()]==[t[:2] for t in s]");
        ok(j, "enum-map", "s=[]\ny=x.map_colors_enumerated(lambda u, v, c: s.append((u, v, code(c))) or Rgb((u+v*3)%509/512, (u+v*3)//509/512, 0))\nr=s==[(i%w, i//w, i) for i in range(w*h)] and [code(c) for c in y.to_list()]==[t[0]+t[1]*3 for t in s]");
        ok(j, "enum-mod", "s=[]\nx.mod_colors_enumerated(lambda u, v, c: s.append((u, v, code(c))) or Rgb((u+v*3)%509/512, (u+v*3)//509/512, 0))\nr=s==[(i%w, i//w, i) for i in range(w*h)] and [code(c) for c in x.to_list()]==[t[0]+t[1]*3 for t in s]");
        ok(j, "put", "for i in range(w*h):\n  k=w*h-1-i\n  if i%2: x.put_pixel(i%w, i//w, Rgb((k%509)/512, (k//509)/512, 0))\n  else: x[i%w, i//w]=Rgb((k%509)/512, (k//509)/512, 0)\nr=[code(c) for c in x.to_list()]==list(reversed(range(w*h)))");
        ok(j, "compose", "y=x.rotate180()\ns=[]\nz=Image.compose([x, y], lambda u, v, c: s.append((u, v, code(c[0]), code(c[1]))) or c[1])\nr=s==[(i%w, i//w, i, w*h-1-i) for i in range(w*h)] and [code(c) for c in z.to_list()]==list(reversed(range(w*h)))");
        ok(j, "crop", "r=all((y.width, y.height)==(1, 1) and code(y.to_list()[0])==u+v*w for u, v in ((w-1, h-1), (w//2, h//2), (w-1, 0), (0, h-1)) for y in [x.crop(u, v, 1, 1)])");
        ok(j, "turn", "r=[code(c) for c in x.rotate90().to_list()]==[(h-1-i%h)*w+i//h for i in range(w*h)] and [code(c) for c in x.flip_horizontal().to_list()]==[i//w*w+w-1-i%w for i in range(w*h)]");
    }
}

fn pixels_with(j: &mut Jobs, imgs: &BTreeMap<String, Image>, c: Rgb) {
    for n in ["a", "g", "n", "p"] {
        let i = &imgs[n];
        let (w, h) = (i.width() as i32, i.height() as i32);
        for y in -2..h + 2 {
            for x in -2..w + 2 {
                let inside = x >= 0 && y >= 0 && x < w && y < h;
                let at = inside.then(|| *i.get_pixel(x as u32, y as u32));
                let cl = *i.get_pixel(x.clamp(0, w - 1) as u32, y.clamp(0, h - 1) as u32);
                let opt = at.as_ref().map(jrgb).unwrap_or(NONE.into());
                j.pure("get", n, &format!("x.get_pixel({}, {})", x, y), &opt);
                j.pure("get", n, &format!("x.get_pixel(y={}, x={})", y, x), &opt);
                j.pure("clamped", n, &format!("x.get_pixel_clamped({}, {})", x, y), &jrgb(&cl));
                j.pure("inside", n, &format!("x.is_in_image({}, {})", x, y), &jb(inside));
                j.add("item", format!("r=I('{}')[{}, {}]", n, x, y), at.as_ref().map(jrgb).unwrap_or(jerr("OSError", &[])));
                // copies: changing the color does not change the image
                if inside {
                    j.add("item", format!("x=I('{}')\nc=x[{}, {}]\nc.red=0.9\nc.alpha=0.0\nc=x.get_pixel_clamped({}, {})\nc.blue=0.9\nr=x", n, x, y, x, y), jimg(i));
                    let mut after = i.clone();
                    after.put_pixel(x as u32, y as u32, c);
                    j.inplace("put", n, &format!("x.put_pixel({}, {}, {})", x, y, py(&c)), &after);
                    j.inplace("put", n, &format!("x.put_pixel(color={}, y={}, x={})", py(&c), y, x), &after);
                    j.add("put", format!("x=I('{}')\nx[{}, {}]={}\nr=x", n, x, y, py(&c)), jimg(&after));
                    j.add("put", format!("x=I('{}')\nc={}\nx.put_pixel({}, {}, c)\nc.red=0.0\nr=[x, c]", n, py(&c), x, y), jl(&[jimg(&after), jrgb(&c.with_red(0.0))]));
                } else {
                    // out of range: refused, nothing else changes
                    j.add("put/out", format!("x=I('{}')\ntry:\n  x.put_pixel({}, {}, {})\n  ok=True\nexcept BaseException: ok=False\nr=[ok, x]", n, x, y, py(&c)), jl(&[jb(false), jimg(i)]));
                    j.add("put/out", format!("x=I('{}')\ntry:\n  x[{}, {}]={}\n  ok=True\nexcept BaseException: ok=False\nr=[ok, x]", n, x, y, py(&c)), jl(&[jb(false), jimg(i)]));
                }
            }
        }
        for bad in ["x[0]", "x['a', 0]", "x[0, 0, 0]", "x[0.5, 0]", "x[0:1, 0]", "x.get_pixel(0)", "x.get_pixel('0', 0)", "x.get_pixel(2**40, 0)", "x.put_pixel(0, 0, 5)", "x.put_pixel(0, 0, (1, 1, 1))", "x.put_pixel(0, 0)", "x.put_pixel(0, 0, Hsl(0.1, 0.1, 0.1))", "x.nothing()", "x.__setitem__((0, 0), 3)"] {
            j.add("get/bad", format!("x=I('{}')\ntry:\n  {}\n  ok=True\nexcept Exception: ok=False\nr=[ok, x]", n, bad), jl(&[jb(false), jimg(i)]));
        }
    }
    for (x, y) in [(i32::MAX, 0), (i32::MIN, 0), (0, i32::MAX), (0, i32::MIN), (i32::MAX, i32::MIN)] {
        let i = &imgs["a"];
        let cl = i.get_pixel(x.clamp(0, 3) as u32, y.clamp(0, 2) as u32);
        j.pure("extreme", "a", &format!("x.get_pixel({}, {})", x, y), NONE);
        j.pure("extreme", "a", &format!("x.is_in_image({}, {})", x, y), &jb(false));
        j.pure("extreme", "a", &format!("x.get_pixel_clamped({}, {})", x, y), &jrgb(cl));
    }
}

fn f32s(v: &[f32]) -> Vec<f32> {
    v.to_vec()
}

fn operations(j: &mut Jobs, imgs: &BTreeMap<String, Image>, ctx: &Ctx) {
    let (filters, blends) = enum_names();
    let quick = ctx.quick();
    let names: Vec<String> = imgs.keys().filter(|n| *n != "e").cloned().collect();
    for n in &names {
        let n = n.as_str();
        let i = &imgs[n];
        let (w, h) = (i.width(), i.height());
        // geometry
        for (ox, oy, cw, ch) in [(0, 0, 1, 1), (1, 0, 2, 1), (0, 1, 1, 2), (0, 0, w, h), (1, 1, w, h), (2, 1, 2, 2), (w, 0, 1, 1), (0, h, 1, 1), (0, 0, 0, 0), (w - 1, h - 1, 5, 7)] {
            // crop decides on its own what is invalid
            let e = guard(|| i.crop(ox, oy, cw, ch)).map(|r| jimg(&r)).unwrap_or(REJ.into());
            let e2 = if e == REJ { REJ.to_string() } else { jl(&[e.clone(), jimg(i)]) };
            j.add("crop", format!("x=I('{}')\nr=[x.crop({}, {}, {}, {}), x]", n, ox, oy, cw, ch), e2);
            j.add("crop", format!("r=I('{}').crop(height={}, width={}, offset_y={}, offset_x={})", n, ch, cw, oy, ox), e);
        }
        for (m, r) in [("flip_horizontal", i.flip_horizontal()), ("flip_vertical", i.flip_vertical()), ("rotate90", i.rotate90()), ("rotate180", i.rotate180()), ("rotate270", i.rotate270())] {
            j.pure("geom", n, &format!("x.{}()", m), &jimg(&r));
        }
        for (k, v) in f32s(&[0.0, 33.0, -70.5, 90.0, 2.0, 180.0, 271.5]).into_iter().enumerate() {
            if quick && k % 2 == 1 && n != "a" {
                continue;
            }
            for (fname, f) in &filters {
                j.pure("rotate", n, &format!("x.rotate({}, '{}')", num(v), fname), &jimg(&i.rotate(v, *f)));
            }
            j.pure("rotate", n, &format!("x.rotate({})", num(v)), &jimg(&i.rotate(v, FilterMode::Bilinear)));
            j.pure("rotate", n, &format!("x.rotate(filter='nearest', radians={})", num(v)), &jimg(&i.rotate(v, FilterMode::Nearest)));
        }
        for (nw, nh) in [(1u32, 1u32), (2, 5), (5, 2), (w, h), (w * 2, h), (w, h * 2 + 1), (3, 1)] {
            for (fname, f) in &filters {
                j.pure("resize", n, &format!("x.resize({}, {}, '{}')", nw, nh, fname), &jimg(&i.resize(nw, nh, *f)));
            }
            j.pure("resize", n, &format!("x.resize({}, {})", nw, nh), &jimg(&i.resize(nw, nh, FilterMode::Bilinear)));
            j.pure("resize", n, &format!("x.resize(new_height={}, new_width={}, filter='bicubic')", nh, nw), &jimg(&i.resize(nw, nh, FilterMode::Bicubic)));
        }
        for v in f32s(&[1.0, 10.0, 33.3, 50.0, 99.0, 100.0, 120.0, 150.0, 210.0]) {
            for (fname, f) in &filters {
                j.pure("resize_pct", n, &format!("x.resize_pct({}, '{}')", num(v), fname), &jimg(&i.resize_pct(v, *f)));
            }
            j.pure("resize_pct", n, &format!("x.resize_pct(pct_100={})", num(v)), &jimg(&i.resize_pct(v, FilterMode::Bilinear)));
        }
        // filters
        for (m, e) in [("sobel", EdgeDetection::Sobel), ("default", EdgeDetection::Sobel), ("laplace", EdgeDetection::Laplace)] {
            j.pure("edge", n, &format!("x.edge_detection('{}')", m), &jimg(&i.edge_detection(e)));
            j.pure("edge", n, &format!("x.edge_detection(mode='{}')", m), &jimg(&i.edge_detection(e)));
        }
        j.pure("edge", n, "x.edge_detection()", &jimg(&i.edge_detection(EdgeDetection::Sobel)));
        j.pure("edge", n, "x.edge_detection(None)", &jimg(&i.edge_detection(EdgeDetection::Sobel)));
        for q in [0u8, 1, 20, 50, 85, 100] {
            // what an invalid quality does is not specified
            let run = |alpha| guard(|| i.with_jpeg_quality(q, alpha)).map(|r| jimg(&r)).ok();
            for (code, alpha) in [(format!("x.with_jpeg_quality({})", q), true), (format!("x.with_jpeg_quality({}, True)", q), true), (format!("x.with_jpeg_quality({}, False)", q), false), (format!("x.with_jpeg_quality(preserve_alpha=False, quality={})", q), false)] {
                match run(alpha) {
                    Some(e) => j.pure("jpeg", n, &code, &e),
                    None => j.add("jpeg", format!("x=I('{}')\nr={}", n, code), REJ),
                }
            }
        }
        for r in [0u32, 1, 2, 3] {
            j.pure("blur", n, &format!("x.gaussian_blur({})", r), &jimg(&i.gaussian_blur(r, None)));
            j.pure("unsharp", n, &format!("x.unsharp({})", r), &jimg(&i.unsharp(r, 1.0, None)));
            for s in f32s(&[0.4, 1.0, 2.5]) {
                j.pure("blur", n, &format!("x.gaussian_blur({}, {})", r, num(s)), &jimg(&i.gaussian_blur(r, Some(s))));
                j.pure("blur", n, &format!("x.gaussian_blur(sigma={}, radius={})", num(s), r), &jimg(&i.gaussian_blur(r, Some(s))));
                j.pure("unsharp", n, &format!("x.unsharp({}, sigma={})", r, num(s)), &jimg(&i.unsharp(r, 1.0, Some(s))));
                j.pure("unsharp", n, &format!("x.unsharp({}, {})", r, num(s)), &jimg(&i.unsharp(r, s, None)));
                j.pure("unsharp", n, &format!("x.unsharp({}, {}, 0.7)", r, num(s)), &jimg(&i.unsharp(r, s, Some(0.7))));
            }
            for (m, d) in [("gray", DrawingMode::Gray), ("colored", DrawingMode::Colored), ("default", DrawingMode::Colored), ("reduced_colors", DrawingMode::ReducedColors)] {
                j.pure("drawing", n, &format!("x.drawing({}, '{}')", r, m), &jimg(&i.drawing(r, d)));
            }
            j.pure("drawing", n, &format!("x.drawing(radius={})", r), &jimg(&i.drawing(r, DrawingMode::Colored)));
            if r <= h {
                if let Ok(e) = guard(|| i.interlace(r)) {
                    j.pure("interlace", n, &format!("x.interlace({})", r), &jimg(&e));
                    j.pure("interlace", n, &format!("x.interlace(offset={})", r), &jimg(&e));
                }
            }
            for (c, b) in [("True", true), ("False", false)] {
                j.pure("snn", n, &format!("x.symmetric_nearest_neighbor({}, {})", r, c), &jimg(&i.symmetric_nearest_neighbor(r as usize, b)));
                j.pure("snn", n, &format!("x.symmetric_nearest_neighbor(with_center={}, radius={})", c, r), &jimg(&i.symmetric_nearest_neighbor(r as usize, b)));
            }
            j.pure("snn", n, &format!("x.symmetric_nearest_neighbor({})", r), &jimg(&i.symmetric_nearest_neighbor(r as usize, true)));
        }
        j.pure("snn", n, "x.symmetric_nearest_neighbor()", &jimg(&i.symmetric_nearest_neighbor(4, true)));
        j.pure("snn", n, "x.symmetric_nearest_neighbor(with_center=False)", &jimg(&i.symmetric_nearest_neighbor(4, false)));
        for pal in ["p", "g", "n"] {
            let p = &imgs[pal];
            let e = i.apply_palette(p);
            j.pure("palette", n, &format!("x.apply_palette(I('{}'))", pal), &jimg(&e));
            j.pure("palette", n, &format!("x.apply_palette(palette=I('{}'))", pal), &jimg(&e));
            j.inplace("palette", n, &format!("x.apply_palette_in_place(I('{}'))", pal), &e);
            j.add("palette", format!("x=I('{}')\np=I('{}')\nx.apply_palette_in_place(palette=p)\nx.put_pixel(0, 0, Rgb(0, 0, 0))\nr=p", n, pal), jimg(p));
        }
        j.add("palette", format!("x=I('{}')\nr=x.apply_palette(x)", n), jimg(&i.apply_palette(i)));
        j.add("palette", format!("x=I('{}')\ntry:\n  x.apply_palette_in_place(x)\nexcept Exception: pass\nr=x", n), jimg(i));
        for t in f32s(&[0.0, 0.1, 0.4, 0.9]) {
            for am in [0u8, 1, 4, 9] {
                j.pure("despeckle", n, &format!("x.despeckle({}, {})", num(t), am), &jimg(&i.despeckle(t, am)));
                j.pure("despeckle", n, &format!("x.despeckle(amount={}, threshold={})", am, num(t)), &jimg(&i.despeckle(t, am)));
            }
            j.pure("despeckle", n, &format!("x.despeckle({})", num(t)), &jimg(&i.despeckle(t, 1)));
        }
        j.pure("despeckle", n, "x.despeckle()", &jimg(&i.despeckle(0.1, 1)));
        j.pure("despeckle", n, "x.despeckle(amount=5)", &jimg(&i.despeckle(0.1, 5)));
        for b in names.iter() {
            let o = &imgs[b.as_str()];
            if quick && b == "big" && n != "a" {
                continue;
            }
            for (bn, op) in &blends {
                for v in f32s(&[0.0, 0.35, 1.0, -0.5, 1.5]) {
                    if v.abs() > 1.0 && quick && n != "a" && n != "o" {
                        continue;
                    }
                    j.add("blend", format!("x=I('{}')\ny=I('{}')\nr=[x.blend(y, '{}', {}), x, y]", n, b, bn, num(v)), jl(&[jimg(&i.blend(o, op(), v)), jimg(i), jimg(o)]));
                }
                j.pure("blend", n, &format!("x.blend(blend_op='{}', image=I('{}'))", bn, b), &jimg(&i.blend(o, op(), 1.0)));
            }
            j.pure("blend", n, &format!("x.blend(I('{}'))", b), &jimg(&i.blend(o, BlendOp::Normal, 1.0)));
            j.pure("blend", n, &format!("x.blend(I('{}'), intensity=0.25)", b), &jimg(&i.blend(o, BlendOp::Normal, 0.25)));
        }
        j.pure("blend", n, "x.blend(x, 'subtract')", &jimg(&i.blend(i, BlendOp::Subtract, 1.0)));
        // tone
        for t in f32s(&[0.0, 0.5, 1.0, 20.0, 120.0, 400.0]) {
            j.pure("stretch", n, &format!("x.stretch_contrast({})", num(t)), &jimg(&i.stretch_contrast(t)));
            j.pure("stretch", n, &format!("x.stretch_contrast(threshold={})", num(t)), &jimg(&i.stretch_contrast(t)));
            j.pure("white", n, &format!("x.white_balance({})", num(t)), &jimg(&i.white_balance(t)));
            j.pure("white", n, &format!("x.white_balance(threshold={})", num(t)), &jimg(&i.white_balance(t)));
            for (m, b) in [("rgb", BalanceMode::Rgb), ("srgb", BalanceMode::Srgb), ("hsv", BalanceMode::Hsv), ("hsl", BalanceMode::Hsl), ("lch", BalanceMode::Lch)] {
                j.pure("balance", n, &format!("x.balance('{}', {})", m, num(t)), &jimg(&i.balance(b, t)));
                j.pure("balance", n, &format!("x.balance(threshold={}, mode='{}')", num(t), m), &jimg(&i.balance(b, t)));
            }
            j.pure("balance", n, &format!("x.balance(threshold={})", num(t)), &jimg(&i.balance(BalanceMode::Rgb, t)));
        }
        j.pure("stretch", n, "x.stretch_contrast()", &jimg(&i.stretch_contrast(0.5)));
        j.pure("white", n, "x.white_balance()", &jimg(&i.white_balance(0.5)));
        j.pure("balance", n, "x.balance()", &jimg(&i.balance(BalanceMode::Rgb, 0.5)));
        j.pure("balance", n, "x.balance('lch')", &jimg(&i.balance(BalanceMode::Lch, 0.5)));
        for (m, e) in [("rgb", EqualizeMode::Rgb), ("srgb", EqualizeMode::Srgb), ("saturation", EqualizeMode::Saturation), ("lightness", EqualizeMode::Lightness), ("saturation_lightness", EqualizeMode::SaturationLightness)] {
            j.pure("equalize", n, &format!("x.equalize('{}')", m), &jimg(&i.equalize(e)));
            j.pure("equalize", n, &format!("x.equalize(mode='{}')", m), &jimg(&i.equalize(e)));
        }
        j.pure("equalize", n, "x.equalize()", &jimg(&i.equalize(EqualizeMode::Srgb)));
        for v in f32s(&[0.2, 0.7, 1.0, 1.6]) {
            for (m, s) in [("hsl", SaturationMode::Hsl), ("default", SaturationMode::Hsl), ("hsv", SaturationMode::Hsv), ("lch", SaturationMode::Lch)] {
                j.pure("optsat", n, &format!("x.optimize_saturation({}, '{}')", num(v), m), &jimg(&i.optimize_saturation(v, s)));
                j.pure("optsat", n, &format!("x.optimize_saturation(mode='{}', offset={})", m, num(v)), &jimg(&i.optimize_saturation(v, s)));
            }
            j.pure("optsat", n, &format!("x.optimize_saturation({})", num(v)), &jimg(&i.optimize_saturation(v, SaturationMode::Hsl)));
            j.pure("optlight", n, &format!("x.optimize_lightness({})", num(v)), &jimg(&i.optimize_lightness(v)));
            j.pure("optlight", n, &format!("x.optimize_lightness(factor={})", num(v)), &jimg(&i.optimize_lightness(v)));
            j.pure("opttemp", n, &format!("x.optimize_color_temperature({})", num(v)), &jimg(&i.optimize_color_temperature(v, 0.0)));
            for t in f32s(&[-0.3, 0.2]) {
                j.pure("opttemp", n, &format!("x.optimize_color_temperature({}, {})", num(v), num(t)), &jimg(&i.optimize_color_temperature(v, t)));
                j.pure("opttemp", n, &format!("x.optimize_color_temperature(tint_correction={}, factor={})", num(t), num(v)), &jimg(&i.optimize_color_temperature(v, t)));
            }
        }
        j.pure("optsat", n, "x.optimize_saturation()", &jimg(&i.optimize_saturation(1.0, SaturationMode::Hsl)));
        j.pure("optsat", n, "x.optimize_saturation(mode='lch')", &jimg(&i.optimize_saturation(1.0, SaturationMode::Lch)));
        for (o, t) in [(6500.0f32, 6500.0f32), (5000.0, 6500.0), (6500.0, 5000.0), (2500.0, 9000.0), (9000.0, 2500.0)] {
            j.pure("temp", n, &format!("x.change_color_temperature({}, {})", num(o), num(t)), &jimg(&i.change_color_temperature(o, t, 0.0)));
            for c in f32s(&[-0.3, 0.2]) {
                j.pure("temp", n, &format!("x.change_color_temperature({}, {}, {})", num(o), num(t), num(c)), &jimg(&i.change_color_temperature(o, t, c)));
                j.pure("temp", n, &format!("x.change_color_temperature(tint_correction={}, new_temp={}, orig_temp={})", num(c), num(t), num(o)), &jimg(&i.change_color_temperature(o, t, c)));
            }
        }
        // noise: nothing at strength 0, the outcomes of its kind otherwise
        for m in ["random_noise", "salt_n_pepper_noise", "rgb_noise", "gaussian_noise"] {
            j.pure("noise", n, &format!("x.{}(0.0)", m), &jimg(i));
            j.inplace("noise", n, &format!("x.add_{}(0.0)", m), i);
            let arg = if m == "salt_n_pepper_noise" || m == "rgb_noise" { "threshold" } else { "alpha" };
            j.pure("noise", n, &format!("x.{}({}=0.0)", m, arg), &jimg(i));
            j.inplace("noise", n, &format!("x.add_{}({}=0.0)", m, arg), i);
            // size and alpha stay (salt and pepper are opaque), the receiver of the copying variant too
            let alpha = if m == "salt_n_pepper_noise" { "q.alpha in (1, p.alpha)" } else { "p.alpha==q.alpha" };
            j.add("noise", format!("x=I('{}')\ny=x.{}(1.0)\nr=[x, y.width, y.height, all({} for p, q in zip(x.to_list(), y.to_list()))]", n, m, alpha), jl(&[jimg(i), jf(w as f64), jf(h as f64), jb(true)]));
            j.add("noise", format!("x=I('{}')\ny=I('{}')\nq=y.add_{}(1.0)\nr=[q, y.width, y.height, all({} for p, q in zip(x.to_list(), y.to_list()))]", n, n, m, alpha), jl(&[NONE.into(), jf(w as f64), jf(h as f64), jb(true)]));
        }
        for call in ["y=x.salt_n_pepper_noise(1.0)", "y=I(N)\ny.add_salt_n_pepper_noise(1.0)"] {
            j.add("noise/salt", format!("N='{}'\nx=I(N)\n{}\nr=all((p.red, p.green, p.blue) in ((0, 0, 0), (1, 1, 1)) for p in y.to_list())", n, call), jb(true));
        }
        if w * h >= 100 {
            // with 187 pixels and more: no change at all, or only white ones, has a probability below 2^-180
            for call in ["y=x.{}(1.0)", "y=I(N)\ny.add_{}(1.0)"] {
                for m in ["random_noise", "salt_n_pepper_noise", "rgb_noise", "gaussian_noise"] {
                    j.add("noise/some", format!("N='{}'\nx=I(N)\n{}\nr=any(p!=q for p, q in zip([(c.red, c.green, c.blue) for c in x.to_list()], [(c.red, c.green, c.blue) for c in y.to_list()]))", n, call.replace("{}", m)), jb(true));
                }
            }
        }
    }
    // names that do not exist, arguments of a wrong type: an error that leaves the image alone
    let mut bad: Vec<String> = vec![];
    for b in BAD {
        for m in ["rotate(0.5, '{}')", "resize(2, 2, '{}')", "resize_pct(50.0, '{}')", "edge_detection('{}')", "drawing(1, '{}')", "blend(I('o'), '{}')", "optimize_saturation(1.0, '{}')", "balance('{}')", "equalize('{}')"] {
            if m.starts_with("equalize") || m.starts_with("balance") || m.starts_with("blend") || b != "default " {
                bad.push(m.replace("{}", b));
            }
        }
    }
    for call in &bad {
        let i = &imgs["a"];
        j.add("badname", format!("x=I('a')\ntry:\n  x.{}\n  e=''\nexcept Exception as ex: e=type(ex).__name__\nr=[e, x]", call), jl(&[jstr("OSError"), jimg(i)]));
    }
    for call in ["rotate('x')", "rotate()", "resize(2)", "resize(-1, 2)", "resize(2, 2.5)", "resize_pct('50')", "crop(0, 0, 1)", "crop(-1, 0, 1, 1)", "edge_detection(5)", "with_jpeg_quality(256)", "with_jpeg_quality(-1)", "gaussian_blur(-1)", "gaussian_blur(1, 'a')", "drawing()", "apply_palette(5)", "apply_palette_in_place(None)", "despeckle(0.1, 300)", "blend(5)", "blend()", "stretch_contrast('a')", "optimize_lightness()", "change_color_temperature(6500)", "interlace(-1)", "mod_colors(5)", "map_colors(None)", "flip_horizontal(1)", "random_noise()", "symmetric_nearest_neighbor(-1)", "unknown()", "save()", "save(5)", "save('x.png', 5)", "to_list(1)"] {
        j.add("badtype", format!("x=I('a')\ntry:\n  x.{}\n  ok=True\nexcept Exception: ok=False\nr=[ok, x]", call), jl(&[jb(false), jimg(&imgs["a"])]));
    }
}

fn callbacks(j: &mut Jobs, imgs: &BTreeMap<String, Image>) {
    let fun = |c: &Rgb| c.invert();
    for (n, i) in imgs {
        let n = n.as_str();
        let w = i.width() as usize;
        let mapped = i.map_colors(fun);
        j.pure("map", n, "x.map_colors((lambda c: c.invert()).__get__(1).__func__)", &jimg(&mapped));
        j.pure("map", n, "x.map_colors(lambda c: c.invert())", &jimg(&mapped));
        j.pure("map", n, "x.map_colors(func=lambda c: c.invert())", &jimg(&mapped));
        j.inplace("mod", n, "x.mod_colors(lambda c: c.invert())", &mapped);
        j.inplace("mod", n, "x.mod_colors(func=lambda c: c.invert())", &mapped);
        let mut k = i.clone();
        k.mod_colors_enumerated(|x, y, c| Rgb { data: [x as f32 / 32.0, y as f32 / 32.0, c.data[0], c.data[3]] });
        let l = "lambda u, v, c: Rgb(u/32, v/32, c.red, c.alpha)";
        j.pure("map", n, &format!("x.map_colors_enumerated({})", l), &jimg(&k));
        j.inplace("mod", n, &format!("x.mod_colors_enumerated({})", l), &k);
        // alpha may change, too
        let mut k = i.clone();
        k.mod_colors(|c| Rgb { data: [c.data[1], c.data[2], c.data[0], c.data[3] / 2.0] });
        let l = "lambda c: Rgb(c.green, c.blue, c.red, c.alpha/2)";
        j.pure("map", n, &format!("x.map_colors({})", l), &jimg(&k));
        j.inplace("mod", n, &format!("x.mod_colors({})", l), &k);
        let mut k = i.clone();
        k.mod_colors(|c| Rgb { data: [c.data[1], c.data[2], c.data[0], 0.0] });
        let l = "lambda c: Rgb(c.green, c.blue, c.red, 0)";
        j.pure("map", n, &format!("x.map_colors({})", l), &jimg(&k));
        j.inplace("mod", n, &format!("x.mod_colors({})", l), &k);
        // every pixel once, row by row, with its coordinates
        let all = jl(&i.data().iter().map(jrgb).collect::<Vec<_>>());
        let coords = jl(&i.data().iter().enumerate().map(|(p, c)| jl(&[jf((p % w) as f64), jf((p / w) as f64), jrgb(c)])).collect::<Vec<_>>());
        for m in ["map_colors", "mod_colors"] {
            j.add("calls", format!("x=I('{}')\ns=[]\ndef f(c):\n  s.append(c)\n  return Rgb(0, 0, 0)\nx.{}(f)\nr=s", n, m), all.clone());
            j.add("calls", format!("x=I('{}')\ns=[]\ndef f(u, v, c):\n  s.append((u, v, c))\n  return Rgb(0, 0, 0)\nx.{}_enumerated(f)\nr=s", n, m), coords.clone());
            // the color handed out is a copy
            let kept = if m == "map_colors" { i.clone() } else { i.map_colors(|_| Rgb { data: [0.5, 0.5, 0.5, 1.0] }) };
            j.add("calls", format!("x=I('{}')\ns=[]\ndef f(c):\n  c.red=0.125\n  s.append(c)\n  return Rgb(0.5, 0.5, 0.5)\nx.{}(f)\nfor c in s: c.green=0.25\nr=x", n, m), jimg(&kept));
        }
        if i.data().is_empty() {
            continue;
        }
        // the callback fails at the k-th pixel
        for k in 0..i.data().len().min(13) {
            for (what, exc) in [("raise ValueError('boom%d' % len(s))", ("ValueError", "boom")), ("return 5", ("TypeError", "")), ("return None", ("TypeError", "")), ("return Hsl(0.1, 0.2, 0.3)", ("TypeError", "")), ("raise KeyError('k')", ("KeyError", "'k'"))] {
                for m in ["map_colors", "mod_colors", "map_colors_enumerated", "mod_colors_enumerated"] {
                    let args = if m.ends_with("enumerated") { "u, v, c" } else { "c" };
                    let after = if m.starts_with("map") {
                        i.clone()
                    } else {
                        // what the Rust method leaves behind in the same situation
                        let cnt = std::cell::Cell::new(0);
                        let mut img = i.clone();
                        let _ = img.try_mod_colors(|c| {
                            cnt.set(cnt.get() + 1);
                            if cnt.get() > k { Err(()) } else { Ok(c.invert()) }
                        });
                        img
                    };
                    j.add(
                        "fail",
                        format!("x=I('{}')\ns=[]\ndef f({}):\n  s.append(c)\n  if len(s)>{}:\n    {}\n  return c.invert()\ntry:\n  x.{}(f)\n  e=('', '')\nexcept Exception as ex: e=(type(ex).__name__, str(ex))\nr=[e[0], {}, len(s), x]", n, args, k, what, m, if exc.1.is_empty() { "''".to_string() } else { "e[1]".to_string() }),
                        jl(&[jstr(exc.0), jstr(&if exc.1 == "boom" { format!("boom{}", k + 1) } else { exc.1.to_string() }), jf(k as f64 + 1.0), jimg(&after)]),
                    );
                }
            }
        }
        // re-entrancy: reading is fine while mapping; changing the image in between is refused
        j.add("reenter", format!("x=I('{}')\nr=x.map_colors(lambda c: x.get_pixel_clamped(0, 0))", n), jimg(&i.map_colors(|_| *i.get_pixel(0, 0))));
        j.add("reenter", format!("x=I('{}')\nr=x.map_colors_enumerated(lambda u, v, c: x[u, v])", n), jimg(i));
        for m in ["map_colors(lambda c: x.put_pixel(0, 0, c) or c)", "mod_colors(lambda c: x.put_pixel(0, 0, c) or c)", "mod_colors(lambda c: x[0, 0])", "mod_colors(lambda c: x.mod_colors(lambda d: d) or c)", "map_colors(lambda c: x.mod_colors(lambda d: d) or c)"] {
            j.add("reenter", format!("x=I('{}')\nx.{}\nr=0", n, m), jerr("RuntimeError", &[]));
        }
        // the image can still be used afterwards
        j.add("reenter", format!("x=I('{}')\ntry:\n  x.mod_colors(lambda c: 1/0)\nexcept ZeroDivisionError: pass\nx.mod_colors(lambda c: Rgb(1, 1, 1))\nr=x", n), jimg(&i.map_colors(|_| Rgb::WHITE)));
    }
    // whatever the callback raises reaches the caller as it is
    j.add(
        "raise",
        "x=I('a')\nclass Own(Exception): pass\nclass Base(BaseException): pass\nb=[]\nfor E in (Own, Base, StopIteration, StopAsyncIteration, GeneratorExit, KeyboardInterrupt, SystemExit, AssertionError, OSError, RuntimeError, MemoryError, TypeError, AttributeError, IndexError, RecursionError, NotImplementedError, Warning, UnicodeError, OverflowError, BufferError, EOFError):\n  for m in ('map_colors', 'mod_colors', 'map_colors_enumerated', 'mod_colors_enumerated', 'compose', 'channels'):\n    o=E('k')\n    n=[0]\n    def f(*a):\n      n[0]+=1\n      raise o\n    try:\n      if m=='compose': Image.compose([x, x], f)\n      elif m=='channels': Rgb(0.1, 0.2, 0.3).map_color_channels(f)\n      else: getattr(x, m)(f)\n      b.append((E.__name__, m, 'nothing raised'))\n    except BaseException as e:\n      if e is not o or n[0]!=1: b.append((E.__name__, m, type(e).__name__, n[0]))\nr=[str(b), x]",
        jl(&[jstr("[]"), jimg(&imgs["a"])]),
    );
    j.add("calls", "r=I('a').map_colors(lambda: 1)", jerr("TypeError", &[]));
    j.add("calls", "r=I('a').map_colors_enumerated(lambda c: c)", jerr("TypeError", &[]));
}

fn compose(j: &mut Jobs, imgs: &BTreeMap<String, Image>) {
    let names = ["a", "o", "g", "p", "n"];
    let d = Rgb { data: [0.1, 0.9, 0.4, 0.3] };
    let mix = |cs: &[Rgb]| {
        let mut v = [0.0f32; 4];
        for (k, c) in cs.iter().enumerate() {
            for i in 0..4 {
                v[i] += c.data[i] * [0.5, 0.3, 0.2][k];
            }
        }
        Rgb { data: [v[0].clamp(0.0, 1.0), v[1].clamp(0.0, 1.0), v[2].clamp(0.0, 1.0), v[3].clamp(0.0, 1.0)] }
    };
    let pyf = "def f(u, v, cs):\n  k=(0.5, 0.3, 0.2)\n  s.append((u, v, list(cs)))\n  return Rgb(*[sum(w*getattr(c, n) for w, c in zip(k, cs)) for n in ('red', 'green', 'blue', 'alpha')])";
    let mut lists: Vec<Vec<&str>> = names.iter().map(|n| vec![*n]).collect();
    for a in names {
        for b in names {
            lists.push(vec![a, b]);
            for c in ["a", "n"] {
                lists.push(vec![a, b, c]);
            }
        }
    }
    for l in &lists {
        let refs: Vec<&Image> = l.iter().map(|n| &imgs[*n]).collect();
        for (arg, dv) in [("".to_string(), Rgb::default()), (format!(", {}", py(&d)), d), (format!(", default={}", py(&d)), d)] {
            let mut calls = vec![];
            let e = Image::compose_slice(&refs, dv, |x, y, cs| {
                calls.push(jl(&[jf(x as f64), jf(y as f64), jl(&cs.iter().map(jrgb).collect::<Vec<_>>())]));
                mix(cs)
            });
            j.add("compose", format!("s=[]\n{}\nr=[Image.compose([{}], f{}), s]", pyf, l.iter().map(|n| format!("I('{}')", n)).collect::<Vec<_>>().join(", "), arg), jl(&[jimg(&e), jl(&calls)]));
        }
        j.add("compose/fail", format!("def f(u, v, cs): raise ValueError('%d-%d' % (u, v))\nr=Image.compose([{}], f)", l.iter().map(|n| format!("I('{}')", n)).collect::<Vec<_>>().join(", ")), jerr("ValueError", &["0-0"]));
    }
    j.add("compose", "x=I('a')\nr=[Image.compose([x, x], lambda u, v, cs: cs[1]), x]", jl(&[jimg(&imgs["a"]), jimg(&imgs["a"])]));
    for n in [4usize, 5, 8, 9, 15, 16, 17, 33, 64, 65, 100, 255, 256, 257, 1000] {
        j.add("compose/many", format!("v=[Image(1 + k % 3, 1 + k % 2) for k in range({n})]\nfor k in range({n}): v[k].mod_colors(lambda c: Rgb(k / 1024, 0, 0))\ns=[]\nz=Image.compose(v, lambda x, y, c: s.append((x, y, len(c), all(q.red == (k / 1024 if x < 1 + k % 3 and y < 1 + k % 2 else 0.5) for k, q in enumerate(c)))) or c[-1], Rgb(0.5, 0, 0))\nr=s==[(x, y, {n}, True) for y in range(2) for x in range(3)] and z.width==3 and z.height==2"), jb(true));
    }
    for bad in ["Image.compose([5], lambda u, v, c: c[0])", "Image.compose([I('a'), None], lambda u, v, c: c[0])", "Image.compose(I('a'), lambda u, v, c: c[0])", "Image.compose([I('a')], 5)", "Image.compose([I('a')], lambda u, v, c: 5)", "Image.compose([I('a')], lambda u: u)", "Image.compose([I('a')], lambda u, v, c: c[0], 5)"] {
        j.add("compose/bad", format!("r={}", bad), jerr("TypeError", &[]));
    }
    j.add("compose/bad", "r=Image.compose([], lambda u, v, c: Rgb(0, 0, 0))", REJ);
}

fn files(j: &mut Jobs, imgs: &BTreeMap<String, Image>, ctx: &Ctx) {
    use EncodingFormat as F;
    let mut formats: Vec<(String, EncodingFormat)> = vec![];
    let quals: Vec<Option<u8>> = vec![None, Some(0), Some(1), Some(40), Some(85), Some(100), Some(255)];
    use JpegSamplingFactor::*;
    let samp: Vec<(Option<&str>, Option<JpegSamplingFactor>)> = vec![
        (None, None), (Some("1x1"), Some(F_1_1)), (Some("1x2"), Some(F_1_2)), (Some("2x1"), Some(F_2_1)), (Some("2x2"), Some(F_2_2)), (Some("4x1"), Some(F_4_1)), (Some("4x2"), Some(F_4_2)), (Some("1x4"), Some(F_1_4)), (Some("2x4"), Some(F_2_4)),
        (Some("4:4:4"), Some(R_4_4_4)), (Some("4:4:0"), Some(R_4_4_0)), (Some("4:4:1"), Some(R_4_4_1)), (Some("4:2:2"), Some(R_4_2_2)), (Some("4:2:0"), Some(R_4_2_0)), (Some("4:2:1"), Some(R_4_2_1)), (Some("4:1:1"), Some(R_4_1_1)), (Some("4:1:0"), Some(R_4_1_0)),
    ];
    let opt = |b: Option<bool>| match b { None => "None", Some(true) => "True", Some(false) => "False" };
    for q in &quals {
        for (pn, pv) in [(None, false), (Some(true), true), (Some(false), false)] {
            for (gn, gv) in [(None, false), (Some(true), true), (Some(false), false)] {
                for (on, ov) in [(None, true), (Some(true), true), (Some(false), false)] {
                    for (sn, sv) in samp.iter().step_by(if *q == Some(40) { 1 } else { 4 }) {
                        let quality = q.unwrap_or(85);
                        let qs = q.map(|v| v.to_string()).unwrap_or("None".into());
                        let ss = sn.map(|s| format!("'{}'", s)).unwrap_or("None".into());
                        let f = F::Jpeg { quality, progressive: pv, sampling_factor: *sv, grayscale: gv, optimize_huffman_tables: ov };
                        formats.push((format!("EncodingFormat.jpeg({}, {}, {}, {}, {})", qs, opt(pn), ss, opt(gn), opt(on)), f.clone()));
                        let mut kw = vec![];
                        if on.is_some() { kw.push(format!("optimize_huffman_tables={}", opt(on))); }
                        if gn.is_some() { kw.push(format!("grayscale={}", opt(gn))); }
                        if sn.is_some() { kw.push(format!("sampling_factor={}", ss)); }
                        if pn.is_some() { kw.push(format!("progressive={}", opt(pn))); }
                        if q.is_some() { kw.push(format!("quality={}", qs)); }
                        formats.push((format!("EncodingFormat.jpeg({})", kw.join(", ")), f));
                    }
                }
            }
        }
    }
    let cts = [("l8", PngColorType::L8), ("la8", PngColorType::La8), ("l16", PngColorType::L16), ("la16", PngColorType::La16), ("rgb8", PngColorType::Rgb8), ("rgba8", PngColorType::Rgba8), ("rgb16", PngColorType::Rgb16), ("rgba16", PngColorType::Rgba16)];
    let cps = [("default", PngCompression::Default), ("fast", PngCompression::Fast), ("best", PngCompression::Best)];
    let fts = [("no_filter", PngFilterType::NoFilter), ("sub", PngFilterType::Sub), ("up", PngFilterType::Up), ("avg", PngFilterType::Avg), ("paeth", PngFilterType::Paeth)];
    for (cn, c) in cts {
        formats.push((format!("EncodingFormat.png('{}')", cn), F::Png { color_type: c, compression: PngCompression::Default, filter: PngFilterType::Sub }));
        for (pn, p) in cps {
            for (fnn, f) in fts {
                formats.push((format!("EncodingFormat.png('{}', '{}', '{}')", cn, pn, fnn), F::Png { color_type: c, compression: p, filter: f }));
                formats.push((format!("EncodingFormat.png(filter='{}', compression='{}', color_type='{}')", fnn, pn, cn), F::Png { color_type: c, compression: p, filter: f }));
            }
        }
    }
    for (fnn, f) in fts {
        formats.push((format!("EncodingFormat.png(filter='{}')", fnn), F::Png { color_type: PngColorType::Rgba8, compression: PngCompression::Default, filter: f }));
    }
    for (pn, p) in cps {
        formats.push((format!("EncodingFormat.png(compression='{}')", pn), F::Png { color_type: PngColorType::Rgba8, compression: p, filter: PngFilterType::Sub }));
    }
    formats.push(("EncodingFormat.png()".into(), F::Png { color_type: PngColorType::Rgba8, compression: PngCompression::Default, filter: PngFilterType::Sub }));
    formats.push(("EncodingFormat.gif()".into(), F::Gif));
    for (n, c) in [("l8", BmpColorType::L8), ("la8", BmpColorType::La8), ("rgb8", BmpColorType::Rgb8), ("rgba8", BmpColorType::Rgba8)] {
        formats.push((format!("EncodingFormat.bmp('{}')", n), F::Bmp { color_type: c }));
        formats.push((format!("EncodingFormat.bmp(color_type='{}')", n), F::Bmp { color_type: c }));
    }
    formats.push(("EncodingFormat.bmp()".into(), F::Bmp { color_type: BmpColorType::Rgba8 }));
    for (n, c) in [("l8", IcoColorType::L8), ("la8", IcoColorType::La8), ("rgb8", IcoColorType::Rgb8), ("rgba8", IcoColorType::Rgba8)] {
        formats.push((format!("EncodingFormat.ico('{}')", n), F::Ico { color_type: c }));
        formats.push((format!("EncodingFormat.ico(color_type='{}')", n), F::Ico { color_type: c }));
    }
    formats.push(("EncodingFormat.ico()".into(), F::Ico { color_type: IcoColorType::Rgba8 }));
    for (n, p) in [("default", WebPPreset::Default), ("picture", WebPPreset::Picture), ("photo", WebPPreset::Photo), ("drawing", WebPPreset::Drawing), ("icon", WebPPreset::Icon), ("text", WebPPreset::Text), ("lossless", WebPPreset::Lossless)] {
        formats.push((format!("EncodingFormat.webp(preset='{}')", n), F::WebP { quality: 85, preset: p.clone() }));
        for q in [0u8, 1, 50, 85, 100] {
            formats.push((format!("EncodingFormat.webp({}, '{}')", q, n), F::WebP { quality: q, preset: p.clone() }));
        }
    }
    for q in [0u8, 1, 50, 100] {
        formats.push((format!("EncodingFormat.webp({})", q), F::WebP { quality: q, preset: WebPPreset::Default }));
    }
    formats.push(("EncodingFormat.webp()".into(), F::WebP { quality: 85, preset: WebPPreset::Default }));
    let on: Vec<&str> = ctx.pick(vec!["o", "big"], vec!["o", "big", "a", "n", "m"]);
    for n in on {
        let i = &imgs[n];
        for (code, f) in &formats {
            match i.save_to_buffer(f.clone()) {
                Ok(b) => {
                    j.add("format", format!("x=I('{}')\nx.save('f.dat', {})\nr=[open('f.dat', 'rb').read(), x]", n, code), jl(&[jhex(&b), jimg(i)]));
                }
                Err(_) => j.add("format", format!("x=I('{}')\nx.save('f.dat', {})\nr=1", n, code), jerr("OSError", &[])),
            }
        }
    }
    // one format object used twice, given as a keyword
    let i = &imgs["o"];
    let b = i.save_to_buffer(F::Bmp { color_type: BmpColorType::L8 }).unwrap();
    j.add("format", "f=EncodingFormat.bmp('l8')\nx=I('o')\nx.save(path='f1.dat', format=f)\nx.save('f2.dat', f)\nr=[open('f1.dat', 'rb').read(), open('f2.dat', 'rb').read()]", jl(&[jhex(&b), jhex(&b)]));
    for bad in [
        "EncodingFormat.jpeg(256)", "EncodingFormat.jpeg(-1)", "EncodingFormat.jpeg('a')", "EncodingFormat.jpeg(sampling_factor='foo')", "EncodingFormat.jpeg(sampling_factor='')", "EncodingFormat.png('foo')", "EncodingFormat.png('RGB8')", "EncodingFormat.png(compression='foo')", "EncodingFormat.png(filter='foo')", "EncodingFormat.bmp('rgba16')",
        "EncodingFormat.bmp('')", "EncodingFormat.ico('l16')", "EncodingFormat.webp(300)", "EncodingFormat.webp(preset='foo')", "EncodingFormat.gif(1)", "EncodingFormat()", "EncodingFormat.tiff()",
    ] {
        j.add("format/bad", format!("r={}", bad), jerr("", &[]));
    }
    // by extension
    for ext in ["png", "jpg", "jpeg", "gif", "bmp", "ico", "webp", "PNG", "Jpg"] {
        for n in ["o", "big"] {
            let i = &imgs[n];
            let path = format!("{}/ref22.{}", scratch(), ext);
            i.save(&path).unwrap();
            let b = std::fs::read(&path).unwrap();
            let back = Image::open(&path).unwrap();
            j.add("ext", format!("x=I('{}')\nq=x.save('f.{}')\nr=[q, open('f.{}', 'rb').read(), x, Image.open('f.{}')]", n, ext, ext, ext), jl(&[NONE.into(), jhex(&b), jimg(i), jimg(&back)]));
            j.add("ext", format!("open('k.{}', 'wb').write(b'x'*20000)\nx=I('{}')\nx.save('k.{}')\nr=open('k.{}', 'rb').read()", ext, n, ext, ext), jhex(&b));
        }
    }
    for (path, parts) in [("f.xyz", vec![]), ("f", vec![]), ("", vec![]), ("nodir/f.png", vec![]), ("f.", vec![]), (".png/f", vec![])] {
        j.add("ext/bad", format!("x=I('o')\ntry:\n  x.save('{}')\n  e=''\nexcept Exception as ex: e=type(ex).__name__\nr=[e, x]", path), jl(&[jstr("OSError"), jimg(&imgs["o"])]));
        let _: Vec<&str> = parts;
    }
    j.add("ext/bad", "import os\nx=I('o')\ntry:\n  x.save('q.xyz')\nexcept OSError: pass\nr=os.path.exists('q.xyz')", jb(false));
    for open in ["'gone.png'", "'.'", "''", "'/nonexistent/x.png'"] {
        j.add("open/bad", format!("r=Image.open({})", open), jerr("OSError", &[]));
    }
    j.add("open/bad", "open('junk.png', 'wb').write(b'hello world, this is no image')\nr=Image.open('junk.png')", jerr("OSError", &[]));
    j.add("open/bad", "x=I('o')\nx.save('t.png')\nd=open('t.png', 'rb').read()\nopen('t.png', 'wb').write(d[:len(d)//2])\nr=Image.open('t.png')", jerr("OSError", &[]));
    j.add("open/bad", "r=Image.open(5)", jerr("TypeError", &[]));
    j.add("open/bad", "r=Image.open()", jerr("TypeError", &[]));
    j.add("open/bad", "r=Image.open(path=None)", jerr("TypeError", &[]));
    // the image is independent of the file
    j.add("open", "x=I('o')\nx.save('v.png', EncodingFormat.png('rgba8'))\ny=Image.open(path='v.png')\nopen('v.png', 'wb').write(b'')\nz=y.flip_horizontal().flip_horizontal()\nr=[y.width, y.height, z.to_list()==y.to_list()]", jl(&[jf(5.0), jf(4.0), jb(true)]));
}

macro_rules! color_class {
    ($j:expr, $class:literal, $t:ty, $n1:ident, $n2:ident, $n3:ident, $w1:ident, $w2:ident, $w3:ident, $s1:ident, $s2:ident, $s3:ident, $vals:expr) => {{
        let j: &mut Jobs = $j;
        let cl = $class;
        let mk = |v: &[f32; 4]| <$t>::new_with_alpha(v[0], v[1], v[2], v[3]);
        let jc = |c: &$t| jcol(cl, c.data());
        let names = [stringify!($n1), stringify!($n2), stringify!($n3)];
        for v in $vals.iter() {
            let v: &[f32; 4] = v;
            let c = mk(v);
            let o = <$t>::new_with_alpha(v[0], v[1], v[2], 1.0);
            let full = format!("{}({})", cl, nums(*v));
            let g = format!("color/{}", cl);
            j.add(&g, format!("r={}", full), jc(&c));
            j.add(&g, format!("r={}({})", cl, nums([v[0], v[1], v[2]])), jc(&o));
            j.add(&g, format!("r={}({}, None)", cl, nums([v[0], v[1], v[2]])), jc(&o));
            j.add(&g, format!("r={}(alpha={}, {}={}, {}={}, {}={})", cl, num(v[3]), names[2], num(v[2]), names[0], num(v[0]), names[1], num(v[1])), jc(&c));
            j.add(&g, format!("c={}\nr=[c.type_name, str(c), repr(c), c.has_transparency()]", full), jl(&[jstr(c.type_name()), jstr(&c.to_string()), jstr(&c.to_string()), jb(c.has_transparency())]));
            j.add(&g, format!("c={}\nr=[c.{}, c.{}, c.{}, c.alpha]", full, names[0], names[1], names[2]), jl(&[jf(c.$n1() as f64), jf(c.$n2() as f64), jf(c.$n3() as f64), jf(c.alpha() as f64)]));
            for x in [-0.5f32, 0.0, 0.31, 1.0, 1.5] {
                for (k, w) in [c.$w1(x), c.$w2(x), c.$w3(x)].iter().enumerate() {
                    j.add(&g, format!("c={}\nr=[c.with_{}({}), c]", full, names[k], num(x)), jl(&[jc(w), jc(&c)]));
                    j.add(&g, format!("c={}\nr=c.with_{}({}={})", full, names[k], names[k], num(x)), jc(w));
                }
                let mut s = [c, c, c, c];
                s[0].$s1(x);
                s[1].$s2(x);
                s[2].$s3(x);
                s[3].set_alpha(x);
                for (k, s) in s.iter().enumerate() {
                    let n = if k == 3 { "alpha" } else { names[k] };
                    j.add(&g, format!("c={}\nd={}\nc.{}={}\nr=[c, c.{}, d]", full, full, n, num(x), n), jl(&[jc(s), jf(s.data()[k] as f64), jc(&c)]));
                }
                j.add(&g, format!("c={}\nr=[c.with_alpha({}), c]", full, num(x)), jl(&[jc(&c.with_alpha(x)), jc(&c)]));
            }
            j.add(&g, format!("c={}\nr=[c.to_rgb(), c.to_srgb(), c.to_hsl(), c.to_hsv(), c.to_yuv(), c.to_xyz(), c]", full), jl(&[jrgb(&c.to_rgb()), jcol("Srgb", &c.to_srgb().data), jcol("Hsl", &c.to_hsl().data), jcol("Hsv", &c.to_hsv().data), jcol("Yuv", &c.to_yuv().data), jcol("Xyz", &c.to_xyz().data), jc(&c)]));
            let labs: [(&str, &str, String, String); 6] = [
                ("D65", "2", jcol("LabD65O2", &c.to_lab::<D65, O2>().data), jcol("LchD65O2", &c.to_lch::<D65, O2>().data)),
                ("D65", "10", jcol("LabD65O10", &c.to_lab::<D65, O10>().data), jcol("LchD65O10", &c.to_lch::<D65, O10>().data)),
                ("D50", "2", jcol("LabD50O2", &c.to_lab::<D50, O2>().data), jcol("LchD50O2", &c.to_lch::<D50, O2>().data)),
                ("D50", "10", jcol("LabD50O10", &c.to_lab::<D50, O10>().data), jcol("LchD50O10", &c.to_lch::<D50, O10>().data)),
                ("E", "2", jcol("LabEO2", &c.to_lab::<E, O2>().data), jcol("LchEO2", &c.to_lch::<E, O2>().data)),
                ("E", "10", jcol("LabEO10", &c.to_lab::<E, O10>().data), jcol("LchEO10", &c.to_lch::<E, O10>().data)),
            ];
            for (il, ob, lab, lch) in &labs {
                j.add(&g, format!("c={}\nr=[c.to_lab('{}', '{}'), c.to_lch('{}', '{}')]", full, il, ob, il, ob), jl(&[lab.clone(), lch.clone()]));
                j.add(&g, format!("c={}\nr=[c.to_lab(observer='{}', illuminant='{}'), c.to_lch(observer='{}', illuminant='{}')]", full, ob, il, ob, il), jl(&[lab.clone(), lch.clone()]));
                if *ob == "2" {
                    j.add(&g, format!("c={}\nr=[c.to_lab('{}'), c.to_lch('{}')]", full, il, il), jl(&[lab.clone(), lch.clone()]));
                }
                if *il == "D65" {
                    j.add(&g, format!("c={}\nr=[c.to_lab(observer='{}'), c.to_lch(observer='{}')]", full, ob, ob), jl(&[lab.clone(), lch.clone()]));
                }
            }
            j.add(&g, format!("c={}\nr=[c.to_lab(), c.to_lch()]", full), jl(&[labs[0].2.clone(), labs[0].3.clone()]));
            for bad in ["'D75', '2'", "'D65', '5'", "'d65', '2'", "'', ''", "'E', ''", "'10', 'E'"] {
                j.add(&g, format!("r={}.to_lab({})", full, bad), jerr("OSError", &["Unsupported Lab"]));
                j.add(&g, format!("r={}.to_lch({})", full, bad), jerr("OSError", &["Unsupported Lch"]));
            }
            j.add(&g, format!("c={}\ns=[]\ndef f(v):\n  s.append(v)\n  return v*0.5+0.1\nr=[c.map_color_channels(f), s, c]", full), jl(&[jc(&c.map_color_channels(|v| (v as f64 * 0.5 + 0.1) as f32)), jl(&c.data()[..3].iter().map(|v| jf(*v as f64)).collect::<Vec<_>>()), jc(&c)]));
            for k in 1..=3 {
                j.add(&g, format!("c={}\ns=[]\ndef f(v):\n  s.append(v)\n  if len(s)=={}: raise ValueError('b%d' % len(s))\n  return v\ntry:\n  c.map_color_channels(f)\n  e=''\nexcept ValueError as ex: e=str(ex)\nr=[e, len(s), c]", full, k), jl(&[jstr(&format!("b{}", k)), jf(k as f64), jc(&c)]));
            }
            j.add(&g, format!("c={}\nr=c.map_color_channels(lambda v: 'x')", full), jerr("TypeError", &[]));
            j.add(&g, format!("c={}\nd=c.to_{}\nr=1", full, "nothing"), jerr("AttributeError", &[]));
            for b in $vals.iter() {
                let d = mk(b);
                j.add(&g, format!("r=[{}=={}({}), {}=={}({})]", full, cl, nums(*b), full, cl, nums([b[0], b[1], b[2]])), jl(&[jb(c == d), jb(c == <$t>::new_with_alpha(b[0], b[1], b[2], 1.0))]));
            }
            for (k, d) in (0..4).flat_map(|k| [0.125f32, 1e-5, -2e-5, 3e-4].map(|d| (k, d))) {
                let mut b = *v;
                b[k] += d;
                let mut s = [c, c, c, c];
                s[0].$s1(b[0]);
                s[1].$s2(b[1]);
                s[2].$s3(b[2]);
                s[3].set_alpha(b[3]);
                // whether equal colours are also unequal is decided by "unequal"
                let ne = c != s[k];
                j.add(&g, format!("c={}\nd={}\nd.{}={}\nr=[c==d, d==c{}]", full, full, if k == 3 { "alpha" } else { names[k] }, num(b[k]), if ne { ", c!=d" } else { "" }), jl(&if ne { vec![jb(c == s[k]), jb(s[k] == c), jb(true)] } else { vec![jb(c == s[k]), jb(s[k] == c)] }));
            }
            j.add(&g, format!("c={}\nr=[c==5, c==None, c=='x', c!=5, c in [1, {}]]", full, full), jl(&[jb(false), jb(false), jb(false), jb(true), jb(true)]));
            for op in ["<", "<=", ">", ">="] {
                j.add(&g, format!("c={}\nr=c{}{}", full, op, full), jerr("TypeError", &[]));
            }
        }
        // unequal exactly when not equal
        j.add(&format!("unequal/{}", cl), format!("v=[{}]\nr=any({}(*a)!={}(*a) for a in v)", $vals.iter().map(|v| format!("({})", nums(*v))).collect::<Vec<_>>().join(", "), cl, cl), jb(false));
        for bad in ["", "1", "1, 2", "'a', 1, 1", "1, 1, 1, 1, 1", "None, 1, 1", "1, 1, 1, 'x'", "[1, 1, 1]"] {
            j.add(&format!("color/{}/bad", cl), format!("r={}({})", cl, bad), jerr("TypeError", &[]));
        }
    }};
}

fn colors(j: &mut Jobs, ctx: &Ctx) {
    let mut vals: Vec<[f32; 4]> = vec![[0.0, 0.0, 0.0, 1.0], [0.2, 0.7, 0.4, 0.25], [0.9, 0.1, 0.6, 0.0], [0.5, 0.5, 0.5, 1.0], [1.3, -0.4, 0.3, 1.5]];
    if !ctx.quick() {
        for r in [0.0f32, 0.3, 1.0] {
            for g in [0.0f32, 0.6, 1.0] {
                for b in [0.0f32, 0.2, 1.0] {
                    vals.push([r, g, b, 0.5]);
                }
            }
        }
    }
    color_class!(j, "Rgb", Rgb, red, green, blue, with_red, with_green, with_blue, set_red, set_green, set_blue, vals);
    color_class!(j, "Srgb", Srgb, red, green, blue, with_red, with_green, with_blue, set_red, set_green, set_blue, vals);
    color_class!(j, "Hsl", Hsl, hue, saturation, lightness, with_hue, with_saturation, with_lightness, set_hue, set_saturation, set_lightness, vals);
    color_class!(j, "Hsv", Hsv, hue, saturation, value, with_hue, with_saturation, with_value, set_hue, set_saturation, set_value, vals);
    color_class!(j, "Yuv", Yuv, y, u, v, with_y, with_u, with_v, set_y, set_u, set_v, vals);
    color_class!(j, "Xyz", Xyz, x, y, z, with_x, with_y, with_z, set_x, set_y, set_z, vals);
    macro_rules! labs {
        ($($lab:literal $lch:literal $i:ty, $o:ty, $in:literal, $on:literal;)*) => {$(
            color_class!(j, $lab, Lab<$i, $o>, l, a, b, with_l, with_a, with_b, set_l, set_a, set_b, vals);
            color_class!(j, $lch, Lch<$i, $o>, l, c, h, with_l, with_c, with_h, set_l, set_c, set_h, vals);
            for v in &vals {
                let e = Lab::<$i, $o>::new_with_alpha(v[0], v[1], v[2], v[3]);
                let f = Lch::<$i, $o>::new_with_alpha(v[0], v[1], v[2], v[3]);
                let (e1, f1) = (jcol($lab, &Lab::<$i, $o>::new(v[0], v[1], v[2]).data), jcol($lch, &Lch::<$i, $o>::new(v[0], v[1], v[2]).data));
                let (e, f) = (jcol($lab, &e.data), jcol($lch, &f.data));
                let n3 = nums([v[0], v[1], v[2]]);
                j.add("factory", format!("r=[Lab({}, '{}', '{}'), Lch({}, '{}', '{}')]", nums(*v), $in, $on, nums(*v), $in, $on), jl(&[e.clone(), f.clone()]));
                j.add("factory", format!("r=[Lab(observer='{}', illuminant='{}', alpha={}, b={}, a={}, l={}), Lch(observer='{}', illuminant='{}', alpha={}, h={}, c={}, l={})]", $on, $in, num(v[3]), num(v[2]), num(v[1]), num(v[0]), $on, $in, num(v[3]), num(v[2]), num(v[1]), num(v[0])), jl(&[e, f]));
                j.add("factory", format!("r=[Lab({}, None, '{}', '{}'), Lch({}, None, '{}', '{}')]", n3, $in, $on, n3, $in, $on), jl(&[e1.clone(), f1.clone()]));
                if $on == "2" {
                    j.add("factory", format!("r=[Lab({}, illuminant='{}'), Lch({}, illuminant='{}')]", n3, $in, n3, $in), jl(&[e1.clone(), f1.clone()]));
                }
                if $in == "D65" {
                    j.add("factory", format!("r=[Lab({}, observer='{}'), Lch({}, observer='{}')]", n3, $on, n3, $on), jl(&[e1.clone(), f1.clone()]));
                    if $on == "2" {
                        j.add("factory", format!("r=[Lab({}), Lch({})]", n3, n3), jl(&[e1, f1]));
                    }
                }
            }
        )*};
    }
    labs! {
        "LabD65O2" "LchD65O2" D65, O2, "D65", "2";
        "LabD65O10" "LchD65O10" D65, O10, "D65", "10";
        "LabD50O2" "LchD50O2" D50, O2, "D50", "2";
        "LabD50O10" "LchD50O10" D50, O10, "D50", "10";
        "LabEO2" "LchEO2" E, O2, "E", "2";
        "LabEO10" "LchEO10" E, O10, "E", "10";
    }
    for f in ["Lab", "Lch"] {
        for bad in ["'D75', '2'", "'D65', '5'", "'d65', '2'", "'', ''", "'E', ''"] {
            j.add("factory/bad", format!("r={}(0.1, 0.2, 0.3, 1.0, {})", f, bad), jerr("OSError", &["Unsupported", f]));
        }
        for bad in ["", "1, 2", "'x', 1, 1", "1, 1, 1, 'a'", "1, 1, 1, 1, 5"] {
            j.add("factory/bad", format!("r={}({})", f, bad), jerr("TypeError", &[]));
        }
    }
    // the methods of Rgb
    let ints: Vec<(&str, Intensity)> = vec![("average", Intensity::Average), ("rec601luma", Intensity::Rec601Luma), ("rec709luma", Intensity::Rec709Luma), ("default", Intensity::Rec709Luma), ("brightness", Intensity::Brightness), ("lightness", Intensity::Lightness), ("saturation", Intensity::Saturation), ("red", Intensity::Red), ("green", Intensity::Green), ("blue", Intensity::Blue)];
    let fs = [-0.5f32, 0.0, 0.3, 0.8, 1.0, 1.7, 3.0];
    for v in &vals {
        let c = Rgb::new_with_alpha(v[0], v[1], v[2], v[3]);
        let full = py(&c);
        let mut m: Vec<(String, String)> = vec![];
        for (n, i) in &ints {
            m.push((format!("to_gray('{}')", n), jrgb(&c.to_gray_with_intensity(*i))));
            m.push((format!("to_gray(intensity='{}')", n), jrgb(&c.to_gray_with_intensity(*i))));
        }
        m.push(("to_gray()".into(), jrgb(&c.to_gray())));
        m.push(("is_grayscale()".into(), jb(c.is_grayscale())));
        m.push(("invert()".into(), jrgb(&c.invert())));
        m.push(("with_sepia()".into(), jrgb(&c.with_sepia())));
        m.push(("max()".into(), jf(c.max() as f64)));
        m.push(("min()".into(), jf(c.min() as f64)));
        for w in &vals {
            let d = Rgb::new_with_alpha(w[0], w[1], w[2], w[3]);
            m.push((format!("difference({})", py(&d)), jrgb(&c.difference(&d))));
            m.push((format!("alpha_blend({})", py(&d)), jrgb(&c.alpha_blend(d))));
            m.push((format!("difference(color={})", py(&d)), jrgb(&c.difference(&d))));
            m.push((format!("alpha_blend(color={})", py(&d)), jrgb(&c.alpha_blend(d))));
        }
        for f in fs {
            for (n, k, e) in [
                ("with_gamma", "gamma", c.with_gamma(f)),
                ("with_gamma_opt", "gamma", c.with_gamma_opt(f)),
                ("with_brightness", "factor", c.with_brightness(f)),
                ("with_saturation", "factor", c.with_saturation(f)),
                ("stretch_saturation", "factor", c.stretch_saturation(f)),
                ("with_gamma_saturation", "gamma", c.with_gamma_saturation(f)),
                ("with_lightness", "factor", c.with_lightness(f)),
                ("with_hue_rotate", "radians", c.with_hue_rotate(f)),
                ("with_contrast", "factor", c.with_contrast(f)),
                ("with_vibrance", "factor", c.with_vibrance(f)),
            ] {
                m.push((format!("{}({})", n, num(f)), jrgb(&e)));
                m.push((format!("{}({}={})", n, k, num(f)), jrgb(&e)));
            }
            for g in fs {
                m.push((format!("with_brightness_contrast({}, {})", num(f), num(g)), jrgb(&c.with_brightness_contrast(f, g))));
                m.push((format!("with_brightness_contrast(contrast={}, brightness={})", num(g), num(f)), jrgb(&c.with_brightness_contrast(f, g))));
                for h in [0.4f32, 1.0, 1.6] {
                    m.push((format!("with_level({}, {}, {})", num(f), num(g), num(h)), jrgb(&c.with_level(f, g, h))));
                    m.push((format!("with_level(gamma={}, white_point={}, black_point={})", num(h), num(g), num(f)), jrgb(&c.with_level(f, g, h))));
                    m.push((format!("modulate({}, {}, {})", num(f), num(g), num(h)), jrgb(&c.modulate(f, g, h))));
                    m.push((format!("modulate(lightness={}, saturation={}, hue={})", num(h), num(g), num(f)), jrgb(&c.modulate(f, g, h))));
                }
            }
        }
        for (code, e) in m {
            j.add("rgb", format!("c={}\nr=[c.{}, c]", full, code), jl(&[e, jrgb(&c)]));
        }
        for b in BAD {
            j.add("rgb/bad", format!("r={}.to_gray('{}')", full, b), jerr("OSError", &[]));
        }
    }
}

fn sequences22(j: &mut Jobs, ctx: &Ctx) {
    type Op = (&'static str, fn(&mut Image, &mut Image));
    fn set(i: &mut Image, x: u32, y: u32, c: Rgb) {
        if i.is_in_image(x as i32, y as i32) {
            i.put_pixel(x, y, c)
        }
    }
    let ops: Vec<Op> = vec![
        ("x.mod_colors(lambda c: c.invert())", |x, _| x.mod_colors(|c| c.invert())),
        ("y=x.rotate90()", |x, y| *y = x.rotate90()),
        ("x=y.map_colors(lambda c: Rgb(c.blue, c.red, c.green, c.alpha))", |x, y| *x = y.map_colors(|c| Rgb { data: [c.data[2], c.data[0], c.data[1], c.data[3]] })),
        ("x, y = y, x", |x, y| std::mem::swap(x, y)),
        ("x.put_pixel(0, 0, y[0, 0])", |x, y| set(x, 0, 0, *y.get_pixel(0, 0))),
        ("if x.is_in_image(1, 0): x[1, 0]=Rgb(1, 0, 0, 0.5)", |x, _| set(x, 1, 0, Rgb { data: [1.0, 0.0, 0.0, 0.5] })),
        ("x.apply_palette_in_place(y)", |x, y| x.apply_palette_in_place(y)),
        ("x=x.blend(y, 'addition', 0.5)", |x, y| *x = x.blend(y, BlendOp::Addition, 0.5)),
        ("x=Image.from_list(x.width, x.height, list(reversed(x.to_list())))", |x, _| *x = x.rotate180()),
        ("x.mod_colors_enumerated(lambda u, v, c: c.with_red(u/8))", |x, _| x.mod_colors_enumerated(|u, _, c| c.with_red(u as f32 / 8.0))),
        ("l=x.to_list(); l[0].red=0.7; c=y[0, 0]; c.green=0.1; x.crop(0, 0, 1, 1).put_pixel(0, 0, Rgb(0, 0, 0))", |_, _| {}),
        ("x.save('s.png', EncodingFormat.png('rgba8')); y=Image.open('s.png')", |x, y| {
            let b = x.save_to_buffer(EncodingFormat::Png { color_type: PngColorType::Rgba8, compression: PngCompression::Default, filter: PngFilterType::Sub }).unwrap();
            *y = Image::read_from_buffer(&b).unwrap()
        }),
        ("y=Image.compose([x, y], lambda u, v, c: c[1], Rgb(0, 0, 1))", |x, y| *y = Image::compose_slice(&[&*x, &*y], Rgb { data: [0.0, 0.0, 1.0, 1.0] }, |_, _, c| c[1])),
        ("y=x.resize(2, 3, 'nearest')", |x, y| *y = x.resize(2, 3, FilterMode::Nearest)),
        ("a=x.to_np_array(); a[:]=0; y.add_random_noise(0.0)", |_, _| {}),
        ("x=x.gaussian_blur(1)", |x, _| *x = x.gaussian_blur(1, None)),
    ];
    let depth = ctx.pick(3, 4);
    let (x0, y0) = (Image::new_from_buffer(distinct_buf(3, 2)), Image::new_from_buffer(distinct_buf2(2, 2, 40)));
    j.image("q1", x0.clone());
    j.image("q2", y0.clone());
    let mut stack: Vec<(Vec<usize>, Image, Image)> = vec![(vec![], x0, y0)];
    while let Some((seq, x, y)) = stack.pop() {
        let code: Vec<&str> = seq.iter().map(|i| ops[*i].0).collect();
        let id = format!("seq/{}", seq.iter().map(|i| i.to_string()).collect::<Vec<_>>().join("."));
        j.add(&id, format!("x=I('q1')\ny=I('q2')\n{}\nr=[x, y]", code.join("\n")), jl(&[jimg(&x), jimg(&y)]));
        if seq.len() < depth {
            for (k, op) in ops.iter().enumerate() {
                let (mut a, mut b) = (x.clone(), y.clone());
                op.1(&mut a, &mut b);
                let mut s = seq.clone();
                s.push(k);
                stack.push((s, a, b));
            }
        }
    }
}
