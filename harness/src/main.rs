mod ctx;
mod gen;
mod p_blend;
mod p_cli;
mod p_codec;
mod p_color;
mod p_foreign;
mod p_core;
mod p_geom;
mod p_image;
mod p_py;
mod p_queue;
mod p_save;
mod p_style;
mod p_tone;
mod refcolor;

use ctx::*;
use std::io::Write;

struct Prop {
    id: &'static str,
    level: &'static str,
    rule: &'static str,
    assumptions: &'static [&'static str],
    run: fn(&'static Ctx),
}

const PROPS: &[Prop] = &[
    Prop { id: "C01", level: "fault_enumeration", rule: p_save::RULE, assumptions: p_save::ASSUME, run: p_save::run },
    Prop { id: "C02", level: "exploration", rule: p_codec::RULE2, assumptions: p_codec::ASSUME2, run: p_codec::run2 },
    Prop { id: "C03", level: "exploration", rule: p_codec::RULE3, assumptions: p_codec::ASSUME3, run: p_codec::run3 },
    Prop { id: "C04", level: "exploration", rule: p_codec::RULE4, assumptions: p_codec::ASSUME4, run: p_codec::run4 },
    Prop { id: "C05", level: "exploration", rule: p_codec::RULE5, assumptions: p_codec::ASSUME5, run: p_codec::run5 },
    Prop { id: "C06", level: "model_checking", rule: p_core::RULE6, assumptions: p_core::ASSUME6, run: p_core::run6 },
    Prop { id: "C07", level: "exploration", rule: p_core::RULE7, assumptions: p_core::ASSUME7, run: p_core::run7 },
    Prop { id: "C08", level: "model_checking", rule: p_geom::RULE8, assumptions: p_geom::ASSUME8, run: p_geom::run8 },
    Prop { id: "C09", level: "exploration", rule: p_geom::RULE9, assumptions: p_geom::ASSUME9, run: p_geom::run9 },
    Prop { id: "C10", level: "exploration", rule: p_geom::RULE10, assumptions: p_geom::ASSUME10, run: p_geom::run10 },
    Prop { id: "C11", level: "exploration", rule: p_blend::RULE, assumptions: p_blend::ASSUME, run: p_blend::run },
    Prop { id: "C12", level: "exploration", rule: p_color::RULE12, assumptions: p_color::ASSUME12, run: p_color::run12 },
    Prop { id: "C13", level: "exploration", rule: p_color::RULE13, assumptions: p_color::ASSUME13, run: p_color::run13 },
    Prop { id: "C14", level: "exploration", rule: p_color::RULE14, assumptions: p_color::ASSUME14, run: p_color::run14 },
    Prop { id: "C15", level: "exploration", rule: p_tone::RULE15, assumptions: p_tone::ASSUME15, run: p_tone::run15 },
    Prop { id: "C16", level: "exploration", rule: p_tone::RULE16, assumptions: p_tone::ASSUME16, run: p_tone::run16 },
    Prop { id: "C17", level: "exploration", rule: p_style::RULE17, assumptions: p_style::ASSUME17, run: p_style::run17 },
    Prop { id: "C18", level: "model_checking", rule: p_style::RULE18, assumptions: p_style::ASSUME18, run: p_style::run18 },
    Prop { id: "C19", level: "model_checking", rule: p_queue::RULE, assumptions: p_queue::ASSUME, run: p_queue::run },
    Prop { id: "C20", level: "model_checking", rule: p_cli::RULE, assumptions: p_cli::ASSUME, run: p_cli::run },
    Prop { id: "C21", level: "model_checking", rule: p_py::RULE21, assumptions: p_py::ASSUME21, run: p_py::run21 },
    Prop { id: "C22", level: "model_checking", rule: p_py::RULE22, assumptions: p_py::ASSUME22, run: p_py::run22 },
    Prop { id: "C23", level: "model_checking", rule: p_image::RULE23, assumptions: p_image::ASSUME23, run: p_image::run23 },
    Prop { id: "C24", level: "model_checking", rule: p_image::RULE24, assumptions: p_image::ASSUME24, run: p_image::run24 },
];

fn load_known(prop: &str) -> Vec<Known> {
    let path = format!("{}/KNOWN_FINDINGS", verif_dir());
    let mut out = vec![];
    for line in std::fs::read_to_string(path).unwrap_or_default().lines() {
        // known<TAB>property=<id><TAB>case=<case><TAB>expect=<substring><TAB>what=<text>
        let f: Vec<&str> = line.split('\t').collect();
        if f.len() == 5 && f[0] == "known" && f[1] == format!("property={}", prop) {
            out.push(Known {
                case: f[2].trim_start_matches("case=").to_string(),
                expect: f[3].trim_start_matches("expect=").to_string(),
                what: f[4].trim_start_matches("what=").to_string(),
            });
        }
    }
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() >= 2 && args[1] == "fsize-child" {
        std::process::exit(p_save::fsize_child(&args[2..]));
    }
    if args.len() >= 2 && args[1] == "hist-child" {
        std::process::exit(p_image::hist_child());
    }
    if args.len() < 3 {
        eprintln!("usage: d10mc PROP quick|thorough [--replay CASE]");
        std::process::exit(2);
    }
    let prop = args[1].clone();
    let tier = match args[2].as_str() {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => std::process::exit(2),
    };
    let only = args.iter().position(|a| a == "--replay").and_then(|i| args.get(i + 1)).cloned();
    let Some(p) = PROPS.iter().find(|p| p.id == prop) else {
        eprintln!("unknown property {}", prop);
        std::process::exit(2);
    };

    if std::env::var_os("D10MC_CHILD").is_some() {
        install_panic_hook();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let journal = Journal::open(&format!("{}/journal", gen::scratch()));
        let known = if only.is_some() { vec![] } else { load_known(&prop) };
        let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(&prop, tier, seed, only, known, journal)));
        ctx.watchdog(120);
        if let Err(e) = guard(|| (p.run)(ctx)) {
            ctx.fail("setup", format!("panic while the inputs were prepared: {}", e));
        }
        let code = ctx.finish(p.level, p.rule, p.assumptions);
        let _ = std::io::stdout().flush();
        std::process::exit(code);
    }

    // Parent: owns the scratch directory and turns a crash of the code under test into a verdict.
    let base = std::env::var("TMPDIR").unwrap_or_else(|_| "/tmp".into());
    let scratch = format!("{}/d10mc.{}.{}", base, prop, std::process::id());
    std::fs::create_dir_all(&scratch).expect("scratch");
    let status = std::process::Command::new(std::env::current_exe().unwrap())
        .args(&args[1..])
        .env("D10MC_CHILD", "1")
        .env("D10MC_SCRATCH", &scratch)
        .status();
    let running = read_journal(&format!("{}/journal", scratch));
    let _ = std::fs::remove_dir_all(&scratch);
    use std::os::unix::process::ExitStatusExt;
    match status {
        Ok(s) if s.code().is_some() => {
            let c = s.code().unwrap();
            std::process::exit(if c == 0 || c == 1 { c } else { 3 });
        }
        Ok(s) => {
            let sig = s.signal().unwrap_or(0);
            if [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP].contains(&sig) {
                let dir = format!("{}/replays", verif_dir());
                let _ = std::fs::create_dir_all(&dir);
                let path = format!("{}/{}-crash.txt", dir, prop);
                let mut t = format!("property: {}\nthe code under test died with signal {} while these cases ran (one per worker):\n", prop, sig);
                for r in &running {
                    t.push_str(&format!("  /verif/check.sh {} {} --replay '{}'\n", prop, args[2], r));
                }
                let _ = std::fs::write(&path, t);
                println!("  crashed with signal {} while running {:?}", sig, running);
                println!("VIOLATION property={} replay={}", prop, path);
                std::process::exit(1);
            }
            eprintln!("check killed by signal {}", sig);
            std::process::exit(3);
        }
        Err(e) => {
            eprintln!("cannot start: {}", e);
            std::process::exit(3);
        }
    }
}
