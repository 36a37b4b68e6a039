//! Exploration context: runs cases, contains panics, counts what was covered, records violations,
//! writes the evidence file and the replay artefacts.
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Known {
    pub case: String,
    pub expect: String,
    pub what: String,
}

pub struct Violation {
    pub case: String,
    pub msg: String,
}

const SHARDS: usize = 64;

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: i64,
    pub only: Option<String>,
    known: Vec<Known>,
    known_hit: Mutex<HashSet<usize>>,
    evals: AtomicU64,
    cases: AtomicU64,
    nontrivial: AtomicU64,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    distinct: Vec<Mutex<HashSet<u64>>>,
    samples: Mutex<Vec<String>>,
    violations: Mutex<Vec<Violation>>,
    stop: AtomicBool,
    extra: Mutex<BTreeMap<String, String>>,
    pub start: Instant,
    slots: Vec<Slot>,
    next_slot: AtomicUsize,
    journal: Option<Journal>,
}

pub struct Slot {
    started_ms: AtomicU64, // 0 = idle
    name: Mutex<String>,
}

/// Shared-memory journal: the case each worker is executing, readable by the parent process after
/// a crash (signal/abort) of the code under test.
pub struct Journal {
    ptr: *mut u8,
}
unsafe impl Send for Journal {}
unsafe impl Sync for Journal {}
pub const J_SLOTS: usize = 64;
pub const J_SIZE: usize = 512;

impl Journal {
    pub fn open(path: &str) -> Option<Journal> {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).ok()?;
        f.set_len((J_SLOTS * J_SIZE) as u64).ok()?;
        let ptr = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                J_SLOTS * J_SIZE,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if ptr == libc::MAP_FAILED {
            None
        } else {
            Some(Journal { ptr: ptr as *mut u8 })
        }
    }
    fn write(&self, slot: usize, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min(J_SIZE - 1);
        unsafe {
            let p = self.ptr.add((slot % J_SLOTS) * J_SIZE);
            std::ptr::copy_nonoverlapping(b.as_ptr(), p, n);
            *p.add(n) = 0;
        }
    }
}

pub fn read_journal(path: &str) -> Vec<String> {
    let data = std::fs::read(path).unwrap_or_default();
    data.chunks(J_SIZE)
        .filter_map(|c| {
            let n = c.iter().position(|b| *b == 0).unwrap_or(c.len());
            if n > 0 {
                Some(String::from_utf8_lossy(&c[..n]).into_owned())
            } else {
                None
            }
        })
        .collect()
}

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static EXPECT_PANIC: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// Runs code of the library and turns a panic into an error string.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(PANIC_MSG.with(|m| m.borrow().clone())),
    }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Handle used inside a case.
pub struct Case<'a> {
    pub ctx: &'a Ctx,
    pub id: &'a str,
    evals: Cell<u64>,
    nontrivial: Cell<u64>,
    states: Cell<u64>,
    transitions: Cell<u64>,
    traces: Cell<u64>,
    hashes: RefCell<Vec<u64>>,
}

impl<'a> Case<'a> {
    /// one evaluation with an observed outcome
    pub fn obs<T: Hash>(&self, nontrivial: bool, outcome: &T) {
        self.evals.set(self.evals.get() + 1);
        if nontrivial {
            self.nontrivial.set(self.nontrivial.get() + 1);
            self.hashes.borrow_mut().push(hash_of(&(self.id, outcome)));
        }
    }
    pub fn eval_n(&self, n: u64) {
        self.evals.set(self.evals.get() + n);
    }
    pub fn states(&self, n: u64) {
        self.states.set(self.states.get() + n);
    }
    pub fn transitions(&self, n: u64) {
        self.transitions.set(self.transitions.get() + n);
    }
    pub fn traces(&self, n: u64) {
        self.traces.set(self.traces.get() + n);
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !($c) {
            return Err(format!($($arg)*));
        }
    };
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier, seed: i64, only: Option<String>, known: Vec<Known>, journal: Option<Journal>) -> Ctx {
        Ctx {
            prop: prop.to_string(),
            tier,
            seed,
            only,
            known,
            known_hit: Default::default(),
            evals: AtomicU64::new(0),
            cases: AtomicU64::new(0),
            nontrivial: AtomicU64::new(0),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            distinct: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
            samples: Default::default(),
            violations: Default::default(),
            stop: AtomicBool::new(false),
            extra: Default::default(),
            start: Instant::now(),
            slots: (0..J_SLOTS)
                .map(|_| Slot { started_ms: AtomicU64::new(0), name: Mutex::new(String::new()) })
                .collect(),
            next_slot: AtomicUsize::new(0),
            journal,
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// picks the bound for the tier
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }

    pub fn note(&self, key: &str, value: impl ToString) {
        self.extra.lock().unwrap().insert(key.to_string(), value.to_string());
    }

    fn slot(&self) -> usize {
        SLOT.with(|s| {
            if s.get() == usize::MAX {
                s.set(self.next_slot.fetch_add(1, SeqCst) % J_SLOTS);
            }
            s.get()
        })
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }

    /// Run one case. `id` names the exact input/history; `f` returns Err(description) on violation.
    /// A panic inside the case counts as a violation unless the case itself contains it with `guard`.
    pub fn case(&self, id: &str, f: impl FnOnce(&Case) -> Res) {
        if let Some(only) = &self.only {
            if only != id {
                return;
            }
        }
        if self.stopped() {
            return;
        }
        let slot = self.slot();
        if let Some(j) = &self.journal {
            j.write(slot, id);
        }
        {
            let s = &self.slots[slot];
            *s.name.lock().unwrap() = id.to_string();
            s.started_ms.store(self.start.elapsed().as_millis() as u64 + 1, SeqCst);
        }
        let case = Case {
            ctx: self,
            id,
            evals: Cell::new(0),
            nontrivial: Cell::new(0),
            states: Cell::new(0),
            transitions: Cell::new(0),
            traces: Cell::new(0),
            hashes: RefCell::new(vec![]),
        };
        let r = match guard(|| f(&case)) {
            Ok(r) => r,
            Err(p) => Err(format!("panic: {}", p)),
        };
        let took = self.start.elapsed().as_millis() as u64 + 1 - self.slots[slot].started_ms.swap(0, SeqCst);
        if took > 1000 && std::env::var_os("D10MC_SLOW").is_some() {
            println!("  SLOW {} {} ms, ended at {} ms", id, took, self.start.elapsed().as_millis());
        }
        if let Some(j) = &self.journal {
            j.write(slot, "");
        }
        let n = self.cases.fetch_add(1, Relaxed);
        self.evals.fetch_add(case.evals.get().max(1), Relaxed);
        self.nontrivial.fetch_add(case.nontrivial.get(), Relaxed);
        self.states.fetch_add(case.states.get(), Relaxed);
        self.transitions.fetch_add(case.transitions.get(), Relaxed);
        self.traces.fetch_add(case.traces.get(), Relaxed);
        for h in case.hashes.borrow().iter() {
            self.distinct[(*h as usize) % SHARDS].lock().unwrap().insert(*h);
        }
        if n < 3 || (n & (n - 1)) == 0 {
            let mut s = self.samples.lock().unwrap();
            if s.len() < 24 {
                s.push(id.to_string());
            }
        }
        if let Err(msg) = r {
            self.fail(id, msg);
        }
    }

    pub fn fail(&self, id: &str, msg: String) {
        for (i, k) in self.known.iter().enumerate() {
            if k.case == id && msg.contains(&k.expect) {
                self.known_hit.lock().unwrap().insert(i);
                return;
            }
        }
        let mut v = self.violations.lock().unwrap();
        v.push(Violation { case: id.to_string(), msg });
        if v.len() >= 200 {
            self.stop.store(true, Relaxed);
        }
    }

    /// Adds counts measured outside `case`.
    pub fn add_states(&self, n: u64) {
        self.states.fetch_add(n, Relaxed);
    }
    pub fn add_transitions(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    pub fn add_traces(&self, n: u64) {
        self.traces.fetch_add(n, Relaxed);
    }

    /// Starts the watchdog: a single case that runs longer than `limit_s` is a violation (the code
    /// under test does not terminate on it).
    pub fn watchdog(&'static self, limit_s: u64) {
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = self.start.elapsed().as_millis() as u64;
            for s in &self.slots {
                let st = s.started_ms.load(SeqCst);
                if st != 0 && now > st + limit_s * 1000 {
                    let name = s.name.lock().unwrap().clone();
                    self.fail(&name, format!("did not terminate within {} s", limit_s));
                    let code = self.finish("", "", &[]);
                    std::process::exit(code);
                }
            }
        });
    }

    /// Writes evidence and reports. Returns the exit code.
    pub fn finish(&self, level: &str, rule: &str, assumptions: &[&str]) -> i32 {
        unmute_stdout();
        let verif = verif_dir();
        let mut violations = self.violations.lock().unwrap();
        violations.sort_by(|a, b| (a.case.len(), &a.case).cmp(&(b.case.len(), &b.case)));
        let distinct: usize = self.distinct.iter().map(|s| s.lock().unwrap().len()).sum();
        let hits = self.known_hit.lock().unwrap();
        for (i, k) in self.known.iter().enumerate() {
            if hits.contains(&i) {
                println!("KNOWN-FINDING: property={} {} [{}]", self.prop, k.what, k.case);
            }
        }
        let wall = self.start.elapsed().as_secs_f64();
        if self.only.is_none() {
            let mut cov = String::new();
            cov.push_str(&format!("\"evaluations\": {}, ", self.evals.load(Relaxed)));
            cov.push_str(&format!("\"distinct_nontrivial\": {}, ", distinct));
            cov.push_str(&format!("\"cases\": {}, ", self.cases.load(Relaxed)));
            let (st, tr, tv) = (self.states.load(Relaxed), self.transitions.load(Relaxed), self.traces.load(Relaxed));
            if st > 0 {
                cov.push_str(&format!("\"states\": {}, ", st));
            }
            if tr > 0 {
                cov.push_str(&format!("\"transitions\": {}, ", tr));
            }
            if tv > 0 || level == "model_checking" {
                cov.push_str(&format!("\"traces_validated_against_impl\": {}, ", tv));
            }
            for (k, v) in self.extra.lock().unwrap().iter() {
                cov.push_str(&format!("{}: {}, ", js(k), js(v)));
            }
            cov.push_str("\"exhaustive\": true, ");
            cov.push_str(&format!("\"rule\": {}, ", js(rule)));
            let samples = self.samples.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(", ");
            cov.push_str(&format!("\"samples\": [{}]", samples));
            let tier = if self.quick() { "quick" } else { "thorough" };
            let ev = format!(
                "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}}}\n",
                js(&self.prop), js(tier), self.seed, js(if level.is_empty() { "exploration" } else { level }), cov,
                assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
                wall, violations.len()
            );
            let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
            let _ = std::fs::write(format!("{}/evidence/{}.json", verif, self.prop), ev);
        }
        println!(
            "{}: cases={} evaluations={} distinct_outcomes={} states={} transitions={} violations={} wall={:.1}s",
            self.prop,
            self.cases.load(Relaxed),
            self.evals.load(Relaxed),
            distinct,
            self.states.load(Relaxed),
            self.transitions.load(Relaxed),
            violations.len(),
            wall
        );
        if violations.is_empty() {
            return 0;
        }
        let dir = format!("{}/replays", verif);
        let _ = std::fs::create_dir_all(&dir);
        if std::env::var_os("D10MC_ALL").is_some() {
            for v in violations.iter() {
                println!("  ALL {}: {}", v.case, v.msg);
            }
        }
        for (i, v) in violations.iter().take(5).enumerate() {
            let path = format!("{}/{}-{}.txt", dir, self.prop, i);
            let tier = if self.quick() { "quick" } else { "thorough" };
            let _ = std::fs::write(
                &path,
                format!(
                    "property: {}\ncase: {}\nobserved: {}\nreplay: /verif/check.sh {} {} --replay '{}'\n",
                    self.prop, v.case, v.msg, self.prop, tier, v.case
                ),
            );
            println!("  {}: {}", v.case, v.msg);
            println!("VIOLATION property={} replay={}", self.prop, path);
        }
        1
    }
}

static MUTED: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);
/// Sends everything the code under test prints to /dev/null until `unmute_stdout`.
pub fn mute_stdout() {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe {
        let saved = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::close(null);
        MUTED.store(saved, SeqCst);
    }
}
pub fn unmute_stdout() {
    use std::io::Write;
    let fd = MUTED.swap(-1, SeqCst);
    if fd >= 0 {
        let _ = std::io::stdout().flush();
        unsafe {
            libc::dup2(fd, 1);
            libc::close(fd);
        }
    }
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Runs `f` over all items on all cores.
pub fn par<T: Sync, F: Fn(&T) + Sync>(items: &[T], f: F) {
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..n {
            s.spawn(|| loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= items.len() {
                    break;
                }
                f(&items[i]);
            });
        }
    });
}
