//! The context in which a section of a check runs: counting, isolation of
//! each case, and the report that the driver (`/verif/check.py`) aggregates.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{BuildHasherDefault, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

/// Identity hasher for sets of fingerprints.
#[derive(Default)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) { unreachable!() }
    fn write_u64(&mut self, v: u64) { self.0 = v }
}
pub type FpSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

/// FNV-1a with a final mix; deterministic across runs.
pub struct Fp(u64);
impl Fp {
    pub fn new() -> Self { Fp(0xcbf29ce484222325) }
    pub fn of(b: &[u8]) -> u64 { let mut f = Fp::new(); f.bytes(b); f.get() }
    pub fn bytes(&mut self, b: &[u8]) -> &mut Self {
        let mut h = self.0;
        let mut it = b.chunks_exact(8);
        for c in &mut it {
            h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9E3779B97F4A7C15);
            h ^= h >> 29;
        }
        for c in it.remainder() {
            h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
        }
        self.0 = (h ^ b.len() as u64).wrapping_mul(0x9E3779B97F4A7C15);
        self
    }
    pub fn num(&mut self, v: u64) -> &mut Self { self.bytes(&v.to_le_bytes()) }
    pub fn get(&self) -> u64 {
        let mut h = self.0;
        h ^= h >> 33;
        h = h.wrapping_mul(0xff51afd7ed558ccd);
        h ^ (h >> 33)
    }
}
impl Hasher for Fp {
    fn finish(&self) -> u64 { self.get() }
    fn write(&mut self, b: &[u8]) { self.bytes(b); }
}

pub fn fp_of<T: std::hash::Hash + ?Sized>(v: &T) -> u64 {
    let mut f = Fp::new();
    v.hash(&mut f);
    f.get()
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
        else { String::from("(non-string panic)") };
        // A panic that cannot unwind aborts: leave a trace of it.
        if msg.contains("unsafe precondition") || msg.contains("cannot unwind") || !QUIET.with(|q| q.get()) {
            eprintln!("panic: {msg} at {:?}", info.location().map(|l| (l.file().to_string(), l.line())));
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}

/// Runs `f`, turning a panic into its message.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|p| {
        let m = LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
        // A payload may own values with destructors.
        drop(p);
        m
    })
}

/// A violation: `sig` identifies what fails, `detail` shows how.
pub struct Bad {
    pub sig: String,
    pub detail: String,
}
impl Bad {
    pub fn new(sig: impl Into<String>, detail: impl Into<String>) -> Self {
        Bad { sig: sig.into(), detail: detail.into() }
    }
}
/// What a case that holds produced; labels are counted as outcomes.
pub type CaseResult = Result<&'static str, Bad>;

#[macro_export]
macro_rules! bad {
    ($sig:expr, $($arg:tt)*) => { return Err($crate::cx::Bad::new($sig, format!($($arg)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => { if !$cond { return Err($crate::cx::Bad::new($sig, format!($($arg)*))) } };
}

/// Index of the running case, for the watchdog and crash reports.
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static BEAT: AtomicU64 = AtomicU64::new(0);

pub struct Violation {
    pub case: u64,
    pub count: u64,
    pub sig: String,
    pub detail: String,
}

pub struct Cx {
    pub section: String,
    pub thorough: bool,
    pub debug: bool,
    idx: u64,
    only: Option<u64>,
    trace: Option<std::fs::File>,
    pub evaluations: u64,
    distinct: FpSet,
    distinct_monotone: u64,
    last_monotone: Option<u64>,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    outcomes: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: Vec<Violation>,
    pub notes: Vec<String>,
    nontrivial: bool,
}

impl Cx {
    fn new(section: &str) -> Self {
        Cx {
            section: section.to_string(),
            thorough: std::env::var("VERIF_TIER").is_ok_and(|v| v == "thorough"),
            debug: cfg!(debug_assertions),
            idx: 0,
            only: None,
            trace: None,
            evaluations: 0,
            distinct: FpSet::default(),
            distinct_monotone: 0,
            last_monotone: None,
            states: 0,
            transitions: 0,
            traces: 0,
            outcomes: BTreeMap::new(),
            samples: Vec::new(),
            violations: Vec::new(),
            notes: Vec::new(),
            nontrivial: true,
        }
    }

    /// True if only one case is wanted, so that loops may print more.
    pub fn replaying(&self) -> bool { self.only.is_some() }

    pub fn outcome(&mut self, o: &str) {
        if let Some(c) = self.outcomes.get_mut(o) { *c += 1 } else { self.outcomes.insert(o.to_string(), 1); }
    }

    pub fn violation(&mut self, case: u64, b: Bad) {
        if let Some(v) = self.violations.iter_mut().find(|v| v.sig == b.sig) {
            v.count += 1;
        } else if self.violations.len() < 64 {
            self.violations.push(Violation { case, count: 1, sig: b.sig, detail: b.detail });
        }
    }

    /// Whether a case that counts is non-trivial by the check's rule.
    pub fn trivial(&mut self) { self.nontrivial = false }

    /// Runs one case. `fp` identifies the case among all of the section.
    pub fn case(&mut self, fp: u64, desc: impl Fn() -> String, f: impl FnOnce(&mut Cx) -> CaseResult) {
        if !self.begin(&desc) { return }
        self.nontrivial = true;
        let idx = self.idx;
        let r = {
            let me = &mut *self;
            guard(move || f(me))
        };
        self.evaluations += 1;
        if self.nontrivial { self.distinct.insert(fp); }
        match r {
            Ok(Ok(o)) => {
                self.outcome(o);
                if self.samples.len() < 3 || (self.samples.len() < 6 && !self.samples.iter().any(|s| s.ends_with(&format!("=> {o}")))) {
                    let d = desc();
                    if d.len() < 400 { self.samples.push(format!("{d} => {o}")) }
                }
            }
            Ok(Err(b)) => {
                let b = Bad { sig: b.sig, detail: format!("{}: {}", desc(), b.detail) };
                self.outcome("violation");
                self.violation(idx, b);
            }
            Err(msg) => {
                self.outcome("violation");
                let b = Bad::new(format!("unexpected panic in {}", self.section), format!("{}: panicked: {msg}", desc()));
                self.violation(idx, b);
            }
        }
    }

    /// Like `case`, for huge strictly increasing enumerations: distinctness
    /// is counted by checking that `key` increases instead of remembering it.
    pub fn case_mono(&mut self, key: u64, desc: impl Fn() -> String, f: impl FnOnce(&mut Cx) -> CaseResult) {
        if !self.begin(&desc) { return }
        let idx = self.idx;
        let r = {
            let me = &mut *self;
            guard(move || f(me))
        };
        self.evaluations += 1;
        if self.last_monotone.is_none_or(|l| key > l) {
            self.last_monotone = Some(key);
            self.distinct_monotone += 1;
        }
        match r {
            Ok(Ok(o)) => {
                self.outcome(o);
                if self.samples.len() < 2 { self.samples.push(format!("{} => {o}", desc())) }
            }
            Ok(Err(b)) => {
                let b = Bad { sig: b.sig, detail: format!("{}: {}", desc(), b.detail) };
                self.violation(idx, b);
            }
            Err(msg) => {
                let b = Bad::new(format!("unexpected panic in {}", self.section), format!("{}: panicked: {msg}", desc()));
                self.violation(idx, b);
            }
        }
    }

    fn begin(&mut self, desc: &dyn Fn() -> String) -> bool {
        self.idx += 1;
        PROGRESS.store(self.idx, Ordering::Relaxed);
        if let Some(o) = self.only {
            if self.idx != o { return false }
            eprintln!("case {}: {}", self.idx, desc());
        }
        if let Some(f) = &mut self.trace {
            use std::os::unix::fs::FileExt;
            f.write_all_at(format!("{:020}", self.idx).as_bytes(), 0).unwrap();
        }
        true
    }

    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 8 { self.samples.push(s) }
    }

    pub fn beat() { BEAT.fetch_add(1, Ordering::Relaxed); }

    fn report(&self) -> String {
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"section\":{},\"evaluations\":{},\"distinct\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"outcomes\":{{",
            esc(&self.section), self.evaluations, self.distinct.len() as u64 + self.distinct_monotone, self.states, self.transitions, self.traces
        );
        for (i, (k, v)) in self.outcomes.iter().enumerate() {
            let _ = write!(o, "{}{}:{}", if i > 0 { "," } else { "" }, esc(k), v);
        }
        o.push_str("},\"samples\":[");
        for (i, s) in self.samples.iter().enumerate() {
            let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, esc(s));
        }
        o.push_str("],\"notes\":[");
        for (i, s) in self.notes.iter().enumerate() {
            let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, esc(s));
        }
        o.push_str("],\"violations\":[");
        for (i, v) in self.violations.iter().enumerate() {
            let _ = write!(
                o, "{}{{\"case\":{},\"count\":{},\"sig\":{},\"detail\":{}}}",
                if i > 0 { "," } else { "" }, v.case, v.count, esc(&v.sig), esc(&v.detail)
            );
        }
        o.push_str("]}");
        o
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for (i, c) in s.chars().enumerate() {
        if i > 3000 { o.push_str("..."); break }
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Section {
    pub name: String,
    pub run: Box<dyn Fn(&mut Cx)>,
}
pub fn section(name: impl Into<String>, run: impl Fn(&mut Cx) + 'static) -> Section {
    Section { name: name.into(), run: Box::new(run) }
}

const STACK: usize = 256 << 20;

/// Entry point of a check binary.
///
/// `--list` prints the sections; `--section NAME [--trace FILE] [--only N]`
/// runs one of them and prints its report.
pub fn run(sections: impl FnOnce() -> Vec<Section> + Send + 'static) {
    std::thread::Builder::new().stack_size(STACK).spawn(move || run_inner(sections())).unwrap().join().unwrap();
}

fn run_inner(sections: Vec<Section>) {
    let args: Vec<String> = std::env::args().collect();
    if args.iter().any(|a| a == "--list") {
        for s in &sections { println!("{}", s.name) }
        return;
    }
    let get = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
    let name = get("--section").expect("--section NAME or --list");
    let s = sections.iter().find(|s| s.name == name).expect("no such section");
    let mut cx = Cx::new(&name);
    cx.only = get("--only").map(|v| v.parse().unwrap());
    cx.trace = get("--trace").map(|p| std::fs::File::create(p).unwrap());
    let limit: u64 = get("--hang").map(|v| v.parse().unwrap()).unwrap_or(60);
    install_hook();
    // A case that makes no progress for `limit` seconds does not terminate.
    std::thread::spawn(move || {
        let mut last = (0, 0);
        let mut since = std::time::Instant::now();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let now = (PROGRESS.load(Ordering::Relaxed), BEAT.load(Ordering::Relaxed));
            if now != last { last = now; since = std::time::Instant::now(); }
            else if since.elapsed().as_secs() >= limit {
                println!("{{\"hang\":{}}}", now.0);
                let _ = std::io::stdout().flush();
                std::process::exit(97);
            }
        }
    });
    let r = guard(|| (s.run)(&mut cx));
    if let Err(m) = r {
        // A panic outside of any case is an error of the harness.
        eprintln!("harness panic in section {name} at case {}: {m}", cx.idx);
        std::process::exit(98);
    }
    println!("{}", cx.report());
}
