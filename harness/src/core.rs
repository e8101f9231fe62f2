//! Worker/master machinery shared by every check: seeded cases, counters of what the monitors
//! observed, three-valued verdicts, replay files, evidence.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

// ---------------------------------------------------------------------------------------------
// An allocator that watches the biggest single request of the current thread.

pub struct Watching;

thread_local! {
    static MAX_ALLOC: Cell<usize> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

fn live(by: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + by));
}

/// Runs `f` and returns its result along with the bytes this thread allocated and didn't release.
pub fn with_live<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let before = LIVE.with(|l| l.get());
    let r = f();
    (r, LIVE.with(|l| l.get()) - before)
}

unsafe impl GlobalAlloc for Watching {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = MAX_ALLOC.try_with(|m| {
            if l.size() > m.get() {
                m.set(l.size())
            }
        });
        live(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = MAX_ALLOC.try_with(|m| {
            if l.size() > m.get() {
                m.set(l.size())
            }
        });
        live(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        live(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = MAX_ALLOC.try_with(|m| {
            if n > m.get() {
                m.set(n)
            }
        });
        live(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Runs `f` and returns its result along with the biggest single allocation this thread made.
pub fn with_max_alloc<T>(f: impl FnOnce() -> T) -> (T, usize) {
    MAX_ALLOC.with(|m| m.set(0));
    let r = f();
    (r, MAX_ALLOC.with(|m| m.get()))
}

// ---------------------------------------------------------------------------------------------
// Randomness

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let h = blake3::hash(b);
    u64::from_le_bytes(h.as_bytes()[..8].try_into().unwrap())
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn u128(&mut self) -> u128 {
        ((self.u64() as u128) << 64) | self.u64() as u128
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u16(&mut self) -> u16 {
        (self.u64() >> 48) as u16
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// Uniform in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (self.u64() % n as u64) as usize
    }
    /// Uniform in `a..=b`.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    /// True `p` times out of 100.
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    /// A `u64` whose magnitude is itself random, with the borders over-represented.
    pub fn big(&mut self) -> u64 {
        match self.below(10) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => u64::MAX - self.below(3) as u64,
            4 => {
                let s = self.below(64);
                (1u64 << s).wrapping_sub(self.below(3) as u64)
            }
            _ => {
                let s = self.below(64);
                self.u64() >> s
            }
        }
    }
    pub fn big128(&mut self) -> u128 {
        match self.below(4) {
            0 => self.big() as u128,
            1 => u128::MAX - self.below(3) as u128,
            _ => {
                let s = self.below(128);
                self.u128() >> s
            }
        }
    }
    pub fn ident(&mut self, max: usize) -> String {
        let n = self.range(1, max.max(1));
        (0..n)
            .map(|_| *self.pick(b"abcdefghijklmnopqrstuvwxyz_0123456789ABCXYZ") as char)
            .collect()
    }
    /// A unicode string of at most `max` bytes.
    pub fn text(&mut self, max: usize) -> String {
        let n = match self.below(6) {
            0 => 0,
            1 => max,
            2 => max.saturating_sub(1),
            _ => self.below(max.min(40) + 1),
        };
        let mut s = String::new();
        loop {
            let c = match self.below(8) {
                0 => 'é',
                1 => '語',
                2 => '🦀',
                3 => '\0',
                4 => '"',
                _ => (self.range(0x20, 0x7e) as u8) as char,
            };
            if s.len() + c.len_utf8() > n {
                if s.len() == n {
                    return s;
                }
                s.push('x');
                continue;
            }
            s.push(c);
        }
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
}

// ---------------------------------------------------------------------------------------------
// Verdicts

#[derive(Debug, Clone)]
pub enum Fail {
    /// The code under test broke the property.
    Violation(String),
    /// The check itself could not do its work.
    Harness(String),
    /// The execution left what this property speaks of (some other property's business).
    Skip(String),
}

pub type R<T = ()> = Result<T, Fail>;

pub fn violation<T>(msg: impl Into<String>) -> R<T> {
    Err(Fail::Violation(msg.into()))
}

pub fn harness<T>(msg: impl Into<String>) -> R<T> {
    Err(Fail::Harness(msg.into()))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !$c { return Err($crate::core::Fail::Violation(format!($($t)*))); }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::core::Fail::Violation(format!(
                "{}: got {:?}, expected {:?}", format!($($t)*), a, b
            )));
        }
    }};
}

#[derive(Debug, Clone)]
pub struct Panicked {
    pub location: String,
    pub message: String,
}

impl Panicked {
    pub fn in_harness(&self) -> bool {
        self.location.starts_with("src/")
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<Panicked>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    let verbose = std::env::var("SVMCHECK_VERBOSE").is_ok();
    std::panic::set_hook(Box::new(move |info| {
        let location = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let message = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        if verbose {
            eprintln!("panic at {location}: {message}");
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(Panicked { location, message }));
    }));
}

/// Runs `f`, turning a panic into an `Err` that says where it happened.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|payload| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| Panicked {
                location: "?".into(),
                message: if let Some(s) = payload.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = payload.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "?".into()
                },
            })
    })
}

// ---------------------------------------------------------------------------------------------
// What a worker observed

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub events: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub known: BTreeSet<String>,
}

pub struct Ctx {
    pub prop: &'static str,
    pub index: u64,
    pub seed: u64,
    pub tier: Tier,
    pub rng: Rng,
    pub stats: Stats,
    pub trace: Vec<String>,
    pub verbose: bool,
    pub scratch: PathBuf,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Ctx {
    /// Counts one observed event of the given kind.
    pub fn event(&mut self, name: &str) {
        self.events(name, 1)
    }
    pub fn events(&mut self, name: &str, n: u64) {
        if let Some(c) = self.stats.events.get_mut(name) {
            *c += n;
        } else {
            self.stats.events.insert(name.to_string(), n);
        }
    }
    /// One judged execution; `signature` identifies it when it was non-trivial.
    pub fn evaluated(&mut self, signature: Option<u64>) {
        self.stats.evaluations += 1;
        if let Some(s) = signature {
            self.stats.distinct.insert(s);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.stats.samples.len() < 3 {
            let mut s = f();
            if s.len() > 1500 {
                let mut n = 1500;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.stats.samples.push(s);
        }
    }
    /// Appends to the history that a violation is reported with.
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        let s = f();
        if self.verbose {
            eprintln!("  {s}");
        }
        self.trace.push(s);
    }
    /// A failure that was identified by an exact signature: silent if it is a listed known finding.
    pub fn finding(&mut self, signature: &str, detail: String) -> R {
        if known_findings().contains(&(self.prop.to_string(), signature.to_string())) {
            self.stats.known.insert(format!("{signature}: {detail}"));
            Ok(())
        } else {
            violation(format!("{signature}: {detail}"))
        }
    }
}


lazy_static::lazy_static! {
    static ref KNOWN: HashSet<(String, String)> = {
        let path = verif_dir().join("KNOWN_FINDINGS.txt");
        let text = std::fs::read_to_string(path).unwrap_or_default();
        text.lines()
            .filter_map(|l| {
                let l = l.strip_prefix("known: property=")?;
                let (prop, rest) = l.split_once(' ')?;
                let rest = rest.strip_prefix("signature=")?;
                let sig = rest.split_whitespace().next()?;
                Some((prop.to_string(), sig.to_string()))
            })
            .collect()
    };
}

fn known_findings() -> &'static HashSet<(String, String)> {
    &KNOWN
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

// ---------------------------------------------------------------------------------------------
// Properties

pub struct Spec {
    pub id: &'static str,
    pub level: &'static str,
    /// How cases are made, and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick_cases: u64,
    pub thorough_cases: u64,
    /// Wall-clock budget of the workload; whatever is left over when it ends is simply not run.
    pub quick_secs: u64,
    pub thorough_secs: u64,
    /// Events without which a run decided nothing: it is then inconclusive, not a success.
    pub required: &'static [&'static str],
    pub case: fn(&mut Ctx) -> R,
    /// A case that (twice) neither finishes nor fails within this time breaks the property.
    pub hang_secs: u64,
    pub workers: usize,
}

pub const DEFAULT_SPEC: Spec = Spec {
    id: "",
    level: "exploration",
    rule: "",
    assumptions: &[],
    quick_cases: 0,
    thorough_cases: 0,
    quick_secs: 30,
    thorough_secs: 900,
    required: &[],
    case: |_| Ok(()),
    hang_secs: 100,
    workers: 8,
};

fn case_seed(prop: &str, seed: u64, index: u64) -> u64 {
    mix(mix(hash_bytes(prop.as_bytes()) ^ mix(seed)).wrapping_add(index))
}

fn pin(worker: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|&i| libc::CPU_ISSET(i, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[worker % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}

static CASE_STARTED_MS: AtomicU64 = AtomicU64::new(0);

fn run_case(spec: &'static Spec, ctx: &mut Ctx) -> R {
    ctx.rng = Rng::new(ctx.seed);
    ctx.trace.clear();
    let _ = std::fs::create_dir_all(&ctx.scratch);
    crate::reset_case();
    let r = guard(|| (spec.case)(ctx));
    crate::reset_case();
    match r {
        // The sandbox's limits aren't the code's doing.
        Ok(Err(Fail::Violation(m)))
            if ["Resource temporarily unavailable", "No space left on device", "Cannot allocate memory", "Too many open files"]
                .iter()
                .any(|s| m.contains(s)) =>
        {
            harness(m)
        }
        Ok(r) => r,
        Err(p) if p.in_harness() => harness(format!("panic in the check at {}: {}", p.location, p.message)),
        Err(p) => violation(format!("unexpected panic at {}: {}", p.location, p.message)),
    }
}

pub fn scratch_root() -> PathBuf {
    let shm = Path::new("/dev/shm");
    let base = if std::fs::metadata(shm).map(|m| m.is_dir()).unwrap_or(false)
        && tempfile_probe(shm)
    {
        shm.to_path_buf()
    } else {
        std::env::temp_dir()
    };
    base.join(format!("svmcheck.{}", std::process::id()))
}

fn tempfile_probe(dir: &Path) -> bool {
    let p = dir.join(format!(".svmcheck-probe.{}", std::process::id()));
    let ok = std::fs::write(&p, b"x").is_ok();
    let _ = std::fs::remove_file(&p);
    ok
}

/// `worker ID TIER SEED WORKER WORKERS OUT FROM`
pub fn worker_main(spec: &'static Spec, tier: Tier, seed: u64, w: u64, ws: u64, out: &Path, from: u64, secs: u64) -> i32 {
    install_panic_hook();
    pin(w as usize);
    let scratch = scratch_root();
    let mut ctx = Ctx {
        prop: spec.id,
        index: 0,
        seed: 0,
        tier,
        rng: Rng::new(0),
        stats: Stats::default(),
        trace: vec![],
        verbose: false,
        scratch: scratch.clone(),
    };
    let cases = match tier {
        Tier::Quick => spec.quick_cases,
        Tier::Thorough => spec.thorough_cases,
    };
    let t0 = Instant::now();
    let hang = spec.hang_secs;
    let hang_out = out.with_extension("hang");
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let s = CASE_STARTED_MS.load(Ordering::Relaxed);
        let now = t0.elapsed().as_millis() as u64 + 1;
        if s != 0 && now > s + hang * 1000 {
            let _ = std::fs::write(&hang_out, b"hang");
            unsafe { libc::_exit(42) };
        }
    });
    let progress = out.with_extension("progress");
    let mut result = json!({"status": "ok"});
    let mut index = from;
    while index < cases {
        if index % ws != w {
            index += 1;
            continue;
        }
        if t0.elapsed() > Duration::from_secs(secs) {
            break;
        }
        ctx.index = index;
        ctx.seed = case_seed(spec.id, seed, index);
        let _ = std::fs::write(&progress, index.to_string());
        CASE_STARTED_MS.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
        let r = run_case(spec, &mut ctx);
        CASE_STARTED_MS.store(0, Ordering::Relaxed);
        match r {
            Ok(()) => {}
            Err(Fail::Violation(m)) => {
                result = json!({"status": "violation", "index": index, "message": m, "trace": ctx.trace});
                break;
            }
            Err(Fail::Harness(m)) => {
                result = json!({"status": "error", "index": index, "message": m, "trace": ctx.trace});
                break;
            }
            Err(Fail::Skip(m)) => {
                ctx.event("out_of_scope_divergences");
                if std::env::var("SVMCHECK_VERBOSE").is_ok() {
                    eprintln!("case {index} out of scope: {m}");
                }
            }
        }
        index += ws;
    }
    let _ = std::fs::remove_dir_all(&scratch);
    result["evaluations"] = json!(ctx.stats.evaluations);
    result["events"] = json!(ctx.stats.events);
    result["samples"] = json!(ctx.stats.samples);
    result["known"] = json!(ctx.stats.known);
    result["distinct"] = json!(ctx.stats.distinct.iter().collect::<Vec<_>>());
    if std::fs::write(out, serde_json::to_vec(&result).unwrap()).is_err() {
        return 2;
    }
    0
}

/// Runs one case, given by its own seed, on behalf of a case in another process.
fn child_main(spec: &'static Spec, seed: u64) -> i32 {
    install_panic_hook();
    let scratch = scratch_root();
    let mut ctx = Ctx {
        prop: spec.id,
        index: 0,
        seed,
        tier: Tier::Quick,
        rng: Rng::new(0),
        stats: Stats::default(),
        trace: vec![],
        verbose: false,
        scratch: scratch.clone(),
    };
    let r = run_case(spec, &mut ctx);
    let _ = std::fs::remove_dir_all(&scratch);
    r.is_err() as i32
}

pub fn replay_main(spec: &'static Spec, tier: Tier, seed: u64, index: u64) -> i32 {
    install_panic_hook();
    pin(0);
    let scratch = scratch_root();
    let mut ctx = Ctx {
        prop: spec.id,
        index,
        seed: case_seed(spec.id, seed, index),
        tier,
        rng: Rng::new(0),
        stats: Stats::default(),
        trace: vec![],
        verbose: true,
        scratch: scratch.clone(),
    };
    let r = run_case(spec, &mut ctx);
    let _ = std::fs::remove_dir_all(&scratch);
    eprintln!("events: {:?}", ctx.stats.events);
    match r {
        Ok(()) => {
            println!("case {index}: held");
            0
        }
        Err(Fail::Violation(m)) => {
            println!("case {index}: VIOLATED: {m}");
            1
        }
        Err(Fail::Harness(m)) => {
            println!("case {index}: harness error: {m}");
            2
        }
        Err(Fail::Skip(m)) => {
            println!("case {index}: out of this property's scope: {m}");
            0
        }
    }
}

fn spawn_worker(spec: &Spec, tier: Tier, seed: u64, w: usize, ws: usize, out: &Path, from: u64, secs: u64) -> std::io::Result<std::process::Child> {
    let exe = std::env::current_exe()?;
    let err = std::fs::File::create(out.with_extension("stderr"))?;
    Command::new(exe)
        .arg("worker")
        .arg(spec.id)
        .arg(format!("{:?}", tier))
        .arg(seed.to_string())
        .arg(w.to_string())
        .arg(ws.to_string())
        .arg(out)
        .arg(from.to_string())
        .arg(secs.to_string())
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(err)
        .spawn()
}

pub fn run_main(spec: &'static Spec, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let run_dir = std::env::temp_dir().join(format!("svmcheck-run.{}", std::process::id()));
    let _ = std::fs::create_dir_all(&run_dir);
    let code = run_in(spec, tier, seed, &run_dir, t0);
    let _ = std::fs::remove_dir_all(&run_dir);
    code
}

struct Outcome {
    violations: Vec<(u64, String, Vec<String>)>,
    errors: Vec<String>,
    stats: Stats,
}

fn run_in(spec: &'static Spec, tier: Tier, seed: u64, dir: &Path, t0: Instant) -> i32 {
    let ws = spec.workers;
    let secs = match tier {
        Tier::Quick => spec.quick_secs,
        Tier::Thorough => spec.thorough_secs,
    };
    let mut children = vec![];
    for w in 0..ws {
        let out = dir.join(format!("w{w}.json"));
        match spawn_worker(spec, tier, seed, w, ws, &out, 0, secs) {
            Ok(c) => children.push((w, out, c)),
            Err(e) => {
                println!("ERROR cannot start a worker: {e}");
                return 2;
            }
        }
    }
    let mut o = Outcome { violations: vec![], errors: vec![], stats: Stats::default() };
    let mut died = vec![];
    for (w, out, mut child) in children {
        match child.wait() {
            Ok(s) if s.code() == Some(0) => collect(&out, &mut o),
            Ok(s) => died.push((w, out, s)),
            Err(e) => o.errors.push(format!("worker {w}: {e}")),
        }
    }
    for (w, out, status) in died {
        investigate_death(spec, tier, seed, w, &out, status, &mut o);
    }

    // Evidence
    let mut missing: Vec<&str> = vec![];
    for r in spec.required {
        if o.stats.events.get(*r).copied().unwrap_or(0) == 0 {
            missing.push(r);
        }
    }
    let evidence = json!({
        "property": spec.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed as i64 & 0x7fff_ffff_ffff_ffff,
        "level": spec.level,
        "coverage": {
            "evaluations": o.stats.evaluations,
            "distinct_nontrivial": o.stats.distinct.len(),
            "rule": spec.rule,
            "samples": o.stats.samples.iter().take(6).collect::<Vec<_>>(),
            "observed_events": o.stats.events,
            "known_findings_observed": o.stats.known,
        },
        "assumptions": spec.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": o.violations.len(),
    });
    let ev_path = verif_dir().join("evidence").join(format!("{}.json", spec.id));
    let _ = std::fs::create_dir_all(ev_path.parent().unwrap());
    if let Err(e) = std::fs::write(&ev_path, serde_json::to_vec_pretty(&evidence).unwrap()) {
        println!("ERROR cannot write {}: {e}", ev_path.display());
        return 2;
    }

    for k in &o.stats.known {
        println!("KNOWN-FINDING: property={} {}", spec.id, k);
    }
    if let Some((index, message, trace)) = o.violations.iter().min_by_key(|v| v.0) {
        let rdir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let rpath = rdir.join(format!("{}-{:?}-{}-{}.txt", spec.id, tier, seed, index));
        let text = format!(
            "property {}\nreplay with: bash /verif/run.sh replay {} {:?} {} {}\n\nviolation: {}\n\nhistory:\n{}\n",
            spec.id, spec.id, tier, seed, index, message, trace.join("\n")
        );
        let _ = std::fs::write(&rpath, text);
        println!("case {index} of {}: {message}", spec.id);
        println!("VIOLATION property={} replay={}", spec.id, rpath.display());
        return 1;
    }
    if !o.errors.is_empty() {
        for e in &o.errors {
            println!("ERROR {}: {e}", spec.id);
        }
        return 2;
    }
    if !missing.is_empty() {
        println!("INCONCLUSIVE {}: never observed: {}", spec.id, missing.join(", "));
        return 3;
    }
    println!(
        "{}: held on {} executions ({} distinct non-trivial) in {:.1} s; events {:?}",
        spec.id,
        o.stats.evaluations,
        o.stats.distinct.len(),
        t0.elapsed().as_secs_f64(),
        o.stats.events
    );
    0
}

fn collect(out: &Path, o: &mut Outcome) {
    let v: Value = match std::fs::read(out).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(v) => v,
        None => {
            o.errors.push(format!("no result in {}", out.display()));
            return;
        }
    };
    o.stats.evaluations += v["evaluations"].as_u64().unwrap_or(0);
    if let Some(m) = v["events"].as_object() {
        for (k, n) in m {
            *o.stats.events.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0);
        }
    }
    if let Some(a) = v["samples"].as_array() {
        o.stats.samples.extend(a.iter().filter_map(|s| s.as_str()).take(1).map(|s| s.to_string()));
    }
    if let Some(a) = v["known"].as_array() {
        o.stats.known.extend(a.iter().filter_map(|s| s.as_str()).map(|s| s.to_string()));
    }
    if let Some(a) = v["distinct"].as_array() {
        o.stats.distinct.extend(a.iter().filter_map(|s| s.as_u64()));
    }
    let trace = || -> Vec<String> {
        v["trace"]
            .as_array()
            .map(|a| a.iter().filter_map(|s| s.as_str()).map(|s| s.to_string()).collect())
            .unwrap_or_default()
    };
    let msg = v["message"].as_str().unwrap_or("").to_string();
    match v["status"].as_str() {
        Some("ok") => {}
        Some("violation") => o.violations.push((v["index"].as_u64().unwrap_or(0), msg, trace())),
        _ => o.errors.push(format!("case {}: {msg}", v["index"])),
    }
}

/// A worker ended without a result. The case it was in is run again, alone: a crash or hang that
/// comes back is the code's; one that doesn't is inconclusive; SIGKILL is the sandbox's doing.
fn investigate_death(
    spec: &'static Spec,
    tier: Tier,
    seed: u64,
    w: usize,
    out: &Path,
    status: std::process::ExitStatus,
    o: &mut Outcome,
) {
    use std::os::unix::process::ExitStatusExt;
    let index: u64 = std::fs::read_to_string(out.with_extension("progress"))
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(u64::MAX);
    let stderr = std::fs::read(out.with_extension("stderr"))
        .map(|b| String::from_utf8_lossy(&b).to_string())
        .unwrap_or_default();
    let tail: String = tail_of(&stderr, 6000);
    if index == u64::MAX {
        o.errors.push(format!("worker {w} died before its first case: {status:?} {tail}"));
        return;
    }
    if status.signal() == Some(libc::SIGKILL) {
        o.errors.push(format!("worker {w} was killed in case {index}"));
        return;
    }
    if stderr.contains("ERROR: AddressSanitizer") || stderr.contains("ERROR: LeakSanitizer") {
        if stderr.contains("out of memory") || stderr.contains("failed to allocate") {
            o.errors.push(format!("sanitizer ran out of memory in case {index}: {tail}"));
            return;
        }
        let at = stderr.find("ERROR: ").unwrap_or(0);
        let report: String = stderr[at..].chars().take(4000).collect();
        o.violations.push((index, format!("sanitizer report: {}", report.lines().next().unwrap_or("")), vec![report]));
        return;
    }
    let was_hang = status.code() == Some(42);
    for _ in 0..2 {
        let out2 = out.with_extension("again");
        let _ = std::fs::remove_file(&out2);
        let mut child = match Command::new(std::env::current_exe().unwrap())
            .arg("one")
            .arg(spec.id)
            .arg(format!("{:?}", tier))
            .arg(seed.to_string())
            .arg(index.to_string())
            .arg(&out2)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
        {
            Ok(c) => c,
            Err(e) => {
                o.errors.push(e.to_string());
                return;
            }
        };
        match child.wait() {
            Ok(s) if s.code() == Some(0) => {
                // It ended this time; what it found (if anything) counts.
                let before = o.violations.len();
                collect(&out2, o);
                if o.violations.len() > before {
                    return;
                }
                if was_hang {
                    break;
                }
            }
            Ok(s) if s.code() == Some(42) => {
                o.violations.push((
                    index,
                    format!("case {index} neither finished nor failed within {} s, twice", spec.hang_secs),
                    vec![],
                ));
                return;
            }
            Ok(s) if s.signal() == Some(libc::SIGKILL) => {
                o.errors.push(format!("case {index} was killed"));
                return;
            }
            Ok(s) => {
                o.violations.push((
                    index,
                    format!("the process died ({s}) in case {index}, twice"),
                    vec![tail],
                ));
                return;
            }
            Err(e) => {
                o.errors.push(e.to_string());
                return;
            }
        }
    }
    o.errors.push(format!("worker {w} ended ({status}) in case {index}, which did not reproduce: {tail}"));
}

fn tail_of(s: &str, n: usize) -> String {
    let chars: Vec<char> = s.chars().collect();
    chars[chars.len().saturating_sub(n)..].iter().collect()
}

/// Runs a single case as a worker would.
pub fn one_main(spec: &'static Spec, tier: Tier, seed: u64, index: u64, out: &Path) -> i32 {
    // `from = index` with `ws = cases` makes the loop run this index only.
    let cases = match tier {
        Tier::Quick => spec.quick_cases,
        Tier::Thorough => spec.thorough_cases,
    };
    worker_main(spec, tier, seed, index % cases.max(1), cases.max(1), out, index, 1_000_000)
}

fn tier(s: &str) -> Tier {
    if s.eq_ignore_ascii_case("thorough") {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

/// The command line of a checking binary.
pub fn main_of(specs: &[&'static Spec]) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let a = |i: usize| args.get(i).cloned().unwrap_or_default();
    let num = |i: usize| a(i).parse::<u64>().unwrap_or(0);
    if a(1) == "list" {
        for s in specs {
            println!("{}", s.id);
        }
        return 0;
    }
    let id = a(2);
    let spec = match specs.iter().copied().find(|s| s.id == id) {
        Some(s) => s,
        None => {
            println!("ERROR no such property: {id}");
            return 2;
        }
    };
    let env_seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<u64>().ok())
        .unwrap_or(1);
    let env_tier = tier(&std::env::var("VERIF_TIER").unwrap_or_default());
    match a(1).as_str() {
        "run" => run_main(spec, env_tier, env_seed),
        "worker" => worker_main(
            spec,
            tier(&a(3)),
            num(4),
            num(5),
            num(6),
            &PathBuf::from(a(7)),
            num(8),
            num(9),
        ),
        "one" => one_main(spec, tier(&a(3)), num(4), num(5), &PathBuf::from(a(6))),
        "child" => child_main(spec, num(3)),
        "replay" => replay_main(spec, tier(&a(3)), num(4), num(5)),
        x => {
            println!("ERROR unknown command {x}");
            2
        }
    }
}
