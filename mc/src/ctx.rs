//! Exploration context: runs every case of an enumerated space against the implementation,
//! catches panics, aborts, stack overflows and hangs, counts what was covered, and reports.

use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

const MAX_THREADS: usize = 64;
const MAX_RECORDED: usize = 40;
const STOP_AFTER: u64 = 400;
const HANG: Duration = Duration::from_secs(90);

pub struct Violation {
    pub label: String,
    pub what: String,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub root: std::path::PathBuf,
    pub start: Instant,
    pub replay: Option<HashSet<String>>,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub bad: AtomicU64,
    pub states: Mutex<HashSet<u64>>,
    pub violations: Mutex<Vec<Violation>>,
    pub samples: Mutex<Vec<String>>,
    pub sections: Mutex<Vec<(String, u64)>>,
    pub known: Vec<(String, String)>,
    pub known_hit: Mutex<HashSet<usize>>,
    pub notes: Mutex<Vec<String>>,
}

/// What one case reports about the part of the space it covered.
#[derive(Default)]
pub struct Obs {
    pub steps: u64,
    pub states: Vec<u64>,
}

impl Obs {
    /// one operation of the implementation executed and compared
    pub fn step(&mut self) {
        self.steps += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.steps += n;
    }
    /// a state of the reference model that was reached
    pub fn state<T: Hash>(&mut self, t: T) {
        self.states.push(h64(&t));
    }
}

pub fn h64<T: Hash>(t: &T) -> u64 {
    // FNV-1a over the Hash stream: stable across runs
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut f = F(0xcbf29ce484222325);
    t.hash(&mut f);
    let mut z = f.finish();
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static LOCAL: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
}

// What each thread is running right now, for the signal handler and the watchdog.
struct Slot {
    since: AtomicU64,
    seq: AtomicU64,
    data: AtomicUsize,
    vtab: AtomicUsize,
}
#[allow(clippy::declare_interior_mutable_const)]
const SLOT0: Slot = Slot {
    since: AtomicU64::new(0),
    seq: AtomicU64::new(0),
    data: AtomicUsize::new(0),
    vtab: AtomicUsize::new(0),
};
static SLOTS: [Slot; MAX_THREADS] = [SLOT0; MAX_THREADS];
static NEXT: AtomicUsize = AtomicUsize::new(0);
static CTX: AtomicUsize = AtomicUsize::new(0);
static ENDING: AtomicBool = AtomicBool::new(false);

fn now_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC_COARSE, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

fn my_slot() -> usize {
    SLOT.with(|s| {
        if s.get() == usize::MAX {
            s.set(NEXT.fetch_add(1, Ordering::SeqCst) % MAX_THREADS);
        }
        s.get()
    })
}

type Label<'a> = dyn Fn() -> String + 'a;

fn slot_label(i: usize) -> Option<String> {
    let d = SLOTS[i].data.load(Ordering::SeqCst);
    let v = SLOTS[i].vtab.load(Ordering::SeqCst);
    if d == 0 || v == 0 {
        return None;
    }
    let f: *const Label<'static> = unsafe { std::mem::transmute([d, v]) };
    Some(unsafe { (*f)() })
}

extern "C" fn on_signal(sig: libc::c_int) {
    if ENDING.swap(true, Ordering::SeqCst) {
        unsafe { libc::_exit(3) };
    }
    let name = match sig {
        libc::SIGSEGV => "memory fault or stack overflow (SIGSEGV)",
        libc::SIGBUS => "memory fault (SIGBUS)",
        libc::SIGABRT => "abort (SIGABRT)",
        libc::SIGILL => "trap (SIGILL)",
        libc::SIGFPE => "arithmetic trap (SIGFPE)",
        _ => "signal",
    };
    let i = my_slot();
    match slot_label(i) {
        Some(l) => {
            if let Some(c) = ctx_ref() {
                c.record_quick(l, format!("process died: {name}"));
                let code = c.finish(false);
                unsafe { libc::_exit(code) };
            }
            unsafe { libc::_exit(3) }
        }
        None => {
            eprintln!("internal error: {name} outside of any case");
            unsafe { libc::_exit(2) }
        }
    }
}

fn ctx_ref() -> Option<&'static Ctx> {
    let p = CTX.load(Ordering::SeqCst);
    if p == 0 {
        None
    } else {
        Some(unsafe { &*(p as *const Ctx) })
    }
}

pub fn install(ctx: &Ctx) {
    CTX.store(ctx as *const Ctx as usize, Ordering::SeqCst);
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("MC_TRACE").is_ok() {
            eprintln!("panic: {msg} at {loc}");
        }
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_signal as extern "C" fn(libc::c_int) as usize;
        sa.sa_flags = libc::SA_ONSTACK;
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
        let lim = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(|| loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = now_ms();
            for i in 0..MAX_THREADS {
                let seq = SLOTS[i].seq.load(Ordering::SeqCst);
                let since = SLOTS[i].since.load(Ordering::SeqCst);
                if since != 0 && now.saturating_sub(since) > HANG.as_millis() as u64 {
                    let l = slot_label(i);
                    if SLOTS[i].seq.load(Ordering::SeqCst) != seq {
                        continue;
                    }
                    if let (Some(l), Some(c)) = (l, ctx_ref()) {
                        if ENDING.swap(true, Ordering::SeqCst) {
                            return;
                        }
                        c.record_quick(l, "the operation did not return".to_string());
                        let code = c.finish(false);
                        unsafe { libc::_exit(code) };
                    }
                }
            }
        })
        .unwrap();
}

pub fn take_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

/// Runs an operation of the implementation; a panic is an error of its own kind.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panicked: {}", take_panic()))
}

impl Ctx {
    pub fn tier(&self) -> &'static str {
        if self.thorough {
            "thorough"
        } else {
            "quick"
        }
    }

    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    pub fn stopped(&self) -> bool {
        self.bad.load(Ordering::Relaxed) > STOP_AFTER
    }

    /// Runs one case. `label` identifies it (and is how a replay selects it).
    pub fn case(&self, label: impl Fn() -> String, f: impl FnOnce(&mut Obs) -> R) {
        if self.stopped() {
            return;
        }
        if let Some(set) = &self.replay {
            if !set.contains(&label()) {
                return;
            }
        }
        let i = my_slot();
        let lp: *const Label<'_> = &label as &Label<'_>;
        let parts: [usize; 2] = unsafe { std::mem::transmute(lp) };
        SLOTS[i].data.store(parts[0], Ordering::Relaxed);
        SLOTS[i].vtab.store(parts[1], Ordering::Relaxed);
        SLOTS[i].seq.fetch_add(1, Ordering::Relaxed);
        SLOTS[i].since.store(now_ms(), Ordering::Release);

        let mut obs = Obs::default();
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut obs)));

        SLOTS[i].since.store(0, Ordering::Relaxed);
        SLOTS[i].seq.fetch_add(1, Ordering::Relaxed);
        SLOTS[i].data.store(0, Ordering::Relaxed);
        SLOTS[i].vtab.store(0, Ordering::Release);

        let n = self.traces.fetch_add(1, Ordering::Relaxed);
        self.transitions.fetch_add(obs.steps, Ordering::Relaxed);
        if !obs.states.is_empty() {
            LOCAL.with(|l| {
                let mut l = l.borrow_mut();
                l.extend(obs.states.iter());
                if l.len() > 1 << 16 {
                    let mut g = self.states.lock().unwrap();
                    if g.len() < 60_000_000 {
                        g.extend(l.drain());
                    } else {
                        l.clear();
                    }
                }
            });
        }
        if n & (n.wrapping_sub(1)) == 0 {
            let mut s = self.samples.lock().unwrap();
            if s.len() < 24 {
                s.push(label());
            }
        }
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => self.record(label(), e),
            Err(_) => self.record(label(), format!("panicked: {}", take_panic())),
        }
    }

    pub fn flush_local(&self) {
        LOCAL.with(|l| {
            let mut l = l.borrow_mut();
            if !l.is_empty() {
                let mut g = self.states.lock().unwrap();
                if g.len() < 60_000_000 {
                    g.extend(l.drain());
                }
            }
        });
    }

    pub fn record(&self, label: String, what: String) {
        for (k, (id, text)) in self.known.iter().enumerate() {
            if *id == self.id && *text == label {
                self.known_hit.lock().unwrap().insert(k);
                return;
            }
        }
        self.bad.fetch_add(1, Ordering::SeqCst);
        let mut v = self.violations.lock().unwrap();
        if v.len() < MAX_RECORDED {
            v.push(Violation { label, what });
        }
    }

    // from a signal handler or the watchdog: never block
    fn record_quick(&self, label: String, what: String) {
        self.bad.fetch_add(1, Ordering::SeqCst);
        if let Ok(mut v) = self.violations.try_lock() {
            v.insert(0, Violation { label, what });
        }
    }

    /// A panic outside of a case: valid material the enumeration starts from (an honest key,
    /// event, encoding) could not be built with the library, which is itself a wrong result.
    pub fn setup_failed(&self) {
        let what = take_panic();
        let at = what.rsplit(" at ").next().unwrap_or("?").to_string();
        self.record(format!("building valid material at {at}"), what);
    }

    /// Runs `f(i)` for every i in 0..n on all cores.
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        self.par_threads(n, threads(), f)
    }

    pub fn par_threads(&self, n: usize, threads: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        let chunk = (n / (threads * 64)).clamp(1, 4096);
        std::thread::scope(|s| {
            for _ in 0..threads.min(n.max(1)) {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, || {
                        loop {
                            let a = next.fetch_add(chunk, Ordering::Relaxed);
                            if a >= n || self.stopped() {
                                break;
                            }
                            for i in a..(a + chunk).min(n) {
                                if catch_unwind(AssertUnwindSafe(|| f(i))).is_err() {
                                    self.setup_failed();
                                }
                            }
                        }
                        self.flush_local();
                    })
                    .unwrap();
            }
        });
    }

    pub fn section(&self, name: &str) {
        self.flush_local();
        let t = self.traces.load(Ordering::SeqCst);
        self.sections.lock().unwrap().push((name.to_string(), t));
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("[{:8.2}s] {name}: {t} traces", self.start.elapsed().as_secs_f64());
        }
    }

    pub fn note(&self, s: impl Into<String>) {
        self.notes.lock().unwrap().push(s.into());
    }

    pub fn finish(&self, complete: bool) -> i32 {
        if complete {
            self.flush_local();
        }
        let states = self.states.try_lock().map(|s| s.len()).unwrap_or(0);
        let empty = Vec::new();
        let guard = self.violations.try_lock();
        let violations: &Vec<Violation> = match &guard {
            Ok(g) => g,
            Err(_) => &empty,
        };
        let bad = self.bad.load(Ordering::SeqCst);
        let mut sections = serde_json::Map::new();
        if let Ok(s) = self.sections.try_lock() {
            let mut prev = 0;
            for (n, t) in s.iter() {
                sections.insert(n.clone(), serde_json::json!(t - prev));
                prev = *t;
            }
        }
        let samples = self.samples.try_lock().map(|s| s.clone()).unwrap_or_default();
        let notes = self.notes.try_lock().map(|s| s.clone()).unwrap_or_default();
        let ev = serde_json::json!({
            "property": self.id,
            "tier": self.tier(),
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": states,
                "transitions": self.transitions.load(Ordering::SeqCst),
                "traces_validated_against_impl": self.traces.load(Ordering::SeqCst),
                "exhaustive": complete && bad == 0 && self.replay.is_none(),
                "traces_per_section": sections,
                "samples": samples,
                "notes": notes,
                "explanation": "states: distinct states of the reference model reached; transitions: operations of the real code executed and compared with the model; traces: enumerated cases (inputs, histories, schedules or fault sequences) run to their end on the real code",
            },
            "assumptions": [
                "bounds are those given in DESIGN.md for this property and tier",
                "hash, signature and Argon2 crates used by the reference are correct",
            ],
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": bad,
        });
        if self.replay.is_none() {
            let dir = self.root.join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            let _ = std::fs::write(
                dir.join(format!("{}.json", self.id)),
                serde_json::to_string_pretty(&ev).unwrap() + "\n",
            );
        }
        if let Ok(k) = self.known_hit.try_lock() {
            for i in k.iter() {
                println!("KNOWN-FINDING: property={} {}", self.id, self.known[*i].1);
            }
        }
        if bad > 0 {
            let dir = self.root.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}.json", self.id));
            let list: Vec<_> = violations
                .iter()
                .map(|v| serde_json::json!({"case": v.label, "what": v.what}))
                .collect();
            if self.replay.is_none() {
                let _ = std::fs::write(
                    &path,
                    serde_json::to_string_pretty(
                        &serde_json::json!({"property": self.id, "tier": self.tier(), "cases": list}),
                    )
                    .unwrap()
                        + "\n",
                );
            }
            for v in violations.iter().take(8) {
                println!("  case {}: {}", clip(&v.label), clip(&v.what));
            }
            println!("VIOLATION property={} replay={}", self.id, path.display());
            return 1;
        }
        println!(
            "property={} held: {} traces, {} transitions, {} states, {:.1}s ({})",
            self.id,
            self.traces.load(Ordering::SeqCst),
            self.transitions.load(Ordering::SeqCst),
            states,
            self.start.elapsed().as_secs_f64(),
            self.tier()
        );
        0
    }
}

pub fn clip(s: &str) -> String {
    let n = s.chars().count();
    if n > 400 {
        format!("{}... ({n} characters)", s.chars().take(400).collect::<String>())
    } else {
        s.to_string()
    }
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {}, expected {}", format!($($t)*), $crate::ctx::clip(&format!("{a:?}")), $crate::ctx::clip(&format!("{b:?}")))); }
    }};
}
