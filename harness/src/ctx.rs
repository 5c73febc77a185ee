//! Case context: randomness, event counts, fingerprints, verdicts.
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, BTreeSet};

/// Panic payload by which an oracle reports a violation.
pub struct Violation(pub String);

pub struct Ctx {
    pub rng: Rng,
    pub case: u64,
    /// fingerprint of what this case exercised
    pub fp: u64,
    /// whether the case exercised anything non-trivial
    pub nontrivial: bool,
    /// trace every step (replay)
    pub verbose: bool,
    /// report functional disagreements (off when only memory errors are being judged)
    pub judge: bool,
    /// small workloads (Miri)
    pub small: bool,
    pub thorough: bool,
    pub events: BTreeMap<&'static str, u64>,
    pub notes: BTreeSet<String>,
    pub describe: Vec<String>,
    pub want_desc: bool,
}

impl Ctx {
    pub fn new(small: bool, thorough: bool) -> Self {
        Ctx {
            rng: Rng::new(0),
            case: 0,
            fp: 0,
            nontrivial: false,
            verbose: false,
            judge: true,
            small,
            thorough,
            events: BTreeMap::new(),
            notes: BTreeSet::new(),
            describe: Vec::new(),
            want_desc: false,
        }
    }
    pub fn begin(&mut self, prop: &str, seed: u64, case: u64) {
        let mut h = mix(seed ^ 0xC0FF_EE00);
        for b in prop.bytes() {
            h = mix(h ^ b as u64);
        }
        h = mix(h ^ mix(case));
        self.rng = Rng::new(h);
        self.case = case;
        self.fp = 0;
        self.nontrivial = false;
        self.describe.clear();
    }
    /// Record an observed event of a kind (counted) and mix data into the fingerprint.
    pub fn ev(&mut self, kind: &'static str) {
        *self.events.entry(kind).or_insert(0) += 1;
    }
    pub fn evn(&mut self, kind: &'static str, n: u64) {
        *self.events.entry(kind).or_insert(0) += n;
    }
    pub fn mixin(&mut self, x: u64) {
        self.fp = mix(self.fp ^ x);
    }
    /// Distinct state/configuration seen.
    pub fn note(&mut self, s: impl FnOnce() -> String) {
        if self.notes.len() < 4096 {
            self.notes.insert(s());
        }
    }
    /// Describe a step, lazily.
    pub fn step(&mut self, s: impl FnOnce() -> String) {
        if self.verbose || self.want_desc {
            let t = s();
            if self.verbose {
                use std::io::Write;
                let e = std::io::stderr();
                let mut e = e.lock();
                let _ = writeln!(e, "STEP {}", t);
            }
            self.describe.push(t);
        }
    }
    pub fn fail(&self, msg: String) {
        if self.judge {
            std::panic::panic_any(Violation(msg));
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($ctx:expr, $cond:expr, $($arg:tt)*) => {
        if !($cond) {
            $ctx.fail(format!($($arg)*));
        }
    };
}

thread_local! {
    /// message and location of the last panic on this thread
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|c| *c.borrow_mut() = format!("{} ({})", msg, loc));
    }));
}

/// Run something that is expected to panic.
pub fn quietly<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
}
