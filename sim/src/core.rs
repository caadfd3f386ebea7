//! Run context: event log digest, fault and probe counters, panics.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Clone, Debug)]
pub struct Violation {
    /// Coarse class, kept while minimising.
    pub class: String,
    pub msg: String,
}

pub type Res<T = ()> = Result<T, Violation>;

pub fn viol<T>(class: &str, msg: impl Into<String>) -> Res<T> {
    let mut msg: String = msg.into();
    if msg.len() > 4000 {
        let mut k = 4000;
        while !msg.is_char_boundary(k) {
            k -= 1;
        }
        msg.truncate(k);
    }
    Err(Violation { class: class.to_string(), msg })
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($fmt:tt)*) => {
        if !$cond { return $crate::core::viol($class, format!($($fmt)*)); }
    };
}

pub struct Ctx {
    pub digest: u64,
    pub events: u64,
    pub log: Option<Vec<String>>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub steps: u64,
    pub states: BTreeSet<u64>,
    pub schedule: u64,
    /// Known findings observed in this run: (finding id).
    pub known: BTreeMap<String, u64>,
    /// Whether this run actually exercised the property's oracle.
    pub nontrivial: bool,
}

pub fn fnv(mut h: u64, bytes: &[u8]) -> u64 {
    for &b in bytes {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
pub const FNV0: u64 = 0xcbf29ce484222325;

impl Ctx {
    pub fn new(keep_log: bool) -> Self {
        Ctx {
            digest: FNV0,
            events: 0,
            log: if keep_log { Some(vec![]) } else { None },
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            steps: 0,
            states: BTreeSet::new(),
            schedule: FNV0,
            known: BTreeMap::new(),
            nontrivial: false,
        }
    }
    pub fn event(&mut self, s: impl AsRef<str>) {
        let s = s.as_ref();
        self.events += 1;
        self.digest = fnv(fnv(self.digest, s.as_bytes()), b"\n");
        if let Some(log) = &mut self.log {
            if log.len() < 100_000 {
                log.push(s.to_string());
            }
        }
    }
    pub fn fault(&mut self, kind: &str) {
        *self.faults.entry(kind.to_string()).or_insert(0) += 1;
    }
    pub fn probe(&mut self, kind: &str) {
        *self.probes.entry(kind.to_string()).or_insert(0) += 1;
    }
    pub fn state(&mut self, h: u64) {
        if self.states.len() < 4096 {
            self.states.insert(h);
        }
    }
    pub fn sched(&mut self, s: &str) {
        self.schedule = fnv(fnv(self.schedule, s.as_bytes()), b";");
    }
}

/// Payload of every injected panic ("the callback crashed here").
#[derive(Clone, Copy, Debug)]
pub struct Injected;
/// Payload used to cut a run that exceeded its step budget.
#[derive(Clone, Copy, Debug)]
pub struct Cut;

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(non-string panic)".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

pub fn take_panic() -> String {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| "(unknown panic)".into())
}

pub enum Outcome<T> {
    Done(T),
    Injected,
    Cut,
    Panicked(String),
}

pub fn throw_injected() -> ! {
    std::panic::resume_unwind(Box::new(Injected))
}
pub fn throw_cut() -> ! {
    std::panic::resume_unwind(Box::new(Cut))
}

pub fn classify<T>(r: Result<T, Box<dyn Any + Send>>) -> Outcome<T> {
    match r {
        Ok(v) => Outcome::Done(v),
        Err(p) => {
            if p.is::<Injected>() {
                Outcome::Injected
            } else if p.is::<Cut>() {
                Outcome::Cut
            } else {
                match p.downcast_ref::<String>() {
                    Some(m) if LAST_PANIC.with(|l| l.borrow().is_none()) => Outcome::Panicked(m.clone()),
                    _ => Outcome::Panicked(take_panic()),
                }
            }
        }
    }
}

/// Runs real code; panics become values.
pub fn run<T>(f: impl FnOnce() -> T) -> Outcome<T> {
    classify(catch_unwind(AssertUnwindSafe(f)))
}

/// Runs real code that must not panic.
pub fn must<T>(class: &str, what: &str, f: impl FnOnce() -> T) -> Res<T> {
    match run(f) {
        Outcome::Done(v) => Ok(v),
        Outcome::Panicked(m) => viol(class, format!("{what} panicked: {m}")),
        Outcome::Injected => viol(class, format!("{what}: stray injected panic")),
        Outcome::Cut => viol(class, format!("{what}: stray cut")),
    }
}
