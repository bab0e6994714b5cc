//! Per-run context: event log, oracles, counters, guarded library calls.
#![allow(static_mut_refs)]
use crate::hooks;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("SIM_LOUD").is_some() {
            eprintln!("panic: {} at {}", m, loc);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, loc));
    }));
}

#[derive(Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub evals: u64,
    pub sim_ns: u64,
    pub c: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub distinct: BTreeSet<u64>,
    pub inter: BTreeSet<u64>,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.runs += o.runs;
        self.evals += o.evals;
        self.sim_ns += o.sim_ns;
        for (k, v) in &o.c {
            *self.c.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.faults {
            *self.faults.entry(k.clone()).or_default() += v;
        }
        self.distinct.extend(o.distinct.iter());
        self.inter.extend(o.inter.iter());
        self.samples.extend(o.samples.iter().cloned());
    }
}

pub struct Cx {
    pub target: String,
    pub hash: u64,
    pub lines: Vec<String>,
    pub keep_lines: bool,
    pub st: Stats,
    pub viol: Option<String>,
    pub step: u64,
    pub now: u64,
    pub budget: u64,
}
pub fn fnv(mut h: u64, b: &[u8]) -> u64 {
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
pub const FNV0: u64 = 0xcbf29ce484222325;

impl Cx {
    pub fn new(target: &str, keep_lines: bool) -> Cx {
        Cx {
            target: target.into(),
            hash: FNV0,
            lines: vec![],
            keep_lines,
            st: Stats::default(),
            viol: None,
            step: 0,
            now: 0,
            budget: 0,
        }
    }
    /// one event of the history; the run's identity is the hash of these
    pub fn log(&mut self, s: String) {
        self.hash = fnv(self.hash, s.as_bytes());
        self.hash = fnv(self.hash, b"\n");
        if self.keep_lines {
            self.lines.push(format!("t={} step={} {}", self.now, self.step, s));
        }
    }
    pub fn count(&mut self, k: &str) {
        *self.st.c.entry(k.to_string()).or_default() += 1;
    }
    pub fn fault(&mut self, k: &str) {
        *self.st.faults.entry(k.to_string()).or_default() += 1;
    }
    /// the sequence of faults so far, step by step, as one number
    pub fn fault_order(&self, h: u64, kind: u8) -> u64 {
        let mut h = fnv(h, &[kind]);
        for (k, v) in &self.st.faults {
            h = fnv(h, k.as_bytes());
            h = fnv(h, &v.to_le_bytes());
        }
        h
    }
    pub fn seen(&mut self, parts: &[u64]) {
        if self.st.distinct.len() < 400_000 {
            let mut h = FNV0;
            for p in parts {
                h = fnv(h, &p.to_le_bytes());
            }
            self.st.distinct.insert(h);
        }
    }
    pub fn hits(&self, props: &[&str]) -> bool {
        props.iter().any(|p| *p == self.target)
    }
    /// an oracle disagrees: a violation if it belongs to the property being checked
    pub fn fail(&mut self, props: &[&str], class: &str, msg: String) {
        if self.hits(props) {
            if self.viol.is_none() {
                self.viol = Some(format!("{}: {}", class, msg));
            }
            self.log(format!("VIOLATION {} {}", class, msg));
        } else {
            self.count(&format!("foreign:{}", class));
        }
    }
    pub fn check(&mut self, ok: bool, props: &[&str], class: &str, msg: impl FnOnce() -> String) {
        self.st.evals += 1;
        if !ok {
            let m = msg();
            self.fail(props, class, m);
        }
    }
    /// Run library code: bounded, panics caught. `None` after a panic, which is
    /// reported against `props`.
    pub fn lib<T>(&mut self, op: &'static str, props: &[&str], f: impl FnOnce() -> T) -> Option<T> {
        match self.lib_raw(op, props, f) {
            Ok(v) => Some(v),
            Err(m) => {
                self.log(format!("PANIC {} {}", op, strip_loc(&m)));
                self.fail(props, "panic", format!("{} panicked: {}", op, m));
                None
            }
        }
    }
    pub fn lib_raw<T>(&mut self, op: &'static str, props: &[&str], f: impl FnOnce() -> T) -> Result<T, String> {
        let hit = self.hits(props);
        unsafe {
            hooks::CUR_OP = op;
            hooks::CUR_HIT = hit;
            hooks::CUR_STEP = self.step;
            let b = if self.budget > 0 { self.budget } else { 20_000_000 };
            hooks::BUDGET = hooks::EDGES + b;
            if hooks::SCHED.is_none() {
                hooks::LIMIT = hooks::BUDGET;
            }
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        unsafe {
            hooks::CUR_OP = "-";
            hooks::CUR_HIT = false;
            if hooks::SCHED.is_none() {
                hooks::LIMIT = u64::MAX;
            }
        }
        self.count(op);
        r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
    }
}
/// panic text without the source position (which a refactoring may move)
pub fn strip_loc(m: &str) -> &str {
    m.rsplit_once(" at ").map(|x| x.0).unwrap_or(m)
}
