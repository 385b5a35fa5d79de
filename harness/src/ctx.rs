//! Bookkeeping of one conformance run: what was compared, and what differed.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};

pub struct Violation {
    pub state: usize,
    pub what: String,
}

pub struct Ctx {
    pub prop: String,
    pub checks: u64,
    pub states: u64,
    pub ops: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub sample: Vec<String>,
    /// disagreements in operations that belong to other properties
    pub foreign: u64,
    pub state: usize,
    pub progress: std::sync::Arc<std::sync::Mutex<Progress>>,
}

pub struct Progress {
    pub file: String,
    pub state: usize,
    pub since: std::time::Instant,
    pub busy: bool,
}

pub type Res = Result<(), Violation>;

impl Ctx {
    /// Count one operation replayed; `key` identifies the case.
    pub fn op(&mut self, name: &str, key: &str) {
        *self.ops.entry(name.to_string()).or_insert(0) += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (name, key).hash(&mut h);
        if self.distinct.insert(h.finish()) && self.sample.len() < 3 && self.ops[name] == 1 {
            let mut k = key.to_string();
            if k.len() > 300 {
                k = k.chars().take(300).collect::<String>() + "...";
            }
            self.sample.push(format!("{name} {k}"));
        }
    }
    pub fn fail<T>(&self, what: String) -> Result<T, Violation> {
        Err(Violation { state: self.state, what })
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: T, want: T) -> Res {
        self.checks += 1;
        if got == want {
            Ok(())
        } else {
            self.fail(format!("{what}: got {got:?}, the specification requires {want:?}"))
        }
    }
    /// |got - want| <= tol, tol already scaled
    pub fn near(&mut self, what: &str, got: f64, want: f64, tol: f64) -> Res {
        self.checks += 1;
        if (got - want).abs() <= tol {
            Ok(())
        } else {
            self.fail(format!(
                "{what}: got {got:e}, the specification requires {want:e} (tolerance {tol:e})"
            ))
        }
    }
    pub fn must(&mut self, what: &str, ok: bool) -> Res {
        self.checks += 1;
        if ok { Ok(()) } else { self.fail(what.to_string()) }
    }
    /// Run code under test. A panic is an outcome, not an error of the harness.
    pub fn call<T>(&self, f: impl FnOnce() -> T) -> Result<T, String> {
        {
            let mut p = self.progress.lock().unwrap();
            p.state = self.state;
            p.since = std::time::Instant::now();
            p.busy = true;
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        self.progress.lock().unwrap().busy = false;
        r.map_err(|e| {
            e.downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into())
        })
    }
    /// Run code under test that must return.
    pub fn run<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
        self.checks += 1;
        match self.call(f) {
            Ok(x) => Ok(x),
            Err(e) => self.fail(format!("{what}: panicked ({e})")),
        }
    }
}
