//! Worker context: sharding, counters, violations.
use crate::explore::{Fail, Stats};
use serde::{Deserialize, Serialize};
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU8, Ordering::SeqCst};
use std::time::Instant;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Violation {
    pub key: String,    // stable identity: what fails
    pub label: String,  // the case
    pub detail: String, // what was seen
}

#[derive(Serialize, Deserialize, Debug, Default)]
pub struct Outcome {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub cases: u64,
    pub truncated: u64,
    pub diverged: u64,
    pub undecided: u64,
    pub samples: Vec<String>,
    pub bounds: Vec<String>,
    pub notes: Vec<String>,
    pub violations: Vec<Violation>,
    pub done: bool,
}

pub struct Cx {
    pub thorough: bool,
    pub seed: u64,
    claims: Option<&'static [AtomicU8]>, // one byte for each case, shared by the workers
    counter: u64,
    filter: Option<String>,
    pub out: Outcome,
    progress: Option<File>,
    started: Instant,
    pub scratch: std::path::PathBuf,
    label: String,
    case_from: f64,
    previous: String,
}

const MAX_VIOLATIONS: usize = 4;

pub const MAX_CASES: u64 = 1 << 22;

/// The claims file of the coordinator, beside the worker's directory.
fn claims(scratch: &std::path::Path) -> Option<&'static [AtomicU8]> {
    use std::os::fd::AsRawFd;
    let f = File::options().read(true).write(true).open(scratch.parent()?.join("claims")).ok()?;
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), MAX_CASES as usize, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        (p != libc::MAP_FAILED).then(|| std::slice::from_raw_parts(p as *const AtomicU8, MAX_CASES as usize))
    }
}

impl Cx {
    pub fn new(thorough: bool, seed: u64, filter: Option<String>, scratch: std::path::PathBuf) -> Self {
        let progress = File::options().create(true).write(true).truncate(true).open(scratch.join("progress")).ok();
        let claims = claims(&scratch);
        Cx { thorough, seed, claims, counter: 0, filter, out: Outcome::default(), progress, started: Instant::now(), scratch, label: String::new(), case_from: 0.0, previous: String::new() }
    }

    /// Announces the next case; true if this worker runs it.
    pub fn case(&mut self, label: impl FnOnce() -> String) -> bool {
        let n = self.counter;
        self.counter += 1;
        if self.stop() {
            return false;
        }
        if let Some(f) = &self.filter {
            let l = label();
            if l != *f {
                return false;
            }
            self.label = l;
        } else {
            let mine = match self.claims {
                Some(c) => c.get(n as usize).is_none_or(|b| b.swap(1, SeqCst) == 0),
                None => true,
            };
            if !mine {
                return false;
            }
            self.label = label();
        }
        self.timing();
        self.case_from = self.secs();
        self.previous = self.label.clone();
        let hash = self.label.bytes().fold(1469598103934665603u64, |h, b| (h ^ b as u64).wrapping_mul(1099511628211));
        crate::util::BACKGROUND.store(hash >> 20, SeqCst);
        self.out.cases += 1;
        self.tick();
        if self.out.samples.len() < 2 {
            self.out.samples.push(self.label.clone());
        }
        true
    }

    /// For finding slow cases: appends the time of the case that ends to the file MC_TIMES.
    pub fn timing(&self) {
        use std::io::Write;
        if let (Some(p), false) = (std::env::var_os("MC_TIMES"), self.previous.is_empty()) {
            if let Ok(mut f) = File::options().create(true).append(true).open(p) {
                let _ = writeln!(f, "{:8.2} {}", self.secs() - self.case_from, self.previous);
            }
        }
    }

    /// Tells the coordinator that progress is being made.
    pub fn tick(&mut self) {
        if let Some(p) = &self.progress {
            let mut l = format!("{} {} {}", self.out.cases, self.out.transitions, self.label).into_bytes();
            l.resize(400, b' ');
            let _ = p.write_all_at(&l, 0);
        }
    }

    pub fn label(&self) -> &str {
        &self.label
    }

    pub fn stop(&self) -> bool {
        self.out.violations.len() >= MAX_VIOLATIONS
    }

    pub fn secs(&self) -> f64 {
        self.started.elapsed().as_secs_f64()
    }

    pub fn fail(&mut self, key: &str, detail: impl Into<String>) {
        if self.out.violations.iter().filter(|v| v.key == key).count() >= 2 {
            return;
        }
        let mut detail = detail.into();
        if detail.len() > 4000 {
            detail = detail.chars().take(4000).collect();
        }
        self.out.violations.push(Violation { key: key.into(), label: self.label.clone(), detail });
    }

    /// Checks a condition.
    pub fn check(&mut self, ok: bool, key: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            let d = detail();
            self.fail(key, d);
        }
        ok
    }

    /// Unwraps the result of real code; a panic is a violation.
    pub fn unwrap<T>(&mut self, r: Result<T, Fail>, key: &str, detail: impl FnOnce() -> String) -> Option<T> {
        match r {
            Ok(x) => Some(x),
            Err(e) => {
                let d = detail();
                self.fail(key, format!("{d}: {e:?}"));
                None
            }
        }
    }

    pub fn add(&mut self, s: Stats) {
        self.out.traces += s.runs;
        self.out.transitions += s.choices;
        self.out.truncated += s.truncated as u64;
        self.out.diverged += s.diverged;
    }

    pub fn bound(&mut self, s: impl Into<String>) {
        let s = s.into();
        if !self.out.bounds.contains(&s) {
            self.out.bounds.push(s);
        }
    }

    pub fn note(&mut self, s: impl Into<String>) {
        let s = s.into();
        if !self.out.notes.contains(&s) && self.out.notes.len() < 50 {
            self.out.notes.push(s);
        }
    }
}
