//! Stateless depth-first exploration of executions of the real code. Every random draw (and every
//! harness-level fault or schedule choice) is a choice point; a run is replayed from a prefix of
//! choices, takes the default afterwards, and the next prefix is found by backtracking. Bounded by
//! the number of branching choice points and by the number of deviations from the default.
use rand::ctl::{self, Ask};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Int,
    Weighted,
    Harness,
}

#[derive(Clone, Debug)]
pub struct Choice {
    pub k: u32,     // how far from the default (0 = default)
    pub value: u32, // the chosen offset
    pub arity: u32,
    pub kind: Kind,
    pub positive: Vec<usize>, // weighted: the indices that could be drawn
}

#[derive(Clone, Copy, Debug)]
pub struct Bounds {
    pub max_free: usize,  // choice points that may branch
    pub max_dev: usize,   // deviations from the default per run
    pub max_runs: u64,    // safety cap (reported when hit)
    pub horizon: usize,   // choices after which a run is cut off
    pub fair: usize,      // choices after which the fixed default becomes pseudo-random
    pub base: u64,        // 0: the default is always option 0; otherwise a fixed pseudo-random default
    pub keep_positive: bool,
}

impl Bounds {
    pub fn full() -> Self {
        Bounds { max_free: usize::MAX, max_dev: usize::MAX, max_runs: u64::MAX, horizon: 1_000_000, fair: 300_000, base: 0, keep_positive: false }
    }
    pub fn dev(d: usize) -> Self {
        Bounds { max_dev: d, ..Self::full() }
    }
}

#[derive(Debug, Default)]
pub struct Tape {
    prefix: Vec<u32>,
    pub trace: Vec<Choice>,
    horizon: usize,
    fair: usize,
    base: u64,
    keep_positive: bool,
    pub diverged: bool,
    pub raw: u64,
}

pub const HORIZON: &str = "verif: horizon reached";

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Tape {
    fn answer(&mut self, arity: usize, kind: Kind, positive: &[usize]) -> u64 {
        let i = self.trace.len();
        if i >= self.horizon {
            std::panic::panic_any(HORIZON);
        }
        // late in a run also the fixed default varies, so that code drawing until something changes gets out of its loop
        let default = if self.base == 0 && i < self.fair { 0 } else { mix(self.base ^ ((i as u64) << 20)) % arity as u64 };
        let mut k = self.prefix.get(i).copied().unwrap_or(0) as u64;
        if k >= arity as u64 {
            self.diverged = true;
            k = 0;
        }
        let value = (default + k) % arity as u64;
        let positive = if self.keep_positive { positive.to_vec() } else { vec![] };
        self.trace.push(Choice { k: k as u32, value: value as u32, arity: arity as u32, kind, positive });
        value
    }
}

#[derive(Clone)]
pub struct Run {
    pub tape: Arc<Mutex<Tape>>,
    pub raw_seed: u64,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Fail {
    Panic(String),
    Horizon,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let msg: String = msg.chars().take(300).collect();
        if std::env::var_os("MC_PANICS").is_some() {
            eprintln!("panic at {loc}: {msg}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} [{loc}]"));
    }));
}

/// Runs real code; a panic is an observation, not a crash of the checker.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if e.downcast_ref::<&str>().is_some_and(|s| *s == HORIZON) {
            Fail::Horizon
        } else {
            Fail::Panic(LAST_PANIC.with(|p| p.borrow().clone()))
        }
    })
}

impl Run {
    fn new(prefix: Vec<u32>, b: &Bounds) -> Self {
        Run {
            tape: Arc::new(Mutex::new(Tape {
                prefix,
                horizon: b.horizon,
                fair: b.fair,
                base: b.base,
                keep_positive: b.keep_positive,
                ..Default::default()
            })),
            raw_seed: 1,
        }
    }

    /// A run outside any exploration: all defaults.
    pub fn default_run() -> Self {
        Run::new(vec![], &Bounds::full())
    }

    /// A run with these choices, defaults afterwards.
    pub fn scripted(choices: Vec<u32>) -> Self {
        Run::new(choices, &Bounds::full())
    }

    pub fn with_bounds(b: &Bounds) -> Self {
        Run::new(vec![], b)
    }

    /// A harness-level choice (fault, schedule, configuration).
    pub fn choose(&self, arity: usize) -> usize {
        if arity <= 1 {
            return 0;
        }
        self.tape.lock().unwrap_or_else(|e| e.into_inner()).answer(arity, Kind::Harness, &[]) as usize
    }

    /// Puts this thread's random draws under control.
    fn control(&self) {
        let tape = self.tape.clone();
        ctl::install(
            Box::new(move |a| {
                rayon_core::ctl::yield_point();
                let mut t = tape.lock().unwrap_or_else(|e| e.into_inner());
                Some(match a {
                    Ask::Int(n) => {
                        if n <= 1 {
                            0
                        } else {
                            t.answer(n as usize, Kind::Int, &[])
                        }
                    }
                    Ask::Weighted(p) => {
                        if p.len() <= 1 && !t.keep_positive {
                            0
                        } else {
                            t.answer(p.len(), Kind::Weighted, p)
                        }
                    }
                })
            }),
            self.raw_seed,
        );
    }

    /// Runs the code under test on this thread with its random draws under control.
    pub fn with<T>(&self, f: impl FnOnce() -> T) -> Result<T, Fail> {
        self.control();
        let r = catch(f);
        let raw = ctl::uninstall();
        self.tape.lock().unwrap_or_else(|e| e.into_inner()).raw += raw;
        r
    }

    /// The same on a fresh thread: hash-map orders start from the harness's hash seed.
    pub fn with_fresh<T: Send>(&self, f: impl FnOnce() -> T + Send) -> Result<T, Fail> {
        self.with_threads(1, Box::new(|| rayon_core::ctl::Join::InOrder), f)
    }

    /// The same with a controlled pool of worker threads.
    pub fn with_threads<T: Send>(&self, threads: usize, decider: Box<dyn FnMut() -> rayon_core::ctl::Join + Send>, f: impl FnOnce() -> T + Send) -> Result<T, Fail> {
        self.with_team(threads, decider, None, f)
    }

    /// The same with threads that take turns as `switch` says.
    pub fn with_team<T: Send>(&self, threads: usize, decider: Box<dyn FnMut() -> rayon_core::ctl::Join + Send>, switch: Option<rayon_core::ctl::Switch>, f: impl FnOnce() -> T + Send) -> Result<T, Fail> {
        let me = self.clone();
        let starter: rayon_core::ctl::Starter = Arc::new(move || {
            me.control();
            struct End(Run);
            impl Drop for End {
                fn drop(&mut self) {
                    let raw = ctl::uninstall();
                    self.0.tape.lock().unwrap_or_else(|e| e.into_inner()).raw += raw;
                }
            }
            Box::new(End(me.clone()))
        });
        std::thread::scope(|s| {
            s.spawn(|| self.with(|| {
                rayon_core::ctl::install_team(threads, decider, switch, Some(starter));
                struct Off;
                impl Drop for Off {
                    fn drop(&mut self) {
                        rayon_core::ctl::uninstall();
                    }
                }
                let _off = Off;
                f()
            })).join().expect("harness thread")
        })
    }

    pub fn choices(&self) -> Vec<u32> {
        self.tape.lock().unwrap_or_else(|e| e.into_inner()).trace.iter().map(|c| c.value).collect()
    }

    pub fn trace(&self) -> Vec<Choice> {
        self.tape.lock().unwrap_or_else(|e| e.into_inner()).trace.clone()
    }

    pub fn raw(&self) -> u64 {
        self.tape.lock().unwrap_or_else(|e| e.into_inner()).raw
    }

    /// Product of 1/arity over uniform choices.
    pub fn probability(&self) -> f64 {
        self.trace().iter().map(|c| 1.0 / c.arity as f64).product()
    }
}

#[derive(Debug, Default, Clone, Copy)]
pub struct Stats {
    pub runs: u64,
    pub choices: u64,
    pub truncated: bool,
    pub diverged: u64,
    pub horizons: u64,
}

/// Explores all runs within the bounds; the body returns false to stop.
pub fn dfs(b: &Bounds, mut body: impl FnMut(&Run) -> bool) -> Stats {
    let mut st = Stats::default();
    let mut prefix: Vec<u32> = vec![];
    loop {
        let run = Run::new(prefix.clone(), b);
        let go_on = body(&run);
        let t = run.tape.lock().unwrap_or_else(|e| e.into_inner());
        st.runs += 1;
        st.choices += t.trace.len() as u64;
        if t.diverged {
            st.diverged += 1;
        }
        if t.trace.len() >= b.horizon {
            st.horizons += 1;
        }
        if !go_on {
            return st;
        }
        if st.runs >= b.max_runs {
            st.truncated = true;
            return st;
        }
        // backtrack
        let n = t.trace.len().min(b.max_free);
        let mut devs: Vec<usize> = Vec::with_capacity(n + 1);
        let mut d = 0;
        for c in &t.trace[..n] {
            devs.push(d);
            if c.k != 0 {
                d += 1;
            }
        }
        let mut next = None;
        for i in (0..n).rev() {
            let c = &t.trace[i];
            if c.k + 1 < c.arity && devs[i] + 1 <= b.max_dev {
                let mut p: Vec<u32> = t.trace[..i].iter().map(|c| c.k).collect();
                p.push(c.k + 1);
                next = Some(p);
                break;
            }
        }
        match next {
            Some(p) => prefix = p,
            None => return st,
        }
    }
}
