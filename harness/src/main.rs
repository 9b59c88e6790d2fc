mod bgref;
mod cx;
mod explore;
mod families;
mod props;
mod toy;
mod tttref;
mod util;

use cx::{Cx, Outcome, Violation};
use std::io::Write;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// The harness owns the operating system's randomness: hash seeds (and with them HashMap orders)
/// and PRNG seeds are the same in every run.
pub static HASH_SEED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut z = HASH_SEED.load(std::sync::atomic::Ordering::Relaxed) ^ 0x1234_5678_9abc_def1;
    for i in 0..len {
        if i % 8 == 0 {
            z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            z ^= z >> 29;
        }
        unsafe { *buf.add(i) = (z >> (8 * (i % 8))) as u8 };
    }
    len as isize
}

#[no_mangle]
pub extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
    getrandom(buf, len, 0);
    0
}

/// The real standard output; file descriptor 1 is pointed at /dev/null while real code runs.
fn own_stdout() -> std::fs::File {
    use std::os::fd::FromRawFd;
    unsafe {
        let fd = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 10);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY | libc::O_CLOEXEC);
        libc::dup2(null, 1);
        std::fs::File::from_raw_fd(fd)
    }
}

struct Args {
    prop: String,
    tier: String,
    worker: Option<(u64, u64, PathBuf)>,
    case: Option<String>,
    jobs: u64,
}

fn args() -> Args {
    let mut a = Args { prop: String::new(), tier: std::env::var("VERIF_TIER").unwrap_or("quick".into()), worker: None, case: None, jobs: 8 };
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i < v.len() {
        match v[i].as_str() {
            "--tier" => { a.tier = v[i + 1].clone(); i += 1 }
            "--case" => { a.case = Some(v[i + 1].clone()); i += 1 }
            "--jobs" => { a.jobs = v[i + 1].parse().unwrap(); i += 1 }
            "--worker" => {
                a.worker = Some((v[i + 1].parse().unwrap(), v[i + 2].parse().unwrap(), PathBuf::from(&v[i + 3])));
                i += 3
            }
            p => a.prop = p.to_string(),
        }
        i += 1;
    }
    a
}

fn main() {
    let a = args();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let p = match props::ALL.iter().find(|p| p.id == a.prop) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}; known: {}", a.prop, props::ALL.iter().map(|p| p.id).collect::<Vec<_>>().join(" "));
            std::process::exit(2)
        }
    };
    match &a.worker {
        Some((_, _, dir)) => worker(p, &a, seed, dir),
        None => coordinate(p, &a, seed),
    }
}

fn worker(p: &props::Prop, a: &Args, seed: u64, dir: &std::path::Path) {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let _out = own_stdout();
    if std::env::var_os("MC_PANICS").is_none() {
        // libtorch prints stack traces of caught exceptions
        unsafe {
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY | libc::O_CLOEXEC);
            if std::env::var_os("MC_STDERR").is_none() {
                let keep = libc::fcntl(2, libc::F_DUPFD_CLOEXEC, 10);
                let _ = keep;
                libc::dup2(null, 2);
            }
        }
    }
    explore::quiet_panics();
    tch::set_num_threads(1);
    tch::set_num_interop_threads(1);
    tch::manual_seed(7);
    let mut cx = Cx::new(a.tier == "thorough", seed, a.case.clone(), dir.to_path_buf());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut cx)));
    if let Err(e) = r {
        let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        cx.out.notes.push(format!("HARNESS PANIC in case {}: {msg}", cx.label()));
    } else {
        cx.out.done = true;
        cx.timing();
    }
    std::fs::write(dir.join("result.json"), serde_json::to_vec(&cx.out).unwrap()).unwrap();
}

struct Job {
    child: Child,
    dir: PathBuf,
    last: (Vec<u8>, Instant),
    ended: Option<std::process::ExitStatus>,
    hung: bool,
}

fn coordinate(p: &props::Prop, a: &Args, seed: u64) {
    let mut out = std::io::stdout();
    let t0 = Instant::now();
    let scratch = std::env::temp_dir().join(format!("mc-{}-{}", p.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&scratch);
    let jobs_n = if a.case.is_some() { 1 } else { a.jobs.min(p.jobs) };
    let wall = std::env::var("MC_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(if a.tier == "thorough" { 14400.0 } else { 780.0 });
    let hang = std::env::var("MC_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(200.0);
    let exe = std::env::current_exe().unwrap();
    std::fs::create_dir_all(&scratch).unwrap();
    std::fs::File::create(scratch.join("claims")).and_then(|f| f.set_len(cx::MAX_CASES)).unwrap();
    let mut jobs: Vec<Job> = (0..jobs_n)
        .map(|i| {
            let dir = scratch.join(format!("w{i}"));
            std::fs::create_dir_all(&dir).unwrap();
            let mut c = Command::new(&exe);
            c.arg(p.id).args(["--tier", &a.tier, "--worker", &i.to_string(), &jobs_n.to_string()]).arg(&dir);
            if let Some(k) = &a.case {
                c.args(["--case", k]);
            }
            c.env("OMP_NUM_THREADS", "1").env("MKL_NUM_THREADS", "1").env("RUST_BACKTRACE", "0").env("RUST_MIN_STACK", "67108864");
            c.current_dir(&dir).stdin(Stdio::null()).stdout(Stdio::null());
            Job { child: c.spawn().expect("worker"), dir, last: (vec![], Instant::now()), ended: None, hung: false }
        })
        .collect();
    let mut timed_out = false;
    loop {
        let mut running = 0;
        for j in jobs.iter_mut().filter(|j| j.ended.is_none()) {
            if let Some(s) = j.child.try_wait().unwrap() {
                j.ended = Some(s);
                continue;
            }
            running += 1;
            let now = std::fs::read(j.dir.join("progress")).unwrap_or_default();
            if now != j.last.0 {
                j.last = (now, Instant::now());
            } else if j.last.1.elapsed().as_secs_f64() > hang {
                j.hung = true;
                let _ = j.child.kill();
            }
            if t0.elapsed().as_secs_f64() > wall {
                timed_out = true;
                let _ = j.child.kill();
            }
        }
        if running == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // gather
    let mut o = Outcome { done: true, ..Default::default() };
    let mut broken = vec![];
    for j in &jobs {
        use std::os::unix::process::ExitStatusExt;
        let st = j.ended.unwrap();
        let label = || {
            let s = String::from_utf8_lossy(&j.last.0).trim().to_string();
            s.splitn(3, ' ').nth(2).unwrap_or("start").to_string()
        };
        match std::fs::read(j.dir.join("result.json")).ok().and_then(|b| serde_json::from_slice::<Outcome>(&b).ok()) {
            Some(r) => {
                o.states += r.states;
                o.transitions += r.transitions;
                o.traces += r.traces;
                o.cases += r.cases;
                o.truncated += r.truncated;
                o.diverged += r.diverged;
                o.undecided += r.undecided;
                if o.samples.len() < 6 {
                    o.samples.extend(r.samples);
                }
                for b in r.bounds {
                    if !o.bounds.contains(&b) {
                        o.bounds.push(b);
                    }
                }
                for b in r.notes {
                    if !o.notes.contains(&b) {
                        o.notes.push(b);
                    }
                }
                o.violations.extend(r.violations);
                if !r.done {
                    broken.push("a worker's harness code panicked".to_string());
                }
            }
            None if timed_out => o.notes.push("a worker was stopped at the wall limit; its counts are not included".into()),
            None if j.hung => o.violations.push(Violation { key: "hang".into(), label: label(), detail: format!("no progress for {hang} s in this case: the code under test does not terminate") }),
            None => match st.signal() {
                Some(s @ (libc::SIGSEGV | libc::SIGABRT | libc::SIGILL | libc::SIGBUS | libc::SIGFPE)) => {
                    o.violations.push(Violation { key: "abort".into(), label: label(), detail: format!("the process was ended by signal {s} in this case (stack overflow or abort in the code under test)") })
                }
                _ => broken.push(format!("worker ended with {st:?} in case {}", label())),
            },
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    // known findings
    let known = known_findings(p.id);
    let verif = verif_dir();
    let evdir = verif.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    let mut fresh: Vec<&Violation> = vec![];
    let mut seen_known = vec![];
    for v in &o.violations {
        match known.iter().find(|(k, l)| *k == v.key && (l == "*" || *l == v.label)) {
            Some((k, _)) => {
                if !seen_known.contains(&(k.clone(), v.label.clone())) {
                    seen_known.push((k.clone(), v.label.clone()));
                    let _ = writeln!(out, "KNOWN-FINDING: property={} {}: {} ({})", p.id, v.key, one_line(&v.detail), v.label);
                }
            }
            None => fresh.push(v),
        }
    }
    for f in std::fs::read_dir(&evdir).into_iter().flatten().flatten() {
        if f.file_name().to_string_lossy().starts_with(&format!("{}.violation", p.id)) {
            let _ = std::fs::remove_file(f.path());
        }
    }
    let mut keys: Vec<&str> = vec![];
    for v in &fresh {
        if keys.contains(&v.key.as_str()) {
            continue;
        }
        keys.push(&v.key);
        let path = evdir.join(format!("{}.violation-{}.json", p.id, keys.len()));
        let replay = format!("cd /verif && ./check.sh {} {} --case {:?}", p.id, a.tier, v.label);
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&serde_json::json!({"property": p.id, "what": v.key, "case": v.label, "detail": v.detail, "replay": replay})).unwrap());
        let _ = writeln!(out, "{}: {} in case {}: {}", p.id, v.key, v.label, one_line(&v.detail));
        let _ = writeln!(out, "VIOLATION property={} replay={}", p.id, path.display());
    }
    let wall_s = t0.elapsed().as_secs_f64();
    let exhaustive = !timed_out && o.truncated == 0 && broken.is_empty() && fresh.is_empty();
    let ev = serde_json::json!({
        "property": p.id, "tier": if a.tier == "thorough" {"thorough"} else {"quick"}, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": o.states, "transitions": o.transitions, "traces_validated_against_impl": o.traces,
            "cases": o.cases, "samples": o.samples, "bounds": o.bounds, "exhaustive": exhaustive,
            "searches_cut_off": o.truncated, "undecided": o.undecided, "replay_divergences": o.diverged, "notes": o.notes,
            "meaning": p.meaning,
        },
        "assumptions": p.assumptions,
        "wall_s": wall_s, "violations": fresh.len(),
    });
    if a.case.is_none() {
        std::fs::write(evdir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    let _ = writeln!(out, "{} {}: {} cases, {} states, {} transitions, {} traces, cut off {}, diverged {}, undecided {}, {:.1} s", p.id, a.tier, o.cases, o.states, o.transitions, o.traces, o.truncated, o.diverged, o.undecided, wall_s);
    for n in &o.notes {
        let _ = writeln!(out, "  note: {n}");
    }
    if !fresh.is_empty() {
        std::process::exit(1);
    }
    if !broken.is_empty() {
        for b in broken {
            let _ = writeln!(out, "ERROR {b}");
        }
        std::process::exit(3);
    }
}

fn one_line(s: &str) -> String {
    s.chars().take(600).map(|c| if c == '\n' { ' ' } else { c }).collect()
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or("/verif".into())
}

/// Lines `finding: property=<id> key=<key> case=<label or *> -- text`.
fn known_findings(id: &str) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (pid, rest) = l.split_once(" key=")?;
            if pid != id {
                return None;
            }
            let (key, rest) = rest.split_once(" case=")?;
            let label = rest.split(" -- ").next()?.trim();
            Some((key.to_string(), label.to_string()))
        })
        .collect()
}
