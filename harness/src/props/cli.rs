//! C22, C24, C26: the command-line program, run in scratch directories.
use super::learn::{explore_self_play, pass_ends, Setup};
use super::search::{batch, check_batch, model_against_real, Nets};
use super::store::{flat, fresh_dir, id_of, sample, weights, Flat};
use super::train::{bias_policy, learning_run, step_count, training_pass, Plan, Reference};
use crate::cx::Cx;
use crate::explore::{catch, Bounds, Run};
use crate::toy::{self, show, Shape, Table, Toy};
use crate::util::*;
use die_e::alphazero::alphazero::{AlphaZero, MemoryFragment};
use die_e::alphazero::nnet::ResNet;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use die_e::versus::{load_game, save_game, Agent, Game, Turn};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub const ENTRIES: [&str; 13] = [
    "temperature", "learn_iterations", "num_epochs", "training_batch_size", "self_play_iterations", "num_self_play_batches", "iterations", "exploration_const",
    "simulate_round_limit", "dirichlet_alpha", "dirichlet_epsilon", "wd", "lr",
];

/// A configuration file; entries as text.
pub fn toml(entries: &[(&str, String)]) -> String {
    let mut s = String::from("# parameters\n");
    for (i, (k, v)) in entries.iter().enumerate() {
        s.push_str(&format!("{k} = {v}{}\n", if i % 4 == 1 { " # as given" } else { "" }));
        if i % 5 == 3 {
            s.push('\n');
        }
    }
    s
}

pub fn entries(c: &[(&'static str, f64)]) -> Vec<(&'static str, String)> {
    c.iter().map(|(k, v)| (*k, format!("{v}"))).collect()
}

#[derive(Debug)]
pub struct Ended {
    pub code: Option<i32>, // None: ended by a signal
    pub out: String,
    pub err: String,
    pub late: bool,
}

impl Ended {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
}

/// Runs the program in a directory.
pub fn cli(home: &Path, args: &[String], input: &str) -> Ended {
    cli_limited(home, args, input, None, false)
}

/// Runs the program in a directory, with a limit of open files, and without the privilege to pass over access rights.
pub fn cli_limited(home: &Path, args: &[String], input: &str, open: Option<u64>, plain: bool) -> Ended {
    use std::os::unix::process::CommandExt;
    let exe = std::env::current_exe().expect("exe").with_file_name("die-e-cli");
    let (o, e, i) = (home.join(".stdout"), home.join(".stderr"), home.join(".stdin"));
    std::fs::write(&i, input).expect("scratch");
    let f = |p: &Path| std::fs::File::create(p).expect("scratch");
    let mut cmd = Command::new(exe);
    if let Some(n) = open {
        unsafe {
            cmd.pre_exec(move || {
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_NOFILE, &l);
                Ok(())
            });
        }
    }
    if plain {
        unsafe {
            cmd.pre_exec(|| {
                for cap in [1, 2] {
                    // CAP_DAC_OVERRIDE, CAP_DAC_READ_SEARCH
                    libc::prctl(libc::PR_CAPBSET_DROP, cap as libc::c_ulong, 0, 0, 0);
                }
                Ok(())
            });
        }
    }
    // variables that happen to have the name of an entry say nothing about the configuration
    for e in ENTRIES {
        for name in [e.to_string(), e.to_uppercase(), format!("DIE_E_{}", e.to_uppercase())] {
            cmd.env(name, "1");
        }
    }
    let mut child = cmd
        .args(args)
        .current_dir(home)
        .stdin(Stdio::from(std::fs::File::open(&i).expect("scratch")))
        .stdout(Stdio::from(f(&o)))
        .stderr(Stdio::from(f(&e)))
        .env("OMP_NUM_THREADS", "1")
        .env("RUST_BACKTRACE", "0")
        .spawn()
        .expect("the program starts");
    let t0 = Instant::now();
    let mut late = false;
    let st = loop {
        if let Some(s) = child.try_wait().expect("wait") {
            break Some(s);
        }
        if t0.elapsed() > Duration::from_secs(150) {
            late = true;
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let read = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).to_string();
    let r = Ended { code: st.and_then(|s| s.code()), out: read(&o), err: read(&e), late };
    for p in [o, e, i] {
        let _ = std::fs::remove_file(p);
    }
    r
}

fn tail(e: &Ended) -> String {
    let s: String = e.err.lines().filter(|l| !l.trim().is_empty()).take(3).collect::<Vec<_>>().join(" / ");
    format!("exit {:?}{}, {}", e.code, if e.late { " (stopped after 150 s)" } else { "" }, s.chars().take(200).collect::<String>())
}

fn strings(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

fn game_flag<T: LearnableGame>() -> &'static str {
    if T::IS_DETERMINISTIC {
        "tic-tac-toe"
    } else {
        "backgammon"
    }
}

// ---------------------------------------------------------------- C22

/// Where samples are stored: (run, learning iteration, self-play iteration).
type Place = (String, String, String);

struct Tree {
    name: &'static str,
    places: Vec<Place>,
    stray: Vec<(String, bool)>, // other files (true: an empty directory), relative to the game's data directory
}

const DOZEN: &str = "a dozen iterations";
const ODD: &str = "ids that begin or end oddly";

fn trees() -> Vec<Tree> {
    let grid = |runs: &[&str], lrns: &[&str], sps: &[&str]| -> Vec<Place> {
        let mut v = vec![];
        for r in runs {
            for l in lrns {
                for s in sps {
                    v.push((r.to_string(), l.to_string(), s.to_string()));
                }
            }
        }
        v
    };
    let uneven = |v: &[(&str, &str, &str)]| -> Vec<Place> { v.iter().map(|(a, b, c)| (a.to_string(), b.to_string(), c.to_string())).collect() };
    vec![
        Tree { name: "one place", places: grid(&["abc"], &["0"], &["0"]), stray: vec![] },
        Tree { name: "numbers that begin alike", places: grid(&["1", "11", "run-1"], &["1", "10"], &["1", "12"]), stray: vec![] },
        Tree {
            name: "run ids with the letters of other names",
            places: grid(&["sp", "a-sp-b", "lrn-0", "sp-0", "crisp", "x-sp"], &["0"], &["0", "1"]),
            stray: vec![],
        },
        Tree {
            name: "generated run ids",
            places: uneven(&[("V1StGXR8_Z5jdHi6B-myT", "0", "0"), ("V1StGXR8_Z5jdHi6B-myT", "0", "1"), ("-_spkGXR8_Z5jdHi6B-my", "0", "0"), ("_-run-lrn-sp-0", "3", "7"), ("__", "0", "0")]),
            stray: vec![],
        },
        Tree { name: "unusual characters", places: grid(&["a b", "ünï☃", "a.b", "%d{}", "'q'"], &["0"], &["0"]), stray: vec![] },
        Tree { name: ODD, places: uneven(&[("-x-", "0", "0"), ("-x-", "1", "0"), ("x", "0", "0"), (" y ", "0", "0"), ("y", "0", "1"), ("*", "0", "0"), ("[x]", "0", "0"), ("~", "0", "0"), ("$HOME", "0", "0")]), stray: vec![] },
        Tree {
            name: "uneven iterations",
            places: uneven(&[("r", "0", "0"), ("r", "0", "1"), ("r", "0", "2"), ("r", "1", "0"), ("r", "2", "5"), ("q", "0", "0"), ("q", "7", "3")]),
            stray: vec![],
        },
        Tree {
            name: DOZEN,
            places: {
                let mut v: Vec<Place> = (0..12).map(|s| ("r".into(), "0".into(), s.to_string())).collect();
                v.extend((1..12).map(|l| ("r".into(), l.to_string(), "0".into())));
                v
            },
            stray: vec![],
        },
        Tree {
            name: "other files beside the data",
            places: grid(&["r"], &["0", "1"], &["0", "1"]),
            stray: vec![("notes.txt".into(), false), ("run-r/display.txt".into(), false), ("run-r/spare.txt".into(), false), ("run-r/lrn-0/respond.log".into(), false), ("run-empty".into(), true), (".gitkeep".into(), false)],
        },
    ]
}

struct Data {
    all: BTreeMap<Place, Vec<Flat>>,
    model: AlphaZero, // the model given to the program
    shape: Vec<i64>,
}

fn place_dir(base: &Path, p: &Place) -> PathBuf {
    base.join(format!("run-{}", p.0)).join(format!("lrn-{}", p.1)).join(format!("sp-{}", p.2))
}

const LR: f64 = 1e-9;
const OVER: &str = "deep/er/out put.ot";

fn settings(lr: f64, batch: usize) -> Vec<(&'static str, f64)> {
    let mut c = full_conf(2, 2.0, 5, 0.3, 0.25, 1.0, 1, batch);
    for p in c.iter_mut() {
        match p.0 {
            "lr" => p.1 = lr,
            "wd" => p.1 = 0.01,
            _ => (),
        }
    }
    c
}

/// The tree with thousands of samples in a place.
const LARGE: &str = "thousands of samples";

/// Builds the data tree and the model in a fresh directory.
fn build<T: LearnableGame>(cx: &mut Cx, home: &Path, tree: &Tree, equal: bool, lr: f64) -> Option<Data> {
    let r = Run::default_run().with(|| {
        tch::manual_seed(61);
        AlphaZero::from_config::<T>(None, &conf(&settings(lr, 1000)))
    });
    let model = cx.unwrap(r, "learner", || "constructing the learner".into())?;
    let mut s = T::new();
    if !T::IS_DETERMINISTIC {
        let _ = Run::default_run().with(|| s.roll_die());
    }
    let t = s.as_tensor();
    let base = home.join("data").join(T::name());
    std::fs::create_dir_all(&base).expect("scratch");
    let mut all = BTreeMap::new();
    for (i, p) in tree.places.iter().enumerate() {
        let n = if tree.name == LARGE { [2500, 3, if cx.thorough { 20000 } else { 3000 }][i % 3] } else { 1 + i % 3 };
        let mem: Vec<MemoryFragment> = (0..n)
            .map(|k| {
                let mut m = sample::<T>(&t, if equal { 4000 } else { 4000 + 97 * i as u64 + 13 * k as u64 }, if equal { 1 } else { [1, 0, -1][(i + k) % 3] });
                // places lie far apart, so that every set of places has its own mean
                if !equal {
                    m.state = &m.state * (1.0 + 0.37 * i as f64) + 0.05 * k as f64;
                }
                m
            })
            .collect();
        let d = place_dir(&base, p);
        std::fs::create_dir_all(&d).expect("scratch");
        let r = catch(|| model.save_training_data(&mem, &d));
        cx.unwrap(r, "save", || "saving training data".into())?;
        all.insert(p.clone(), flat(&mem));
    }
    for (f, dir) in &tree.stray {
        let p = base.join(f);
        std::fs::create_dir_all(p.parent().unwrap()).expect("scratch");
        if *dir {
            std::fs::create_dir_all(&p).expect("scratch");
        } else {
            std::fs::write(&p, b"not training data").expect("scratch");
        }
    }
    // the other game's data lies beside it
    let other = home.join("data").join(if T::IS_DETERMINISTIC { Backgammon::name() } else { TicTacToe::name() }).join("run-abc/lrn-0/sp-0");
    std::fs::create_dir_all(other).expect("scratch");
    model.save_current_model(&home.join("start.ot")).expect("scratch");
    std::fs::write(home.join("settings.toml"), toml(&entries(&settings(lr, if equal { 1 } else { 100_000 })))).expect("scratch");
    Some(Data { all, model, shape: t.size() })
}

#[derive(Clone, Debug, Default, PartialEq)]
struct Request {
    run: Option<String>,
    learn: Option<String>,
    sp: Option<String>,
}

impl Request {
    fn args(&self, short: bool) -> Vec<String> {
        let mut v = vec![];
        for (k, s, x) in [("run-id", "r", &self.run), ("learn", "l", &self.learn), ("self-play", "s", &self.sp)] {
            if let Some(x) = x {
                v.push(if short { format!("-{s}{}{x}", if x.starts_with('=') { "=" } else { "" }) } else { format!("--{k}={x}") });
            }
        }
        v
    }

    fn complete(&self) -> bool {
        (self.learn.is_none() || self.run.is_some()) && (self.sp.is_none() || self.learn.is_some())
    }

    fn covers(&self, p: &Place) -> bool {
        let m = |r: &Option<String>, x: &String| r.as_ref().is_none_or(|r| r == x);
        m(&self.run, &p.0) && m(&self.learn, &p.1) && m(&self.sp, &p.2)
    }
}

fn requests(tree: &Tree, few: bool) -> Vec<Request> {
    let opts = |f: &dyn Fn(&Place) -> String, missing: &str| -> Vec<Option<String>> {
        let mut v: Vec<Option<String>> = vec![None];
        for p in &tree.places {
            let x = Some(f(p));
            if !v.contains(&x) {
                v.push(x);
            }
        }
        v.push(Some(missing.into()));
        v
    };
    let mut out = vec![];
    for run in opts(&|p| p.0.clone(), "none") {
        for learn in opts(&|p| p.1.clone(), "99") {
            for sp in opts(&|p| p.2.clone(), "99") {
                out.push(Request { run: run.clone(), learn: learn.clone(), sp: sp.clone() });
            }
        }
    }
    if tree.name == DOZEN {
        // the whole grid has hundreds of requests; the ones on either side of ten remain
        let keep = |x: &Option<String>, of: &[&str]| x.as_ref().is_none_or(|x| of.contains(&x.as_str()));
        out.retain(|r| keep(&r.learn, &["0", "1", "10", "11", "99"]) && keep(&r.sp, &["0", "1", "9", "10", "11", "99"]));
    }
    if tree.name == ODD {
        out.retain(|r| [&r.learn, &r.sp].iter().all(|x| x.as_ref().is_none_or(|x| x == "0")));
    }
    if few {
        // each scope once, and each way to be incomplete or missing
        out.retain(|r| r.complete());
        let mut seen = std::collections::BTreeSet::new();
        out.retain(|r| {
            let hit: Vec<&Place> = tree.places.iter().filter(|p| r.covers(p)).collect();
            seen.insert((hit.len(), r.run.is_some(), r.learn.is_some(), r.sp.is_some()))
        });
    }
    out
}

/// The program's answer to one request, compared with the reference.
#[allow(clippy::too_many_arguments)]
fn request<T: LearnableGame>(cx: &mut Cx, home: &Path, tree: &Tree, data: &Data, r: &Request, equal: bool, lr: f64, short: bool, out: Option<&str>, base: Option<&str>) -> bool {
    let default = home.join("models").join(T::name()).join("trained_model.ot");
    let target = out.map(|o| home.join(o)).unwrap_or(default.clone());
    let _ = std::fs::remove_file(&target);
    if out == Some(OVER) {
        // a model of an earlier training is in the way
        let _ = net::<T>(78).vs.save(&target);
    }
    let mut args = strings(&["--config", "settings.toml", "--game", game_flag::<T>(), "-n", "1", "train"]);
    if let Some(b) = base {
        args.push(format!("{}{b}", if short { "-m" } else { "--model-path=" }));
    }
    if let Some(o) = out {
        args.push(format!("{}{o}", if short { "-o" } else { "--out-path=" }));
    }
    args.extend(r.args(short));
    let e = cli(home, &args, "");
    cx.out.transitions += 1;
    cx.tick();
    let what = || format!("tree '{}' ({} places), arguments {args:?}", tree.name, tree.places.len());
    if !cx.check(!e.late, "hang", || format!("the program does not end: {}", what())) {
        return false;
    }
    let hit: Vec<&Place> = tree.places.iter().filter(|p| r.covers(p)).collect();
    let exists = {
        let mut d = home.join("data").join(T::name());
        if let Some(x) = &r.run {
            d = d.join(format!("run-{x}"));
        }
        if let Some(x) = &r.learn {
            d = d.join(format!("lrn-{x}"));
        }
        if let Some(x) = &r.sp {
            d = d.join(format!("sp-{x}"));
        }
        d.is_dir()
    };
    if !r.complete() || !exists {
        let good = !e.ok() && !target.exists();
        return cx.check(good, "accepted", || format!("{} is not refused ({}; model written: {}): {}", if r.complete() { "a scope that does not exist" } else { "an incomplete scope" }, tail(&e), target.exists(), what()));
    }
    if hit.is_empty() {
        return true; // an existing scope without samples
    }
    if !cx.check(e.ok(), "failed", || format!("training fails ({}): {}", tail(&e), what())) {
        return false;
    }
    if !cx.check(target.is_file(), "place", || format!("no model is written to {target:?}: {}", what())) {
        return false;
    }
    if out.is_some() && !cx.check(!default.exists(), "place", || format!("a model is also written to {default:?}: {}", what())) {
        return false;
    }
    let r2 = catch(|| ResNet::from_path::<T>(&target));
    let Some(got) = cx.unwrap(r2, "model", || format!("loading the trained model, {}", what())) else { return false };
    let got = weights(&got);
    let rows: Vec<&Flat> = hit.iter().flat_map(|p| data.all[*p].iter()).collect();
    cx.out.states += rows.len() as u64;
    cx.out.traces += 1;
    let mut reference = Reference::new::<T>(&data.model.model, lr, 0.01);
    if equal {
        for s in &rows {
            reference.step(&[*s], &data.shape);
        }
    } else {
        reference.step(&rows, &data.shape);
    }
    let close = reference.running(&got);
    if !cx.check(close.is_ok(), "scope", || format!("the model is not trained on the {} samples of {hit:?}: {}; {}", rows.len(), close.unwrap_err(), what())) {
        return false;
    }
    if let Some(n) = e.out.lines().find_map(|l| l.split("memory fragments:").nth(1)).and_then(|x| x.trim().parse::<usize>().ok()) {
        if !cx.check(n == rows.len(), "count", || format!("{n} samples are announced, {} recorded: {}", rows.len(), what())) {
            return false;
        }
    }
    if lr > 1e-6 {
        let d = reference.disagreement(&got);
        return cx.check(d.is_ok(), "step", || format!("the model is not trained as configured: {}; {}", d.unwrap_err(), what()));
    }
    true
}

fn c22_game<T: LearnableGame>(cx: &mut Cx, few: bool) {
    for (j, tree) in trees().iter().enumerate() {
        for equal in [false, true] {
            if !cx.thorough && (few && (equal || j % 2 == 1) || equal && tree.name == ODD) {
                continue;
            }
            let all = requests(tree, few);
            // several processes at once are fine: each case has its own directory
            for (k, part) in all.chunks(if few { 2 } else { 12 }).enumerate() {
                if !cx.case(|| format!("{} {} equal samples {equal} part {k}", T::name(), tree.name)) {
                    continue;
                }
                let home = fresh_dir(cx, "cli");
                let Some(data) = build::<T>(cx, &home, tree, equal, LR) else { return };
                for (i, r) in part.iter().enumerate() {
                    if equal && (!r.complete() || i % 2 == 1) {
                        continue; // refusals do not depend on the samples
                    }
                    let dash = [&r.run, &r.learn, &r.sp].iter().any(|x| x.as_ref().is_some_and(|x| x.is_empty()));
                    if !request::<T>(cx, &home, tree, &data, r, equal, LR, !dash && i % 3 == 1, Some("out.ot"), Some("start.ot")) {
                        break;
                    }
                }
                let _ = std::fs::remove_dir_all(&home);
            }
            if cx.stop() {
                return;
            }
        }
    }
    // where the model comes from and goes to
    let tree = Tree { name: "one place", places: vec![("abc".into(), "0".into(), "0".into()), ("abc".into(), "0".into(), "1".into())], stray: vec![] };
    for out in [None, Some("out.ot"), Some(OVER)] {
        for base in [Some("start.ot"), None] {
            for lr in [LR, 0.003] {
                if few && lr == LR {
                    continue;
                }
                if !cx.case(|| format!("{} out {out:?} base {base:?} rate {lr}", T::name())) {
                    continue;
                }
                let home = fresh_dir(cx, "cli");
                if let Some(o) = out {
                    std::fs::create_dir_all(home.join(o).parent().unwrap()).expect("scratch");
                }
                let Some(data) = build::<T>(cx, &home, &tree, false, lr) else { return };
                if base.is_none() {
                    // without a given model the best one is trained
                    let m = home.join("models").join(T::name());
                    std::fs::create_dir_all(&m).expect("scratch");
                    std::fs::copy(home.join("start.ot"), m.join("best_model.ot")).expect("scratch");
                } else if out.is_some() {
                    // a best model on disk is not the one asked for
                    let m = home.join("models").join(T::name());
                    std::fs::create_dir_all(&m).expect("scratch");
                    let _ = net::<T>(77).vs.save(m.join("best_model.ot"));
                }
                for r in [Request::default(), Request { run: Some("abc".into()), learn: Some("0".into()), sp: Some("1".into()) }] {
                    if !request::<T>(cx, &home, &tree, &data, &r, false, lr, false, out, base) {
                        break;
                    }
                }
                let _ = std::fs::remove_dir_all(&home);
            }
        }
    }
}

pub fn c22(cx: &mut Cx) {
    cx.bound(format!("{} trees of stored samples (1 to 23 places); tic-tac-toe: every combination of a run, learning iteration and self-play iteration that is left out, present or missing; the trained model is compared with one step of the reference on exactly the requested samples, and with one step for each sample when all samples are equal", trees().len()));
    c22_game::<TicTacToe>(cx, false);
    cx.bound("backgammon, some of the trees: each kind of scope once per tree");
    c22_game::<Backgammon>(cx, true);
    scarce(cx);
    cx.bound("a run of 300 self-play rounds beside others; runs, iterations and rounds that are links to directories kept elsewhere");
    let mut places: Vec<Place> = (0..300).map(|i| ("r".to_string(), (i / 100).to_string(), (i % 100).to_string())).collect();
    places.extend((0..3).map(|i| ("s".to_string(), i.to_string(), "0".to_string())));
    let ask = |run: Option<&str>, learn: Option<&str>, sp: Option<&str>| Request { run: run.map(|x| x.into()), learn: learn.map(|x| x.into()), sp: sp.map(|x| x.into()) };
    let many = Tree { name: "hundreds of rounds", places, stray: vec![] };
    for (k, r) in [ask(None, None, None), ask(Some("r"), None, None), ask(Some("s"), None, None), ask(Some("r"), Some("2"), None), ask(Some("r"), Some("1"), Some("99"))].iter().enumerate() {
        if cx.case(|| format!("hundreds of rounds {k}")) {
            let home = fresh_dir(cx, "cli");
            let Some(data) = build::<TicTacToe>(cx, &home, &many, false, LR) else { return };
            request::<TicTacToe>(cx, &home, &many, &data, r, false, LR, false, Some("out.ot"), Some("start.ot"));
            let _ = std::fs::remove_dir_all(&home);
        }
    }
    cx.bound(format!("places of 2500, 3 and {} samples", if cx.thorough { 20000 } else { 3000 }));
    let large = Tree { name: LARGE, places: (0..3).map(|i| ("r".to_string(), "0".to_string(), i.to_string())).collect(), stray: vec![] };
    for (k, r) in [ask(None, None, None), ask(Some("r"), Some("0"), Some("2"))].iter().enumerate() {
        if cx.case(|| format!("thousands of samples {k}")) {
            let home = fresh_dir(cx, "cli");
            let Some(data) = build::<TicTacToe>(cx, &home, &large, false, LR) else { return };
            request::<TicTacToe>(cx, &home, &large, &data, r, false, LR, false, Some("out.ot"), Some("start.ot"));
            let _ = std::fs::remove_dir_all(&home);
        }
    }
    let places = ["a", "b"].iter().flat_map(|r| (0..2).flat_map(move |l| (0..2).map(move |s| (r.to_string(), l.to_string(), s.to_string())))).collect();
    let linked = Tree { name: "linked directories", places, stray: vec![] };
    for (k, moved) in ["run-a", "run-a/lrn-1", "run-b/lrn-0/sp-1", ""].iter().enumerate() {
        for (i, r) in [ask(None, None, None), ask(Some("a"), None, None), ask(Some("a"), Some("1"), None), ask(Some("b"), Some("0"), Some("1"))].iter().enumerate() {
            if cx.case(|| format!("linked directories {k} {i}")) {
                let home = fresh_dir(cx, "cli");
                let Some(data) = build::<TicTacToe>(cx, &home, &linked, false, LR) else { return };
                let at = home.join("data").join(TicTacToe::name()).join(moved);
                let at = if moved.is_empty() { home.join("data") } else { at };
                std::fs::rename(&at, home.join("elsewhere")).expect("scratch");
                std::os::unix::fs::symlink(home.join("elsewhere"), &at).expect("scratch");
                request::<TicTacToe>(cx, &home, &linked, &data, r, false, LR, false, Some("out.ot"), Some("start.ot"));
                let _ = std::fs::remove_dir_all(&home);
            }
        }
    }
    if cx.stop() {
        return;
    }
    if cx.case(|| "broken data".into()) {
        // data that cannot be read is reported, and no model is written
        let tree = Tree { name: "two places", places: vec![("a".into(), "0".into(), "0".into()), ("a".into(), "0".into(), "1".into())], stray: vec![] };
        for f in ["ps.ot", "states.ot", "outcomes.ot"] {
            for cut in [None, Some(0usize), Some(10), Some(200)] {
                let home = fresh_dir(cx, "cli");
                let Some(_d) = build::<TicTacToe>(cx, &home, &tree, false, LR) else { return };
                let p = place_dir(&home.join("data").join(TicTacToe::name()), &tree.places[1]).join(f);
                match cut {
                    None => drop(std::fs::remove_file(&p)),
                    Some(n) => {
                        let b = std::fs::read(&p).unwrap_or_default();
                        let _ = std::fs::write(&p, &b[..n.min(b.len())]);
                    }
                }
                let e = cli(&home, &strings(&["--config", "settings.toml", "--game", "tic-tac-toe", "-n", "1", "train", "--model-path=start.ot", "--out-path=out.ot", "--run-id=a"]), "");
                cx.out.transitions += 1;
                cx.tick();
                cx.check(!e.ok() && !home.join("out.ot").exists(), "broken", || format!("training data with {f} {} is not reported ({})", cut.map_or("missing".into(), |n| format!("cut off after {n} bytes")), tail(&e)));
                let _ = std::fs::remove_dir_all(&home);
            }
        }
    }
}

/// Every limit of open files from the first that lets the program start: a file or directory that
/// cannot be opened is reported, it does not take its samples out of the training.
fn scarce(cx: &mut Cx) {
    type G = TicTacToe;
    let tree = Tree {
        name: "two runs",
        places: ["a", "b"].iter().flat_map(|r| ["0", "1"].iter().map(move |l| (r.to_string(), l.to_string(), "0".to_string()))).collect(),
        stray: vec![],
    };
    cx.bound("a training run with every limit of open files from 3 to 40");
    for part in 0..8u64 {
        if !cx.case(|| format!("few open files part {part}")) {
            continue;
        }
        let home = fresh_dir(cx, "cli");
        let Some(data) = build::<G>(cx, &home, &tree, false, LR) else { return };
        let mut reference = Reference::new::<G>(&data.model.model, LR, 0.01);
        let rows: Vec<&Flat> = tree.places.iter().flat_map(|p| data.all[p].iter()).collect();
        reference.step(&rows, &data.shape);
        for n in (3..=40u64).filter(|n| n % 8 == part) {
            let _ = std::fs::remove_file(home.join("out.ot"));
            let e = cli_limited(&home, &strings(&["--config", "settings.toml", "--game", "tic-tac-toe", "-n", "1", "train", "--model-path=start.ot", "--out-path=out.ot"]), "", Some(n), false);
            cx.out.transitions += 1;
            cx.tick();
            if !cx.check(!e.late, "hang", || format!("with {n} open files the program does not end")) {
                break;
            }
            if !e.ok() {
                continue; // refused
            }
            let r = catch(|| ResNet::from_path::<G>(&home.join("out.ot")));
            let Some(got) = cx.unwrap(r, "model", || format!("with {n} open files training ends well, but loading its model")) else { return };
            let d = reference.running(&weights(&got));
            cx.out.traces += 1;
            cx.check(d.is_ok(), "partial", || format!("with {n} open files training ends well, but is not on the {} samples recorded: {}", rows.len(), d.unwrap_err()));
        }
        let _ = std::fs::remove_dir_all(&home);
    }
    cx.bound("a training run with every directory and file of the data in turn (thorough: with all eight access rights; quick: not readable, not searchable, neither)");
    for part in 0..8usize {
        if !cx.case(|| format!("access rights part {part}")) {
            continue;
        }
        use std::os::unix::fs::PermissionsExt;
        let home = fresh_dir(cx, "cli");
        let Some(data) = build::<G>(cx, &home, &tree, false, LR) else { return };
        let mut reference = Reference::new::<G>(&data.model.model, LR, 0.01);
        let rows: Vec<&Flat> = tree.places.iter().flat_map(|p| data.all[p].iter()).collect();
        reference.step(&rows, &data.shape);
        let base = home.join("data");
        let mut at: Vec<PathBuf> = std::iter::once(base.clone()).chain(super::train::listing(&base).into_iter().map(|f| base.join(f))).collect();
        for d in tree.places.iter().flat_map(|p| place_dir(&base.join(G::name()), p).ancestors().take(4).map(|d| d.to_path_buf()).collect::<Vec<_>>()) {
            if !at.contains(&d) {
                at.push(d);
            }
        }
        at.sort();
        let rights = |p: &Path, m: u32| std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).expect("scratch");
        let mut refused = 0;
        for (i, p) in at.iter().enumerate().filter(|(i, _)| i % 8 == part) {
            let all: &[u32] = if cx.thorough { &[0, 1, 2, 3, 4, 5, 6, 7] } else if p.is_dir() { &[2, 3, 6] } else { &[[3, 0, 2][i % 3]] };
            for &m in all {
                let _ = std::fs::remove_file(home.join("out.ot"));
                rights(p, m << 6 | 0o55);
                let e = cli_limited(&home, &strings(&["--config", "settings.toml", "--game", "tic-tac-toe", "-n", "1", "train", "--model-path=start.ot", "--out-path=out.ot"]), "", None, true);
                rights(p, 0o755);
                cx.out.transitions += 1;
                cx.tick();
                if !e.ok() {
                    refused += 1;
                    continue;
                }
                let r = catch(|| ResNet::from_path::<G>(&home.join("out.ot")));
                let Some(got) = cx.unwrap(r, "model", || format!("with rights {m} of {p:?} training ends well, but loading its model")) else { return };
                let d = reference.running(&weights(&got));
                cx.out.traces += 1;
                let short = p.strip_prefix(&home).unwrap_or(p);
                if !cx.check(d.is_ok(), "partial", || format!("with rights {m} of {short:?} training ends well, but is not on the {} samples recorded: {}", rows.len(), d.unwrap_err())) {
                    break;
                }
            }
        }
        if part == 0 && refused == 0 {
            cx.note("access rights do not bind in this sandbox");
        }
        let _ = std::fs::remove_dir_all(&home);
    }
}

// ---------------------------------------------------------------- C24

type T1 = Toy<true>;

/// A game of `n` moves at the root, each answered by one move that ends it.
fn wide(n: usize) -> Shape {
    Shape::Node((0..n).map(|i| (false, 0, Shape::Node(vec![(false, 0, Shape::End([1, -1, 0][i % 3]))]))).collect())
}

/// The noise at the root follows the concentration: even for a large one, one-sided for a small one.
fn noise(cx: &mut Cx) {
    toy::set_table(Table::new(&wide(4), false));
    let net = net::<T1>(11);
    let nets = Nets { net: &net };
    for (alpha, even) in [(10_000.0, true), (0.05, false)] {
        let mut onesided = 0;
        let mut uneven = 0;
        for base in 2..14u64 {
            let r = batch(&[T1::start(-1, 0)], nets.net, 0, 2.0, alpha, 1.0, base);
            cx.out.traces += 1;
            let Some(ts) = cx.unwrap(r, "panic", || format!("a search with noise concentration {alpha}")) else { return };
            let t = &ts[0].nodes;
            let ps: Vec<f64> = t[0].children.iter().map(|k| t[*k].policy as f64).collect();
            if ps.len() != 4 {
                cx.fail("noise", format!("the root of four moves has {} children", ps.len()));
                return;
            }
            let big = ps.iter().fold(0.0f64, |a, b| a.max(*b));
            onesided += (big > 0.7) as usize;
            uneven += (big > 0.3) as usize;
        }
        if even {
            cx.check(uneven == 0, "dirichlet_alpha", || format!("with concentration {alpha} and share 1 the noise is uneven in {uneven} of 12 searches"));
        } else {
            cx.check(onesided >= 3, "dirichlet_alpha", || format!("with concentration {alpha} and share 1 the noise favours one move clearly in only {onesided} of 12 searches"));
        }
    }
}

/// Values above 255 for every entry that counts something.
fn large_entries(cx: &mut Cx, k: usize) {
    cx.bound("the eight counting entries also with values of 256 to 1000, on games of up to 1000 forced moves (thorough: 65536 and more)");
    let on = || AS_TEXT.store(k, std::sync::atomic::Ordering::SeqCst);
    let net = net::<T1>(11);
    let long = || toy::set_table(Table::new(&toy::chain(1000, 0, Shape::End(1)), false));
    for n in [256usize, 257, 300, 999] {
        if cx.case(|| format!("large iterations {k} {n}")) {
            on();
            for kind in 0..3 {
                long();
                let s = T1::start(-1, 0);
                toy::spy_start();
                let r = match kind {
                    0 => Run::default_run().with(|| drop(die_e::mcts::simple_mcts::mct_search(s, -1, &mcts_config(n, 2.0, 0, 0.3, 0.25)))),
                    1 => Run::default_run().with(|| drop(die_e::mcts::alpha_mcts::alpha_mcts(&s, &net, &mcts_config(n, 2.0, 0, 0.3, 0.0)))),
                    _ => batch(&[s], &net, n, 2.0, 0.3, 0.0, 0).map(|_| ()),
                };
                let seen: std::collections::BTreeSet<u16> = toy::spy_take().iter().map(|e| e.after.node).collect();
                cx.out.traces += 1;
                if cx.unwrap(r, "panic", || format!("a search of {n} iterations")).is_some() {
                    cx.check(seen.len() == n || kind > 0 && seen.len() == n + 1, "iterations", || format!("with iterations = {n} the {} search of a game of 1000 forced moves looks at {} positions", ["plain", "serial network", "batched network"][kind], seen.len()));
                }
                cx.tick();
            }
        }
    }
    for (len, limit) in [(300usize, 255usize), (300, 256), (300, 270), (300, 299), (300, 300), (300, 1000), (600, 512), (600, 599), (600, 600), (300, 65_536), (300, 65_536 + 40), (300, 1 << 20)] {
        if cx.case(|| format!("large round limit {k} {len} {limit}")) {
            on();
            let sh = Shape::Node(vec![(false, 0, toy::chain(len, 0, Shape::End(1))), (false, 0, Shape::End(0))]);
            model_against_real(cx, &sh, 9, 1.5, limit, -1, 500);
            let b = Bounds { max_dev: 0, horizon: 50_000, ..Bounds::full() };
            explore_self_play::<true>(cx, &toy::chain(len, 0, Shape::End(1)), Setup { iters: 2, limit, eps: 0.0, temp: 1.0, games: 2, serial: false }, &b, 2);
            if limit <= 600 {
                explore_self_play::<true>(cx, &Shape::Shuttle(Box::new(Shape::Stuck)), Setup { iters: 2, limit, eps: 0.0, temp: 1.0, games: 1, serial: false }, &b, 2);
            }
        }
    }
    for games in [256usize, 300, 513] {
        if cx.case(|| format!("large number of games {k} {games}")) {
            on();
            let b = Bounds { max_dev: 0, base: 3, horizon: 50_000, ..Bounds::full() };
            explore_self_play::<true>(cx, &wide(3), Setup { iters: 3, limit: 9, eps: 0.0, temp: 1.0, games, serial: false }, &b, 2);
        }
    }
    for (n, b) in [(300usize, 256usize), (300, 299), (520, 300), (700, 512), (700, 700), (700, 10_000), (700, 65_536)] {
        if cx.case(|| format!("large batch size {k} {n} {b}")) {
            on();
            long();
            step_count(cx, n, b);
        }
    }
    let plans = [
        Plan { learn: 1, rounds: 1, games: 2, epochs: 300, limit: 5, batch: 400, prepare: true },
        Plan { learn: 1, rounds: 300, games: 1, epochs: 2, limit: 6, batch: 5000, prepare: false },
        Plan { learn: 260, rounds: 1, games: 2, epochs: 1, limit: 3, batch: 600, prepare: true },
    ];
    for (i, p) in plans.iter().enumerate() {
        if cx.case(|| format!("large plan {k} {i}")) {
            on();
            let run = Run::with_bounds(&Bounds { base: 2, ..Bounds::full() });
            learning_run(cx, &toy::chain(2, 0, Shape::End(1)), p, &run, None, &|| format!("a run of {} iterations, {} rounds of {} games, {} passes", p.learn, p.rounds, p.games, p.epochs));
        }
        if cx.stop() {
            return;
        }
    }
}

fn library(cx: &mut Cx) {
    let t = cx.thorough;
    let some: Vec<Shape> = toy::t2(2).into_iter().filter(|s| !pass_ends(s) && matches!(s, Shape::Node(_))).step_by(if t { 6 } else { 29 }).chain([wide(4)]).collect();
    let endless: Vec<Shape> = toy::endless().into_iter().filter(|s| !pass_ends(s)).collect();
    cx.bound(format!("each of the thirteen entries takes several values, all others being different from it and from each other (two sets of them, two orders in the file); {} small games; its effect is compared with the references of the other properties: number of simulations, exploration, noise share and concentration, round limit, temperature, number of games, rounds, iterations, passes, batch size, learning rate, weight decay", some.len() + endless.len()));
    for k in [1usize, 2] {
        let on = || AS_TEXT.store(k, std::sync::atomic::Ordering::SeqCst);
        let net = net::<T1>(11);
        let nets = Nets { net: &net };
        for sh in &some {
            if cx.case(|| format!("search entries {k} {}", show(sh))) {
                on();
                toy::set_table(Table::new(sh, false));
                for (c, eps, alpha) in [(0.5, 0.0, 0.3), (2.0, 0.25, 0.5), (7.0, 0.6, 1.0), (0.001, 0.01, 1e6), (60.0, 0.99, 1e6), (0.02, 1.0, 0.1)] {
                    check_batch(cx, &[T1::start(-1, 0)], &nets, 7, c, alpha, eps, 3, &|| format!("the game {}", show(sh)));
                }
            }
            if cx.stop() {
                return;
            }
        }
        if cx.case(|| format!("noise {k}")) {
            on();
            noise(cx);
        }
        for sh in some.iter().chain(&endless) {
            if cx.case(|| format!("plain search entries {k} {}", show(sh))) {
                on();
                for (c, limit) in [(0.0, 1usize), (2.0, 2), (1.0, 4), (6.0, 3), (0.03, 5), (80.0, 3)] {
                    model_against_real(cx, sh, 6, c, limit, -1, 4_000);
                }
            }
            if cx.stop() {
                return;
            }
        }
        for sh in some.iter().chain(&endless) {
            if cx.case(|| format!("self-play entries {k} {}", show(sh))) {
                on();
                let b = Bounds { max_dev: 1, max_runs: 50_000, horizon: 5_000, ..Bounds::full() };
                for (limit, games, temp, iters) in [(1usize, 1usize, 1.0, 3usize), (2, 3, 0.5, 5), (3, 2, 2.0, 8), (5, 4, 1.25, 4), (4, 1, 0.05, 8), (4, 1, 9.0, 6)] {
                    explore_self_play::<true>(cx, sh, Setup { iters, limit, eps: 0.0, temp, games, serial: false }, &b, 2);
                }
                if matches!(sh, Shape::Node(_)) && !show(sh).contains("stuck") && !show(sh).contains("shuttle") {
                    explore_self_play::<true>(cx, sh, Setup { iters: 7, limit: 9, eps: 0.0, temp: 0.6, games: 1, serial: true }, &b, 2);
                }
            }
            if cx.stop() {
                return;
            }
        }
        for (n, b) in [(1usize, 1usize), (3, 1), (3, 2), (4, 2), (4, 3), (3, 7)] {
            for (lr, wd) in [(0.01, 0.0), (0.002, 0.1), (0.0005, 1.5), (0.3, 0.002), (0.00002, 20.0)] {
                if cx.case(|| format!("training entries {k}: {n} samples, batch {b}, rate {lr}, decay {wd}")) {
                    on();
                    toy::set_table(Table::new(&wide(3), false));
                    training_pass::<T1>(cx, n, b, lr, wd, true, 1, &Bounds::full());
                }
            }
        }
        let plans = [
            Plan { learn: 1, rounds: 2, games: 3, epochs: 4, limit: 5, batch: 400, prepare: true },
            Plan { learn: 2, rounds: 1, games: 4, epochs: 3, limit: 6, batch: 500, prepare: false },
            Plan { learn: 1, rounds: 4, games: 2, epochs: 1, limit: 3, batch: 600, prepare: true },
            Plan { learn: 3, rounds: 2, games: 1, epochs: 5, limit: 4, batch: 300, prepare: true },
        ];
        for sh in some.iter().step_by(3).chain(endless.iter().filter(|s| matches!(s, Shape::Shuttle(_)) && !show(s).contains("stuck"))) {
            for (i, p) in plans.iter().enumerate() {
                if cx.case(|| format!("learning entries {k} {} plan {i}", show(sh))) {
                    on();
                    let run = Run::with_bounds(&Bounds { base: 2, ..Bounds::full() });
                    learning_run(cx, sh, p, &run, None, &|| format!("a run of {} iterations, {} rounds of {} games, {} passes, on the game {}", p.learn, p.rounds, p.games, p.epochs, show(sh)));
                }
            }
            if cx.stop() {
                return;
            }
        }
        large_entries(cx, k);
    }
    AS_TEXT.store(0, std::sync::atomic::Ordering::SeqCst);
    cx.bound("each entry left out, and each of another kind (text, list, table): refused at start-up");
    let fine = settings(0.001, 4);
    for e in ENTRIES {
        if !cx.case(|| format!("entry {e} missing or malformed")) {
            continue;
        }
        toy::set_table(Table::new(&wide(2), false));
        for bad in [None, Some("\"abc\""), Some("[1, 2]"), Some("{ a = 1 }"), Some("\"\"")] {
            let mut v = entries(&fine);
            v.retain(|x| x.0 != e);
            if let Some(b) = bad {
                v.push((e, b.to_string()));
            }
            let Ok(c) = conf_text(&toml(&v)) else { continue };
            let r = Run::default_run().with(|| drop(AlphaZero::from_config::<T1>(None, &c)));
            cx.out.transitions += 1;
            cx.check(r.is_err(), "accepted", || format!("a learner starts although the entry {e} is {}", bad.unwrap_or("missing")));
            let search = ["iterations", "exploration_const", "simulate_round_limit", "dirichlet_alpha", "dirichlet_epsilon"].contains(&e);
            let r = catch(|| die_e::MctsConfig::from_config(&c).is_err());
            if search {
                cx.check(r == Ok(true) || r.is_err(), "accepted", || format!("a search is configured although the entry {e} is {}", bad.unwrap_or("missing")));
            } else {
                cx.check(r == Ok(false), "refused", || format!("a search is not configured because the entry {e}, which it does not need, is {}", bad.unwrap_or("missing")));
            }
        }
        let r = Run::default_run().with(|| drop(AlphaZero::from_config::<T1>(None, &conf_text(&toml(&entries(&fine))).unwrap())));
        cx.check(r.is_ok(), "refused", || "a complete configuration is refused".into());
        cx.tick();
    }
}

/// Codes in the order of preference, for the two players of a decided tic-tac-toe match.
const FIRST: [usize; 9] = [0, 1, 2, 4, 6, 5, 3, 7, 8];
const SECOND: [usize; 9] = [3, 7, 8, 5, 6, 4, 0, 1, 2];

fn biased(order: &[usize], p: &Path) {
    let n = net::<TicTacToe>(90);
    bias_policy::<TicTacToe>(&n, order);
    n.vs.save(p).expect("scratch");
}

fn play_settings(iters: usize) -> Vec<(&'static str, f64)> {
    full_conf(iters, 2.0, 9, 0.3, 0.0, 0.01, 1, 4)
}

fn saved(dir: &Path) -> Vec<serde_json::Value> {
    let mut v = vec![];
    for f in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if f.path().extension().is_some_and(|x| x == "json") {
            if let Some(x) = std::fs::read(f.path()).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
                v.push(x);
            }
        }
    }
    v
}

fn tally(e: &Ended, what: &str) -> Option<usize> {
    e.out.lines().find_map(|l| l.split(what).nth(1)).and_then(|x| x.trim().parse().ok())
}

fn play_args(game: &str, one: &str, path_one: Option<&str>, two: &str, path_two: Option<&str>, out: &str) -> Vec<String> {
    let mut v = strings(&["--config", "settings.toml", "--game", game, "-n", "2", "play", "--agent-one", one, "--agent-two", two, "--output-path", out]);
    if let Some(p) = path_one {
        v.push(format!("--model-path-one={p}"));
    }
    if let Some(p) = path_two {
        v.push(format!("--model-path-two={p}"));
    }
    v
}

/// A match by the command line; the seats are known from how the biased models play.
fn seats(cx: &mut Cx) {
    let names = [("random", "Random"), ("mcts", "Mcts"), ("model", "Model"), ("MODEL", "Model"), ("Random", "Random"), ("mCTS", "Mcts")];
    for one in names {
        for two in names {
            if !cx.case(|| format!("play {} against {}", one.0, two.0)) {
                continue;
            }
            let home = fresh_dir(cx, "cli");
            std::fs::create_dir_all(home.join("games")).expect("scratch");
            std::fs::write(home.join("settings.toml"), toml(&entries(&play_settings(2)))).expect("scratch");
            biased(&FIRST, &home.join("first.ot"));
            biased(&SECOND, &home.join("second.ot"));
            // the same file name in two directories
            for (d, win) in [("a", true), ("b", false), ("a/b", false)] {
                std::fs::create_dir_all(home.join(d)).expect("scratch");
                biased(if win { &FIRST } else { &SECOND }, &home.join(d).join("best_model.ot"));
            }
            for (a, b) in [("first.ot", "second.ot"), ("second.ot", "first.ot"), ("a/best_model.ot", "b/best_model.ot"), ("a/b/best_model.ot", "a/best_model.ot")] {
                let _ = std::fs::remove_dir_all(home.join("games"));
                std::fs::create_dir_all(home.join("games")).expect("scratch");
                // a path given to an agent that is no model changes nothing
                let args = play_args("tic-tac-toe", one.0, Some(a), two.0, Some(b), "games");
                let e = cli(&home, &args, "");
                cx.out.traces += 1;
                cx.tick();
                if !cx.check(e.ok(), "failed", || format!("a match fails ({}): {args:?}", tail(&e))) {
                    return;
                }
                let rs = saved(&home.join("games"));
                cx.out.states += rs.len() as u64;
                let agents = |k: &str, want: &str| rs.iter().all(|r| r.get(k).and_then(|x| x.as_str()).is_none_or(|x| x == want));
                cx.check(agents("player1", one.1) && agents("player2", two.1), "agents", || format!("the games of a match are recorded with other agents: {args:?}, the first record is {:?}", rs.first()));
                let w: Vec<Option<usize>> = ["Wins Player 1:", "Wins Player 2:", "Draws:", "Number of Games:"].iter().map(|k| tally(&e, k)).collect();
                if let [Some(x), Some(y), Some(d), Some(n)] = w[..] {
                    cx.check(x + y + d == n && rs.len() == n, "count", || format!("{n} games are announced with {x} and {y} wins and {d} draws, {} are saved: {args:?}", rs.len()));
                    if one.1 == "Model" && two.1 == "Model" {
                        let (want1, want2) = if a == "first.ot" || a == "a/best_model.ot" { (n, 0) } else { (0, n) };
                        cx.check((x, y) == (want1, want2), "models", || format!("the models that win and lose every game are given as {args:?}: {x} and {y} of {n} games are won"));
                    } else if one.1 != two.1 {
                        let won = |who: &str| rs.iter().filter(|r| r.get("winner").and_then(|x| x.as_str()) == Some(who)).count();
                        cx.check(won(one.1) == x && won(two.1) == y, "winners", || format!("{x} and {y} games are won, the records name {} and {}: {args:?}", won(one.1), won(two.1)));
                    }
                } else {
                    cx.note("the result of a match is not printed in the known form");
                }
                if one.1 != "Model" && two.1 != "Model" {
                    break;
                }
            }
            let _ = std::fs::remove_dir_all(&home);
            if cx.stop() {
                return;
            }
        }
    }
}

fn refusals(cx: &mut Cx) {
    // each: a name, the arguments
    let ok = || play_args("tic-tac-toe", "random", None, "random", None, "games");
    let without = |k: &str| -> Vec<String> {
        let mut v = ok();
        let i = v.iter().position(|x| x == k).unwrap();
        v.drain(i..i + 2);
        v
    };
    let with = |k: &str, x: &str| -> Vec<String> {
        let mut v = ok();
        let i = v.iter().position(|x| x == k).unwrap();
        v[i + 1] = x.to_string();
        v
    };
    let mut list: Vec<(&str, Vec<String>)> = vec![
        ("no game", without("--game")),
        ("unknown game", with("--game", "chess")),
        ("no configuration file", with("--config", "nowhere.toml")),
        ("broken configuration file", with("--config", "broken.toml")),
        ("no first agent", without("--agent-one")),
        ("no second agent", without("--agent-two")),
        ("unknown first agent", with("--agent-one", "minimax")),
        ("unknown second agent", with("--agent-two", "modell")),
        ("empty agent", with("--agent-one", "")),
        ("empty second agent", with("--agent-two", "")),
        ("part of an agent's name", with("--agent-one", "m")),
        ("part of an agent's name for the second", with("--agent-two", "r")),
        ("most of an agent's name", with("--agent-one", "mct")),
        ("most of an agent's name for the second", with("--agent-two", "rando")),
        ("more than an agent's name", with("--agent-one", "random2")),
        ("an agent's name with a blank", with("--agent-two", "mcts ")),
        ("two agents in one", with("--agent-one", "mcts,random")),
        ("agent none", with("--agent-two", "none")),
        ("no output path", without("--output-path")),
        ("missing output directory", with("--output-path", "elsewhere")),
        ("output path is a file", with("--output-path", "settings.toml")),
        ("too many processors", with("-n", "1000000")),
        ("first model without a path", play_args("tic-tac-toe", "model", None, "random", Some("first.ot"), "games")),
        ("second model without a path", play_args("tic-tac-toe", "random", Some("first.ot"), "model", None, "games")),
        ("missing model", play_args("tic-tac-toe", "model", Some("nowhere.ot"), "random", None, "games")),
        ("model of another game", play_args("backgammon", "model", Some("first.ot"), "random", None, "games")),
        ("unknown command", strings(&["--config", "settings.toml", "--game", "tic-tac-toe", "watch"])),
        ("learning from a missing model", strings(&["--config", "settings.toml", "--game", "tic-tac-toe", "-n", "1", "learn", "--model-path=nowhere.ot"])),
        ("training from a missing model", strings(&["--config", "settings.toml", "--game", "tic-tac-toe", "-n", "1", "train", "--model-path=nowhere.ot", "--out-path=out.ot"])),
        ("replaying a missing game", strings(&["--config", "settings.toml", "--game", "tic-tac-toe", "replay", "--game-path", "nowhere.json"])),
    ];
    list.push(("unknown option", {
        let mut v = ok();
        v.push("--agent-three=random".into());
        v
    }));
    for (name, args) in &list {
        if !cx.case(|| format!("refused: {name}")) {
            continue;
        }
        let home = fresh_dir(cx, "cli");
        std::fs::create_dir_all(home.join("games")).expect("scratch");
        std::fs::create_dir_all(home.join("data/tictactoe/run-a/lrn-0/sp-0")).expect("scratch");
        std::fs::write(home.join("settings.toml"), toml(&entries(&play_settings(2)))).expect("scratch");
        std::fs::write(home.join("broken.toml"), "iterations = = 3\n").expect("scratch");
        // a usable configuration under the default name: it is not the one asked for
        std::fs::write(home.join("config.toml"), toml(&entries(&play_settings(2)))).expect("scratch");
        biased(&FIRST, &home.join("first.ot"));
        let e = cli(&home, args, "");
        cx.out.transitions += 1;
        cx.tick();
        let made = saved(&home.join("games")).len() + home.join("out.ot").exists() as usize;
        cx.check(!e.ok() && !e.late && made == 0, "accepted", || format!("{name} is not refused ({}; {made} files written): {args:?}", tail(&e)));
        let _ = std::fs::remove_dir_all(&home);
    }
    // what each command needs of its configuration
    for (command, needed) in [("play", &["temperature", "iterations", "exploration_const", "simulate_round_limit", "dirichlet_alpha", "dirichlet_epsilon"][..]), ("learn", &ENTRIES[..]), ("train", &ENTRIES[..])] {
        for e in needed {
            if !cx.case(|| format!("{command} without {e}")) {
                continue;
            }
            let home = fresh_dir(cx, "cli");
            std::fs::create_dir_all(home.join("games")).expect("scratch");
            std::fs::create_dir_all(home.join("data/tictactoe/run-a/lrn-0/sp-0")).expect("scratch");
            let sp = home.join("data/tictactoe/run-a/lrn-0/sp-0");
            let r = Run::default_run().with(|| learner::<TicTacToe>(2, 2.0, 5, 0.3, 0.25, 1.0, 1, 3));
            if let Some(az) = cx.unwrap(r, "learner", || "constructing the learner".into()) {
                az.save_training_data(&[sample::<TicTacToe>(&TicTacToe::new().as_tensor(), 1, 1), sample::<TicTacToe>(&TicTacToe::new().as_tensor(), 2, 0)], &sp);
            }
            for bad in [None, Some("\"abc\""), Some("[3]")] {
                let mut v = entries(&play_settings(2));
                v.retain(|x| x.0 != *e);
                if let Some(b) = bad {
                    v.push((e, b.to_string()));
                }
                std::fs::write(home.join("settings.toml"), toml(&v)).expect("scratch");
                let args = match command {
                    "play" => ok(),
                    "learn" => strings(&["--config", "settings.toml", "--game", "tic-tac-toe", "-n", "1", "learn"]),
                    _ => strings(&["--config", "settings.toml", "--game", "tic-tac-toe", "-n", "1", "train", "--out-path=out.ot"]),
                };
                let r = cli(&home, &args, "");
                cx.out.transitions += 1;
                cx.tick();
                let runs = std::fs::read_dir(home.join("data/tictactoe")).into_iter().flatten().count();
                let made = saved(&home.join("games")).len() + home.join("out.ot").exists() as usize + runs - 1;
                cx.check(!r.ok() && made == 0, "accepted", || format!("the command {command} runs although the entry {e} is {} ({}; {made} files or runs)", bad.unwrap_or("missing"), tail(&r)));
            }
            let _ = std::fs::remove_dir_all(&home);
        }
    }
}

/// Learning by the command line: the numbers of the file are those of the run.
fn learn_cli<T: LearnableGame>(cx: &mut Cx, plans: &[(usize, usize, usize, usize)]) {
    for (k, &(learn, rounds, games, limit)) in plans.iter().enumerate() {
        for given in [false, true] {
            if !cx.case(|| format!("learn {} plan {k} given model {given}", T::name())) {
                continue;
            }
            'attempt: for attempt in 0..4 {
                let home = fresh_dir(cx, "cli");
                let mut c = full_conf(2, 2.0, limit, 0.3, 0.25, 1.25, games, 64);
                for p in c.iter_mut() {
                    match p.0 {
                        "learn_iterations" => p.1 = learn as f64,
                        "self_play_iterations" => p.1 = rounds as f64,
                        "lr" => p.1 = LR,
                        "wd" => p.1 = 0.0,
                        _ => (),
                    }
                }
                std::fs::write(home.join("settings.toml"), toml(&entries(&c))).expect("scratch");
                // a configuration nobody asks for
                std::fs::write(home.join("config.toml"), toml(&entries(&settings(0.5, 3)))).expect("scratch");
                std::fs::write(home.join("config"), toml(&entries(&settings(0.5, 3)))).expect("scratch");
                let start = net::<T>(91);
                start.vs.save(home.join("start.ot")).expect("scratch");
                let mut args = strings(&["-c", "settings.toml", "-g", game_flag::<T>(), "-n", "2", "learn"]);
                if given {
                    args.push("--model-path=start.ot".into());
                }
                let e = cli(&home, &args, "");
                cx.out.traces += 1;
                cx.tick();
                let what = || format!("{args:?} with {learn} iterations of {rounds} rounds of {games} games, round limit {limit}");
                if !cx.check(e.ok(), "failed", || format!("learning fails ({}): {}", tail(&e), what())) {
                    return;
                }
                let others: Vec<String> = std::fs::read_dir(home.join("data")).into_iter().flatten().flatten().map(|x| x.file_name().to_string_lossy().to_string()).collect();
                if !cx.check(others == [T::name()], "game", || format!("data is stored for {others:?}: {}", what())) {
                    return;
                }
                let runs: Vec<PathBuf> = std::fs::read_dir(home.join("data").join(T::name())).into_iter().flatten().flatten().map(|x| x.path()).collect();
                if !cx.check(runs.len() == 1, "runs", || format!("{} runs are stored: {}", runs.len(), what())) {
                    return;
                }
                for l in 0..learn + 1 {
                    for s in 0..rounds + 1 {
                        let d = runs[0].join(format!("lrn-{l}")).join(format!("sp-{s}"));
                        if l == learn || s == rounds {
                            cx.check(!d.exists(), "rounds", || format!("{} is stored: {}", d.display(), what()));
                            continue;
                        }
                        let r = catch(|| AlphaZero::load_training_data(&d));
                        let Some(m) = cx.unwrap(r, "load", || format!("loading {}: {}", d.display(), what())) else { return };
                        cx.out.states += m.len() as u64;
                        // the opening position begins a game and does not come again
                        let mut first = T::new();
                        if !T::IS_DETERMINISTIC {
                            first.roll_die();
                        }
                        let mut board = tensor_vec(&first.as_tensor());
                        if !T::IS_DETERMINISTIC {
                            board.truncate(24);
                        }
                        let n = m.iter().filter(|f| tensor_vec(&f.state).starts_with(&board)).count();
                        cx.check(n == games, "games", || format!("{} samples of {n} games are stored in {}: {}", m.len(), d.display(), what()));
                        // no game of tic-tac-toe ends before the fifth move, and nobody has to pass in the first two turns of backgammon
                        let sure = limit.min(if T::IS_DETERMINISTIC { 5 } else { 2 });
                        let short = !T::IS_DETERMINISTIC && m.len() < games * limit && m.len() >= games * sure;
                        // a pass later on is rare (dice of the program are its own): not in every one of four runs
                        if short && attempt < 3 {
                            let _ = std::fs::remove_dir_all(&home);
                            continue 'attempt;
                        }
                        let full = if short { games * limit } else { games * sure };
                        cx.check(m.len() <= games * limit && m.len() >= full, "limit", || format!("{} samples of {games} games are stored in {}: {}", m.len(), d.display(), what()));
                    }
                    let p = home.join("models").join(T::name()).join(format!("model_{l}.ot"));
                    cx.check(p.is_file() == (l < learn), "models", || format!("the model of iteration {l} is there: {}; {}", p.is_file(), what()));
                }
                if given {
                    // a learning rate of almost nothing leaves the given weights as they were
                    let r = catch(|| ResNet::from_path::<T>(&home.join("models").join(T::name()).join("model_0.ot")));
                    if let Some(m) = cx.unwrap(r, "model", || format!("loading the model of the first iteration: {}", what())) {
                        let (a, b) = (weights(&m), weights(&start));
                        let far = b.iter().find(|(k, v)| !k.contains("running") && a.get(*k).is_none_or(|w| w.len() != v.len() || w.iter().zip(*v).any(|(x, y)| (x - y).abs() > 1e-6)));
                        cx.check(far.is_none(), "model", || format!("the run does not start from the given model ({}): {}", far.unwrap().0, what()));
                    }
                }
                let _ = std::fs::remove_dir_all(&home);
                break;
            }
            if cx.stop() {
                return;
            }
        }
    }
}

pub fn c24(cx: &mut Cx) {
    library(cx);
    AS_TEXT.store(0, std::sync::atomic::Ordering::SeqCst);
    cx.bound("the program: every pair of agents in three spellings, two models that win and lose every game given either way round");
    seats(cx);
    cx.bound("the program: 31 unknown, missing or unusable arguments, and each configuration entry missing or malformed for each command");
    refusals(cx);
    cx.bound("the program: learning runs of both games with different numbers in the file, with and without a given model");
    learn_cli::<TicTacToe>(cx, &[(1, 2, 3, 9), (1, 3, 2, 4), (2, 1, 5, 3)]);
    learn_cli::<Backgammon>(cx, &[(1, 2, 3, 2), (1, 1, 2, 3)]);
}

// ---------------------------------------------------------------- C26

/// The lines of a text, without the space around them.
fn lines(s: &str) -> Vec<String> {
    s.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect()
}

/// Finds the lines one after the other, in a block.
fn block(all: &[String], from: usize, want: &[String]) -> Option<usize> {
    (from..=all.len().checked_sub(want.len())?).find(|i| all[*i..*i + want.len()] == *want).map(|i| i + want.len())
}

fn replay<T: LearnableGame>(home: &Path, file: &str, short: bool) -> Ended {
    let mut a = strings(&["-c", "settings.toml", "-g", game_flag::<T>(), "-n", "1", "replay"]);
    if short {
        a.extend(strings(&["-g", file]));
    } else {
        a.push(format!("--game-path={file}"));
    }
    replay_fed::<T>(home, a, short)
}

/// Enter is pressed for every turn, or the input is closed from the start.
fn replay_fed<T: LearnableGame>(home: &Path, a: Vec<String>, short: bool) -> Ended {
    cli(home, &a, &if short { String::new() } else { "\n".repeat(2000) })
}

/// The replay of a saved game, compared with the game.
fn shown<T: LearnableGame>(cx: &mut Cx, e: &Ended, g: &Game<T>, start: &T, what: &dyn Fn() -> String) -> bool {
    cx.out.traces += 1;
    cx.tick();
    if !cx.check(e.ok() && !e.late, "failed", || format!("a saved game is not replayed ({}): {}", tail(e), what())) {
        return false;
    }
    let v = serde_json::to_value(g).unwrap_or_default();
    let name = |k: &str| v.get(k).and_then(|x| x.as_str()).unwrap_or("?").to_string();
    let all = lines(&e.out);
    let board = lines(&start.to_pretty_str());
    let Some(at) = block(&all, 0, &board) else {
        return cx.check(false, "start", || format!("the replay does not show the initial position {board:?}: {all:?}; {}", what()));
    };
    let head = all[..at - board.len()].join("\n");
    let wanted = [id_of(g), format!("Player 1: {}", name("player1")), format!("Player 2: {}", name("player2")), format!("winner: {}", name("winner"))];
    let lacks: Vec<&String> = wanted.iter().filter(|w| !head.contains(*w)).collect();
    if !cx.check(lacks.is_empty(), "head", || format!("the replay does not show {lacks:?} but {head:?}: {}", what())) {
        return false;
    }
    // the turns: player and roll, in order
    let mut from = at;
    for (i, t) in g.turns.iter().enumerate() {
        cx.out.states += 1;
        let want = [format!("Player: {:?}", t.player), format!("Roll: {:?}", t.roll)];
        match block(&all, from, &want) {
            Some(n) => from = n,
            None => return cx.check(false, "turns-shown", || format!("turn {i} of {} ({want:?}) is not shown in its place: {:?}; {}", g.turns.len(), &all[at..], what())),
        }
    }
    let n = all.iter().filter(|l| l.starts_with("Roll:")).count();
    cx.check(n == g.turns.len(), "turns-shown", || format!("{n} turns are shown of {}: {}", g.turns.len(), what()))
}

fn c26_game<T: LearnableGame>(cx: &mut Cx, states: &[T]) {
    let games = super::store::records(states, cx.thorough);
    for (k, part) in games.chunks(6).enumerate() {
        if !cx.case(|| format!("{} records part {k}", T::name())) {
            continue;
        }
        let home = fresh_dir(cx, "cli");
        std::fs::write(home.join("settings.toml"), "").expect("scratch");
        std::fs::create_dir_all(home.join("games")).expect("scratch");
        for g in part {
            let r = catch(|| save_game(g, home.join("games").to_str().unwrap()).is_ok());
            if r != Ok(true) {
                cx.fail("save", format!("saving a game fails: {r:?}"));
                return;
            }
        }
        // the initial state as it was given to the record
        for (i, g) in part.iter().enumerate() {
            let n = k * 6 + i;
            let e = replay::<T>(&home, &format!("games/{}.json", id_of(g)), n % 2 == 1);
            if !shown(cx, &e, g, &states[n % states.len()], &|| format!("{} record {n}", T::name())) {
                break;
            }
        }
        let _ = std::fs::remove_dir_all(&home);
        if cx.stop() {
            return;
        }
    }
}

/// Records longer than any buffer, or than the numbers that count turns in a small type.
fn long_records<T: LearnableGame>(cx: &mut Cx, states: &[T]) {
    let counts: &[usize] = if cx.thorough { &[10, 100, 256, 257, 1030] } else { &[11, 257, 1030] };
    cx.bound(format!("records of {counts:?} turns"));
    for &n in counts {
        if !cx.case(|| format!("{} record of {n} turns", T::name())) {
            continue;
        }
        let home = fresh_dir(cx, "cli");
        std::fs::write(home.join("settings.toml"), "").expect("scratch");
        std::fs::create_dir_all(home.join("games")).expect("scratch");
        let mut g = Game::new(Agent::Random, Agent::Mcts, states[0]);
        g.winner = Agent::Mcts;
        for i in 0..n {
            g.turns.push(Turn {
                roll: Some((i as u8 % 6 + 1, (i / 6) as u8 % 6 + 1)),
                action: vec![states[i % states.len()]],
                player: if i % 3 == 0 { Agent::Random } else { Agent::Mcts },
            });
        }
        let r = catch(|| save_game(&g, home.join("games").to_str().unwrap()).is_ok());
        if r != Ok(true) {
            cx.fail("save", format!("saving a game fails: {r:?}"));
            return;
        }
        for short in [false, true] {
            let e = replay::<T>(&home, &format!("games/{}.json", id_of(&g)), short);
            if !shown(cx, &e, &g, &states[0], &|| format!("{} record of {n} turns", T::name())) {
                break;
            }
        }
        let _ = std::fs::remove_dir_all(&home);
    }
}

pub fn c26(cx: &mut Cx) {
    let ttt: Vec<TicTacToe> = ttt_positions().into_iter().step_by(67).collect();
    let mut bg: Vec<Backgammon> = vec![];
    for (i, roll) in [(1, 2), (6, 6), (3, 5), (4, 1), (2, 2)].into_iter().enumerate() {
        let p = if i % 2 == 0 { -1 } else { 1 };
        bg.push(super::rules::state(&crate::families::opening(), p, roll, roll.0 == roll.1));
        let mut q = crate::families::empty();
        q.own[i + 1] = 3;
        q.own[0] = 1;
        q.opp[20 - i] = 2;
        crate::families::fill(&mut q);
        bg.push(super::rules::state(&crate::bgref::to_board(&q, p), p, roll, false));
    }
    cx.bound("records of tic-tac-toe and backgammon with every pair of agents, winner and up to three turns (quick: a third of the combinations), saved and replayed by the program");
    c26_game(cx, &ttt);
    c26_game(cx, &bg);
    long_records(cx, &ttt);
    long_records(cx, &bg);
    cx.bound("a record cut off at every 23rd byte (thorough: 5th), missing, empty and of the other game: refused");
    let mut g = Game::new(Agent::Random, Agent::Mcts, ttt[3]);
    g.winner = Agent::Mcts;
    let other = Game::new(Agent::Random, Agent::Mcts, bg[0]);
    for (k, what) in ["cut", "other"].into_iter().enumerate() {
        if !cx.case(|| format!("unusable records {what}")) {
            continue;
        }
        let home = fresh_dir(cx, "cli");
        std::fs::write(home.join("settings.toml"), "").expect("scratch");
        let (a, b) = (serde_json::to_string_pretty(&g).unwrap_or_default(), serde_json::to_string_pretty(&other).unwrap_or_default());
        let mut bad: Vec<(String, Option<String>)> = vec![];
        if k == 0 {
            for n in (0..a.len()).step_by(if cx.thorough { 5 } else { 23 }) {
                bad.push((format!("cut off after {n} of {} bytes", a.len()), Some(a[..n].to_string())));
            }
        } else {
            bad.push(("missing".into(), None));
            bad.push(("a backgammon game".into(), Some(b)));
            bad.push(("a list".into(), Some(format!("[{a}]"))));
            bad.push(("two games".into(), Some(format!("{a}{a}"))));
        }
        for (w, text) in bad {
            let _ = std::fs::remove_file(home.join("g.json"));
            if let Some(t) = text {
                std::fs::write(home.join("g.json"), t).expect("scratch");
            }
            let e = replay::<TicTacToe>(&home, "g.json", false);
            cx.out.transitions += 1;
            cx.tick();
            cx.check(!e.ok() && !e.late, "accepted", || format!("a record that is {w} is replayed ({})", tail(&e)));
        }
        let _ = std::fs::remove_dir_all(&home);
    }
    cx.bound("games saved by matches of the program (both games, two pairs of agents): 12 of each replayed; the number of recorded turns against what the result needs");
    matches_replayed::<TicTacToe>(cx);
    matches_replayed::<Backgammon>(cx);
}

fn matches_replayed<T: LearnableGame>(cx: &mut Cx) {
    for (one, two) in [("random", "mcts"), ("mcts", "random")] {
        if !cx.case(|| format!("{} match {one} against {two}", T::name())) {
            continue;
        }
        let home = fresh_dir(cx, "cli");
        std::fs::create_dir_all(home.join("games")).expect("scratch");
        // backgammon: one iteration of a short rollout, so that a match is quick
        std::fs::write(home.join("settings.toml"), toml(&entries(&full_conf(if T::IS_DETERMINISTIC { 3 } else { 1 }, 2.0, 2, 0.3, 0.0, 1.0, 1, 4)))).expect("scratch");
        let e = cli(&home, &play_args(game_flag::<T>(), one, None, two, None, "games"), "");
        cx.out.transitions += 1;
        cx.tick();
        if !cx.check(e.ok(), "failed", || format!("a match of {one} and {two} fails ({})", tail(&e))) {
            return;
        }
        let mut files: Vec<PathBuf> = std::fs::read_dir(home.join("games")).into_iter().flatten().flatten().map(|f| f.path()).collect();
        files.sort();
        let mut short = None;
        for (i, f) in files.iter().enumerate() {
            let r = catch(|| load_game::<T>(f.clone()).map_err(|e| e.to_string()));
            let Some(Ok(g)) = cx.unwrap(r, "load", || format!("loading {f:?}")) else {
                cx.fail("load", format!("a game saved by a match is not loaded: {f:?}"));
                return;
            };
            // a tic-tac-toe win needs five moves, fifteen checkers need eight turns
            if g.turns.len() < if T::IS_DETERMINISTIC { 5 } else { 8 } {
                short.get_or_insert((g.turns.len(), g.winner.clone()));
            }
            if i < 12 {
                let v = serde_json::to_value(&g).unwrap_or_default();
                let start: Option<T> = v.get("initial_state").and_then(|s| serde_json::from_value(s.clone()).ok());
                let Some(start) = start else { continue };
                let e = replay::<T>(&home, f.strip_prefix(&home).unwrap().to_str().unwrap(), i % 2 == 0);
                if !shown(cx, &e, &g, &start, &|| format!("{} game of a match of {one} and {two}", T::name())) {
                    break;
                }
            }
        }
        if let Some((n, w)) = short {
            cx.fail("turns-not-recorded", format!("games of a match are saved with {n} turns (winner {w:?}): they cannot be replayed move by move"));
        }
        let _ = std::fs::remove_dir_all(&home);
    }
}
