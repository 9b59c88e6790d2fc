//! C18, C19, C20: what is written to disk and read back.
use super::matches::Sendable;
use crate::cx::Cx;
use crate::explore::{catch, Bounds, Run};
use crate::toy::{self, Shape, Table, Toy};
use crate::util::*;
use die_e::alphazero::alphazero::{AlphaZero, MemoryFragment};
use die_e::alphazero::nnet::ResNet;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use die_e::versus::{load_all_games, load_game, save_game, Agent, Game, Turn};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use tch::{Kind, Tensor};

/// A fresh directory inside the worker's scratch directory.
pub fn fresh_dir(cx: &Cx, name: &str) -> PathBuf {
    let d = cx.scratch.join(name);
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

/// Runs f with no file allowed to grow beyond n bytes: writes past it fail.
pub fn with_file_limit<T>(n: u64, f: impl FnOnce() -> T) -> T {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let mut old: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
        let new = libc::rlimit { rlim_cur: n, rlim_max: old.rlim_max };
        libc::setrlimit(libc::RLIMIT_FSIZE, &new);
        let r = f();
        libc::setrlimit(libc::RLIMIT_FSIZE, &old);
        r
    }
}

pub fn values(n: usize, seed: u64) -> Vec<f32> {
    let mut z = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x5555;
    (0..n)
        .map(|_| {
            z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            ((z >> 33) as f32) / (1u64 << 31) as f32
        })
        .collect()
}

/// A sample as self-play makes it, with distinct contents.
pub fn sample<T: LearnableGame>(state: &Tensor, seed: u64, outcome: i8) -> MemoryFragment {
    let a = T::ACTION_SPACE_SIZE as usize;
    let size = state.size();
    let n: i64 = size.iter().product();
    MemoryFragment { outcome, ps: Tensor::from_slice(&values(a, seed)), state: Tensor::from_slice(&values(n as usize, seed + 77_777)).view(size.as_slice()) }
}

pub type Flat = (i8, Vec<f64>, Vec<f64>);
pub fn flat(m: &[MemoryFragment]) -> Vec<Flat> {
    m.iter().map(|f| (f.outcome, tensor_vec(&f.ps), tensor_vec(&f.state))).collect()
}

fn brief(v: &[Flat]) -> String {
    v.iter().take(4).map(|f| format!("({}, {} probabilities from {:.3?}, {} cells from {:.3?})", f.0, f.1.len(), f.1.first(), f.2.len(), f.2.first())).collect::<Vec<_>>().join(" ")
}

fn save(az: &AlphaZero, data: &[MemoryFragment], dir: &Path) -> Result<(), crate::explore::Fail> {
    catch(|| az.save_training_data(data, dir))
}

fn load(dir: &Path) -> Result<Vec<MemoryFragment>, crate::explore::Fail> {
    catch(|| AlphaZero::load_training_data(dir))
}

fn round_trip<T: LearnableGame>(cx: &mut Cx, az: &mut AlphaZero, dir: &Path, data: &mut Vec<MemoryFragment>, train: bool, what: &dyn Fn() -> String) -> bool {
    let want = flat(data);
    cx.out.traces += 1;
    cx.out.states += want.len() as u64;
    let r = save(az, data, dir);
    if cx.unwrap(r, "save", || format!("saving {} samples, {}", want.len(), what())).is_none() {
        return false;
    }
    if !cx.check(flat(data) == want, "memory", || format!("saving changed the samples in memory, {}", what())) {
        return false;
    }
    let r = load(dir);
    let Some(mut back) = cx.unwrap(r, "load", || format!("loading {} samples, {}", want.len(), what())) else { return false };
    let got = flat(&back);
    if !cx.check(got == want, "changed", || format!("{} samples come back as {}: {} instead of {}; {}", want.len(), got.len(), brief(&got), brief(&want), what())) {
        return false;
    }
    let kinds = back.iter().all(|f| f.ps.kind() == Kind::Float && f.state.kind() == Kind::Float);
    if !cx.check(kinds, "kind", || format!("samples come back in another number type, {}", what())) {
        return false;
    }
    if train {
        let r = catch(|| {
            tch::manual_seed(3);
            az.train(&mut back)
        });
        if cx.unwrap(r, "train", || format!("training on {} loaded samples, {}", want.len(), what())).is_none() {
            return false;
        }
    }
    true
}

fn c18_game<T: LearnableGame>(cx: &mut Cx, counts: &[usize], name: &str) {
    let dir = fresh_dir(cx, "data");
    let r = Run::default_run().with(|| learner::<T>(2, 2.0, 5, 0.3, 0.25, 1.0, 1, 7));
    let Some(mut az) = cx.unwrap(r, "learner", || "constructing the learner".into()) else { return };
    let shape = {
        let mut s = T::new();
        if !T::IS_DETERMINISTIC {
            let _ = Run::default_run().with(|| s.roll_die());
        }
        s.as_tensor()
    };
    for &n in counts {
        if cx.case(|| format!("{name} {n} samples")) {
            for variant in 0..3u64 {
                let mut data: Vec<MemoryFragment> = (0..n).map(|i| sample::<T>(&shape, i as u64 * 3 + variant * 1000, [(1i8), -1, 0][(i + variant as usize) % 3])).collect();
                if !round_trip::<T>(cx, &mut az, &dir, &mut data, variant == 0, &|| format!("{name}, variant {variant}")) {
                    return;
                }
            }
        }
    }
}

pub fn c18(cx: &mut Cx) {
    toy::set_table(Table::new(&Shape::Node(vec![(false, 0, Shape::End(1))]), false));
    let t = cx.thorough;
    let many: Vec<usize> = (1..=if t { 130 } else { 40 }).chain([64, 65, 127, 128, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 2049, 4097]).collect();
    cx.bound(format!("samples of a small game, tic-tac-toe and backgammon in counts {:?}..: saved, loaded, compared value by value and trained on", &many[..3]));
    c18_game::<Toy<true>>(cx, &many, "toy");
    c18_game::<TicTacToe>(cx, &many[..many.len() - 6], "tictactoe");
    c18_game::<Backgammon>(cx, &many[..if t { 40 } else { 9 }], "backgammon");
    // unusual numbers
    cx.bound("samples of extreme numbers: zero, negative zero, the smallest and largest floats, ones that no shorter format holds");
    if cx.case(|| "extreme numbers".into()) {
        let dir = fresh_dir(cx, "data");
        let r = Run::default_run().with(|| learner::<Toy<true>>(2, 2.0, 5, 0.3, 0.25, 1.0, 1, 7));
        let Some(mut az) = cx.unwrap(r, "learner", || "constructing the learner".into()) else { return };
        let special = [0.0f32, -0.0, 1.0, -1.0, f32::MIN_POSITIVE, 1e-45, f32::MAX, f32::MIN, f32::EPSILON, 0.1, 1.0 / 3.0, 65504.0, 65520.0, 1e-8, 6e-5, 255.0, 257.0, 16777217.0, 1.0 + f32::EPSILON, 0.99999994];
        let a = Toy::<true>::ACTION_SPACE_SIZE as usize;
        let size = Toy::<true>::start(-1, 0).as_tensor().size();
        let cells: i64 = size.iter().product();
        for n in 1..=4usize {
            for off in 0..special.len() {
                let pick = |i: usize, len: usize| -> Vec<f32> { (0..len).map(|j| special[(off + i * 7 + j * 3) % special.len()]).collect() };
                let mut data: Vec<MemoryFragment> = (0..n)
                    .map(|i| MemoryFragment { outcome: (i % 3) as i8 - 1, ps: Tensor::from_slice(&pick(i, a)), state: Tensor::from_slice(&pick(i + 1, cells as usize)).view(size.as_slice()) })
                    .collect();
                if !round_trip::<Toy<true>>(cx, &mut az, &dir, &mut data, false, &|| format!("{n} samples of extreme numbers, variant {off}")) {
                    return;
                }
            }
        }
    }
    // all outcome patterns
    let shape = Toy::<true>::start(-1, 0).as_tensor();
    let r = Run::default_run().with(|| learner::<Toy<true>>(2, 2.0, 5, 0.3, 0.25, 1.0, 1, 7));
    let Some(mut az) = cx.unwrap(r, "learner", || "constructing the learner".into()) else { return };
    let len = if t { 7 } else { 5 };
    cx.bound(format!("every sequence of outcomes of up to {len} samples"));
    for n in 1..=len {
        for part in 0..8 {
            if cx.case(|| format!("outcomes of {n} samples, part {part}")) {
                let dir = fresh_dir(cx, "data");
                for m in 0..3usize.pow(n) {
                    if m % 8 != part {
                        continue;
                    }
                    let mut data: Vec<MemoryFragment> = (0..n).map(|i| sample::<Toy<true>>(&shape, (m * 10) as u64 + i as u64, (m / 3usize.pow(i) % 3) as i8 - 1)).collect();
                    if !round_trip::<Toy<true>>(cx, &mut az, &dir, &mut data, false, &|| format!("outcomes {:?}", (0..n).map(|i| (m / 3usize.pow(i) % 3) as i8 - 1).collect::<Vec<_>>())) {
                        return;
                    }
                }
            }
        }
    }
    // samples that occur more than once
    let len = if t { 6 } else { 5 };
    cx.bound(format!("every sequence of up to {len} samples drawn from two that differ in one part (outcome, policy, state) or in nothing"));
    for (k, part) in ["nothing", "outcome", "policy", "state"].into_iter().enumerate() {
        if cx.case(|| format!("repeated samples differing in {part}")) {
            let dir = fresh_dir(cx, "data");
            for n in 1..=len {
                for m in 0..1u32 << n {
                    let mut data: Vec<MemoryFragment> = (0..n)
                        .map(|i| {
                            let other = m >> i & 1 == 1;
                            let pick = |j: usize| sample::<Toy<true>>(&shape, if other && k == j { 31 } else { 30 }, 1);
                            MemoryFragment { outcome: if other && k == 1 { -1 } else { 1 }, ps: pick(2).ps, state: pick(3).state }
                        })
                        .collect();
                    if !round_trip::<Toy<true>>(cx, &mut az, &dir, &mut data, false, &|| format!("samples {m:b} of {n}, differing in {part}")) {
                        return;
                    }
                }
            }
        }
    }
    // saved over older data
    cx.bound("saving over older data of another length");
    for (a, b) in [(5usize, 2usize), (2, 5), (1, 3), (3, 1)] {
        if cx.case(|| format!("overwrite {a} by {b}")) {
            let dir = fresh_dir(cx, "data");
            for n in [a, b] {
                let mut data: Vec<MemoryFragment> = (0..n).map(|i| sample::<Toy<true>>(&shape, 50 + (n * 10 + i) as u64, 1 - (i % 3) as i8)).collect();
                if !round_trip::<Toy<true>>(cx, &mut az, &dir, &mut data, false, &|| format!("{b} samples over {a}")) {
                    return;
                }
            }
        }
    }
    // torn files
    const FILES: [&str; 3] = ["ps.ot", "states.ot", "outcomes.ot"];
    let step = 1;
    cx.bound(format!("each of the three files cut off at every {}byte, of 1, 2 and 6 samples", if step == 1 { "" } else { "third " }));
    for n in [1usize, 2, 6] {
        for f in FILES {
            for part in 0..4usize {
                if cx.case(|| format!("torn {f} of {n} samples, part {part}")) {
                    let dir = fresh_dir(cx, "data");
                    let data: Vec<MemoryFragment> = (0..n).map(|i| sample::<Toy<true>>(&shape, 90 + i as u64, 1)).collect();
                    let r = save(&az, &data, &dir);
                    if cx.unwrap(r, "save", || "saving".into()).is_none() {
                        return;
                    }
                    let Ok(whole) = std::fs::read(dir.join(f)) else { continue };
                    for k in (0..whole.len()).rev().step_by(step) {
                        if k / step % 4 != part {
                            continue;
                        }
                        std::fs::write(dir.join(f), &whole[..k]).expect("scratch");
                        let r = load(&dir);
                        cx.out.transitions += 1;
                        if !cx.check(r.is_err(), "torn", || format!("{f} of {n} samples cut off after {k} of {} bytes is loaded as {} samples: {}", whole.len(), r.as_ref().map_or(0, |v| v.len()), r.as_ref().map_or(String::new(), |v| brief(&flat(v))))) {
                            return;
                        }
                        cx.tick();
                    }
                }
            }
        }
    }
    // missing and mismatched files
    cx.bound("every subset of the files missing; files of saves of different lengths mixed");
    if cx.case(|| "missing files".into()) {
        for gone in 1..8u32 {
            let dir = fresh_dir(cx, "data");
            let data: Vec<MemoryFragment> = (0..3).map(|i| sample::<Toy<true>>(&shape, i, 1)).collect();
            let _ = save(&az, &data, &dir);
            for (i, f) in FILES.iter().enumerate() {
                if gone >> i & 1 == 1 {
                    let _ = std::fs::remove_file(dir.join(f));
                }
            }
            let r = load(&dir);
            cx.out.transitions += 1;
            cx.check(r.is_err(), "missing", || format!("data lacking {:?} is loaded", (0..3).filter(|i| gone >> i & 1 == 1).map(|i| FILES[i]).collect::<Vec<_>>()));
        }
        let nowhere = cx.scratch.join("nowhere");
        cx.check(load(&nowhere).is_err(), "missing", || "data of a missing directory is loaded".into());
        let data: Vec<MemoryFragment> = vec![sample::<Toy<true>>(&shape, 4, 1)];
        cx.check(save(&az, &data, &nowhere).is_err(), "unsaved", || "saving into a missing directory is reported as success".into());
    }
    if cx.case(|| "mixed files".into()) {
        let sizes = [1usize, 2, 3, 5];
        let dirs: Vec<PathBuf> = sizes
            .iter()
            .map(|&n| {
                let d = fresh_dir(cx, &format!("mix{n}"));
                let data: Vec<MemoryFragment> = (0..n).map(|i| sample::<Toy<true>>(&shape, (n * 10 + i) as u64, 1)).collect();
                let _ = save(&az, &data, &d);
                d
            })
            .collect();
        let dir = fresh_dir(cx, "data");
        for m in 0..64usize {
            let pick = [m % 4, m / 4 % 4, m / 16];
            if pick[0] == pick[1] && pick[1] == pick[2] {
                continue;
            }
            for (i, f) in FILES.iter().enumerate() {
                let _ = std::fs::copy(dirs[pick[i]].join(f), dir.join(f));
            }
            let r = load(&dir);
            cx.out.transitions += 1;
            if !cx.check(r.is_err(), "mismatched", || format!("files of {:?} policies, states and outcomes are loaded as {} samples", pick.map(|i| sizes[i]), r.as_ref().map_or(0, |v| v.len()))) {
                return;
            }
        }
    }
    // failing writes: whatever the save says, what is on disk is complete or refused
    cx.bound("writes failing at every 4th byte (thorough: every byte)");
    for part in 0..4u64 {
        if cx.case(|| format!("writes failing part {part}")) {
            let data: Vec<MemoryFragment> = (0..3).map(|i| sample::<Toy<true>>(&shape, i, 1)).collect();
            let want = flat(&data);
            let dir = fresh_dir(cx, "data");
            if save(&az, &data, &dir).is_err() {
                cx.fail("save", "saving three samples fails");
                return;
            }
            let len = FILES.iter().filter_map(|f| std::fs::metadata(dir.join(f)).ok()).map(|m| m.len()).max().unwrap_or(0);
            for k in (0..=len).step_by(if t { 1 } else { 4 }) {
                if k / 4 % 4 != part {
                    continue;
                }
                let dir = fresh_dir(cx, "data");
                let r = with_file_limit(k, || save(&az, &data, &dir));
                cx.out.transitions += 1;
                let back = load(&dir).map(|b| flat(&b));
                if !cx.check(back.as_ref().map_or(true, |b| *b == want), "torn", || format!("with writes failing after {k} bytes (save: {r:?}) other samples are loaded: {}", brief(back.as_ref().unwrap()))) {
                    return;
                }
                cx.tick();
            }
        }
    }
}

// ---------------------------------------------------------------- C19

pub fn agents() -> [Agent; 4] {
    [Agent::Random, Agent::Mcts, Agent::Model, Agent::None]
}

fn text<T: LearnableGame>(g: &Game<T>) -> String {
    format!("{g:?}")
}

pub fn id_of<T: LearnableGame>(g: &Game<T>) -> String {
    serde_json::to_value(g).ok().and_then(|v| v.get("id").and_then(|i| i.as_str()).map(|s| s.to_string())).unwrap_or_default()
}

pub fn records<T: LearnableGame>(states: &[T], all: bool) -> Vec<Game<T>> {
    let mut v = vec![];
    for (i, a) in agents().into_iter().enumerate() {
        for (j, b) in agents().into_iter().enumerate() {
            for (k, w) in agents().into_iter().enumerate() {
                if !all && (i + j + k) % 3 != 0 {
                    continue;
                }
                let n = v.len();
                let mut g = Game::new(a.clone(), b.clone(), states[n % states.len()]);
                g.winner = w;
                for t in 0..n % 4 {
                    g.turns.push(Turn {
                        roll: [None, Some((1, 6)), Some((6, 6)), Some((2, 3))][(n + t) % 4],
                        action: (0..(n + t) % 3).map(|x| states[(n + t + x) % states.len()]).collect(),
                        player: agents()[(n + t) % 4].clone(),
                    });
                }
                v.push(g);
            }
        }
    }
    v
}

fn json_files(dir: &Path) -> Vec<PathBuf> {
    std::fs::read_dir(dir).into_iter().flatten().flatten().map(|e| e.path()).filter(|p| p.is_file()).collect()
}

fn c19_game<T: LearnableGame>(cx: &mut Cx, name: &str, states: &[T], all: bool) {
    let t = cx.thorough;
    if cx.case(|| format!("{name} round trip")) {
        let mut sum: BTreeMap<String, String> = BTreeMap::new();
        let alldir = fresh_dir(cx, "all");
        for g in records(states, all) {
            let dir = fresh_dir(cx, "games");
            let r = catch(|| save_game(&g, dir.to_str().unwrap()).map_err(|e| e.to_string()));
            cx.out.traces += 1;
            let Some(r) = cx.unwrap(r, "panic", || "saving a game".into()) else { return };
            if !cx.check(r.is_ok(), "save", || format!("saving {} fails: {r:?}", text(&g))) {
                return;
            }
            let files = json_files(&dir);
            let own = dir.join(format!("{}.json", id_of(&g)));
            if !cx.check(files == vec![own.clone()], "name", || format!("{} is saved as {files:?}", text(&g))) {
                return;
            }
            let r = catch(|| load_game::<T>(own).map_err(|e| e.to_string()));
            let Some(r) = cx.unwrap(r, "panic", || "loading a game".into()) else { return };
            match r {
                Err(e) => {
                    cx.fail("load", format!("{} cannot be loaded: {e}", text(&g)));
                    return;
                }
                Ok(b) => {
                    if !cx.check(text(&b) == text(&g) && b.winner == g.winner && b.turns.len() == g.turns.len(), "changed", || format!("{} comes back as {}", text(&g), text(&b))) {
                        return;
                    }
                }
            }
            cx.out.states += 1;
            let _ = save_game(&g, alldir.to_str().unwrap());
            sum.insert(id_of(&g), text(&g));
        }
        // the whole directory, other files among them
        for (n, body) in [("notes.txt", "{}"), ("json", "x"), ("x.json.tmp", "{"), ("x.jsonl", "{"), (".hidden", ""), ("games.csv", "1,2")] {
            std::fs::write(alldir.join(n), body).expect("scratch");
        }
        std::fs::create_dir_all(alldir.join("old.json")).expect("scratch");
        std::fs::write(alldir.join("old.json").join("x.json"), "{").expect("scratch");
        for step in 0..2 {
            if step == 1 {
                std::fs::write(alldir.join(std::ffi::OsStr::from_bytes(b"caf\xe9.txt")), "x").expect("scratch");
            }
            let r = catch(|| load_all_games::<T>(alldir.clone()).map_err(|e| e.to_string()));
            cx.out.transitions += 1;
            let key = if step == 1 { "odd-name" } else { "directory" };
            match r {
                Ok(Ok(v)) => {
                    let got: BTreeMap<String, String> = v.iter().map(|g| (id_of(g), text(g))).collect();
                    cx.check(v.len() == sum.len() && got == sum, "directory", || format!("a directory of {} games loads as {} games ({} different)", sum.len(), v.len(), got.len()));
                }
                r => cx.fail(key, format!("a directory of {} games and other files{} cannot be loaded: {:?}", sum.len(), if step == 1 { ", one with a name that is not UTF-8," } else { "" }, r.map(|r| r.map(|v| v.len())))),
            }
        }
        std::fs::write(alldir.join("torn.json"), "{\"id\": \"abc\"").expect("scratch");
        let r = catch(|| load_all_games::<T>(alldir.clone()).map_err(|e| e.to_string()));
        cx.check(!matches!(r, Ok(Ok(_))), "torn", || "a directory with a torn game file is loaded as if it were complete".into());
    }
    // saved again under the same name: shorter, longer, and over other contents
    if cx.case(|| format!("{name} saved again")) {
        let all = records(states, true);
        let check = |cx: &mut Cx, dir: &Path, g: &Game<T>, limit: u64, what: &dyn Fn() -> String| -> bool {
            let r = with_file_limit(limit, || catch(|| save_game(g, dir.to_str().unwrap()).map_err(|e| e.to_string())));
            let said = matches!(r, Ok(Ok(())));
            cx.out.transitions += 1;
            let back = catch(|| load_game::<T>(dir.join(format!("{}.json", id_of(g)))).map_err(|e| e.to_string()));
            let complete = matches!(&back, Ok(Ok(b)) if text(b) == text(g));
            cx.check(complete || !said, "again", || format!("{} saved {} is reported as saved, but reads back as {:?}", text(g), what(), back.map(|b| b.map(|b| text(&b)))))
                && (limit < 1 << 30 || cx.check(said, "save", || format!("saving {} {} fails: {r:?}", text(g), what())))
        };
        for (i, g) in all.iter().enumerate().step_by(if t { 1 } else { 3 }) {
            let dir = fresh_dir(cx, "games");
            let winner = g.winner.clone();
            let mut g = Game::new(agents()[i % 4].clone(), agents()[i / 4 % 4].clone(), states[i % states.len()]);
            g.winner = winner;
            let turns = &all[(i * 5 + 3) % all.len()].turns;
            // growing, then shrinking
            for k in (0..=turns.len()).chain((0..turns.len()).rev()) {
                g.turns = all[(i * 5 + 3) % all.len()].turns.iter().take(k).map(|t| Turn { roll: t.roll, action: t.action.clone(), player: t.player.clone() }).collect();
                if !check(cx, &dir, &g, 1 << 40, &|| format!("over an older version of itself ({k} turns)")) {
                    return;
                }
            }
            // over something else
            let own = dir.join(format!("{}.json", id_of(&g)));
            let len = std::fs::metadata(&own).map_or(0, |m| m.len());
            for filler in ["x", "}", " ", "{\"id\": 1}\n"] {
                for n in [1u64, len.max(1) - 1, len, len + 1, len * 3] {
                    let body: String = filler.chars().cycle().take(n as usize).collect();
                    std::fs::write(&own, body).expect("scratch");
                    if !check(cx, &dir, &g, 1 << 40, &|| format!("over a file of {n} bytes {filler:?}")) {
                        return;
                    }
                }
            }
            // failing over a complete older version with other contents
            for k in (0..len).step_by(if t { 1 } else { 13 }) {
                let kept = g.winner.clone();
                g.winner = if kept == Agent::None { Agent::Mcts } else { Agent::None };
                let _ = save_game(&g, dir.to_str().unwrap());
                g.winner = kept;
                if !check(cx, &dir, &g, k, &|| format!("over another version of itself with writes failing after {k} bytes")) {
                    return;
                }
            }
            cx.tick();
        }
    }
    // a directory of many games
    let counts: &[usize] = if t { &[99, 257, 1030, 2600] } else { &[1030] };
    cx.bound(format!("directories of {counts:?} games"));
    for &n in counts {
        if cx.case(|| format!("{name} directory of {n} games")) {
            let dir = fresh_dir(cx, "games");
            let mut sum: BTreeMap<String, String> = BTreeMap::new();
            let kinds = records(states, true);
            for i in 0..n {
                let of = &kinds[i % kinds.len()];
                let mut g = Game::new(agents()[i % 4].clone(), agents()[i / 4 % 4].clone(), states[i % states.len()]);
                g.winner = of.winner.clone();
                g.turns = of.turns.iter().map(|t| Turn { roll: t.roll, action: t.action.clone(), player: t.player.clone() }).collect();
                let r = catch(|| save_game(&g, dir.to_str().unwrap()).map_err(|e| e.to_string()));
                if !cx.check(matches!(r, Ok(Ok(()))), "save", || format!("saving game {i} of {n} fails: {r:?}")) {
                    return;
                }
                sum.insert(id_of(&g), text(&g));
            }
            cx.tick();
            cx.out.states += n as u64; cx.check(sum.len() == n, "ids", || format!("only {} ids among {n} games", sum.len()));
            let r = catch(|| load_all_games::<T>(dir.clone()).map_err(|e| e.to_string()));
            cx.out.transitions += 1;
            match r {
                Ok(Ok(v)) => {
                    let got: BTreeMap<String, String> = v.iter().map(|g| (id_of(g), text(g))).collect();
                    cx.check(v.len() == sum.len() && got == sum, "directory", || format!("a directory of {} games loads as {} games ({} different)", sum.len(), v.len(), got.len()));
                }
                r => cx.fail("directory", format!("a directory of {n} games cannot be loaded: {:?}", r.map(|r| r.map(|v| v.len())))),
            }
            let _ = std::fs::remove_dir_all(&dir);
        }
    }
    // a long game: more than any buffer holds
    cx.bound("games of up to 300 turns, writes failing at every 97th byte and around each multiple of 4096");
    for n in [40usize, 300] {
        if cx.case(|| format!("{name} long game of {n} turns")) {
            let dir = fresh_dir(cx, "games");
            let mut g = Game::new(Agent::Random, Agent::Model, states[0]);
            g.winner = Agent::Model;
            for i in 0..n {
                g.turns.push(Turn { roll: Some(((i % 6) as u8 + 1, (i % 5) as u8 + 1)), action: vec![states[i % states.len()], states[(i * 3 + 1) % states.len()]], player: agents()[i % 2].clone() });
            }
            let r = catch(|| save_game(&g, dir.to_str().unwrap()).map_err(|e| e.to_string()));
            if !cx.check(matches!(r, Ok(Ok(()))), "save", || format!("saving a game of {n} turns fails: {r:?}")) {
                return;
            }
            let own = dir.join(format!("{}.json", id_of(&g)));
            let r = catch(|| load_game::<T>(own.clone()).map_err(|e| e.to_string()));
            if !cx.check(matches!(&r, Ok(Ok(b)) if text(b) == text(&g)), "changed", || format!("a game of {n} turns comes back changed")) {
                return;
            }
            let len = std::fs::metadata(&own).map_or(0, |m| m.len());
            let step = if t { 31 } else { (len / 400).max(97) };
            for k in (0..len).filter(|k| k % step == 0 || k % 4096 < 2 || k % 4096 > 4094 || len - k < 3) {
                let _ = std::fs::remove_file(&own);
                let r = with_file_limit(k, || catch(|| save_game(&g, dir.to_str().unwrap()).map_err(|e| e.to_string())));
                cx.out.transitions += 1;
                let complete = load_game::<T>(own.clone()).is_ok_and(|b| text(&b) == text(&g));
                if !cx.check(complete || !matches!(r, Ok(Ok(()))), "unsaved", || format!("with writes failing after {k} of {len} bytes the save reports success, but the game is not on disk")) {
                    return;
                }
                cx.tick();
            }
        }
    }
    // torn files: every prefix
    let games: Vec<Game<T>> = records(states, true).into_iter().skip(5).step_by(if t { 1 } else { 6 }).collect();
    for (gi, g) in games.iter().enumerate() {
        if cx.case(|| format!("{name} torn {gi}")) {
            let dir = fresh_dir(cx, "games");
            let _ = save_game(g, dir.to_str().unwrap());
            let own = dir.join(format!("{}.json", id_of(g)));
            let Ok(whole) = std::fs::read(&own) else {
                cx.fail("save", "a saved game has no file under its own name");
                return;
            };
            let ends = String::from_utf8_lossy(&whole).trim_end().len();
            for k in 0..ends {
                std::fs::write(&own, &whole[..k]).expect("scratch");
                let r = catch(|| load_game::<T>(own.clone()).map_err(|e| e.to_string()));
                cx.out.transitions += 1;
                if !cx.check(!matches!(r, Ok(Ok(_))), "torn", || format!("a game cut off after {k} of {} bytes is loaded", whole.len())) {
                    return;
                }
            }
            cx.tick();
            // writes failing after k bytes
            for k in (0..=whole.len() as u64).step_by(1) {
                let dir = fresh_dir(cx, "games");
                let r = with_file_limit(k, || catch(|| save_game(g, dir.to_str().unwrap()).map_err(|e| e.to_string())));
                cx.out.transitions += 1;
                let own = dir.join(format!("{}.json", id_of(g)));
                let complete = load_game::<T>(own).is_ok_and(|b| text(&b) == text(g));
                if !cx.check(complete || !matches!(r, Ok(Ok(()))), "unsaved", || format!("with writes failing after {k} of {} bytes the save reports success, but the game is not on disk", whole.len())) {
                    return;
                }
            }
            cx.tick();
            // a full device
            let dir = fresh_dir(cx, "games");
            std::os::unix::fs::symlink("/dev/full", dir.join(format!("{}.json", id_of(g)))).expect("scratch");
            let r = catch(|| save_game(g, dir.to_str().unwrap()).map_err(|e| e.to_string()));
            // the device itself is not read: it never ends
            let own = dir.join(format!("{}.json", id_of(g)));
            let complete = std::fs::symlink_metadata(&own).is_ok_and(|m| m.is_file()) && load_game::<T>(own).is_ok_and(|b| text(&b) == text(g));
            cx.check(complete || !matches!(r, Ok(Ok(()))), "unsaved", || "a game saved to a full device is reported as saved".into());
            let r = catch(|| save_game(g, cx.scratch.join("nowhere").to_str().unwrap()).map_err(|e| e.to_string()));
            cx.check(!matches!(r, Ok(Ok(()))), "unsaved", || "a game saved to a missing directory is reported as saved".into());
        }
    }
}

pub fn c19(cx: &mut Cx) {
    toy::set_table(Table::new(&Shape::Node(vec![(false, 0, Shape::End(1))]), false));
    cx.bound("game records of all agents, winners and up to three turns, of tic-tac-toe, backgammon and a small game: saved, loaded, and as a directory among other files");
    cx.bound("torn files: every prefix; writes failing after every byte; a full device; a missing directory");
    let all = true;
    c19_game::<Toy<true>>(cx, "toy", &[Toy::start(-1, 3), Toy::start(1, 4)], all);
    let ttt: Vec<TicTacToe> = ttt_positions().into_iter().step_by(97).collect();
    c19_game::<TicTacToe>(cx, "tictactoe", &ttt, all);
    let mut bg = vec![];
    for b in 0..6u64 {
        let _ = Run::with_bounds(&Bounds { base: b, ..Bounds::full() }).with(|| {
            let mut s = Backgammon::new();
            s.roll_die();
            for _ in 0..b * 5 {
                let m = s.get_valid_moves();
                match m.first() {
                    Some(m) => s.apply_move(&m.clone()),
                    None => s.skip_turn(),
                }
            }
            s.set_id(b as usize);
            bg.push(s);
        });
    }
    c19_game::<Backgammon>(cx, "backgammon", &bg, all);
    // files and directories that may not be opened, or not even be looked at
    cx.bound("a directory of three games, each file and the directory itself with all eight access rights");
    if cx.case(|| "access rights".into()) {
        use std::os::unix::fs::PermissionsExt;
        let dir = fresh_dir(cx, "games");
        let games: Vec<Game<TicTacToe>> = records(&ttt, true).into_iter().take(3).collect();
        for g in &games {
            let _ = save_game(g, dir.to_str().unwrap());
        }
        std::fs::write(dir.join("notes.txt"), "x").expect("scratch");
        let want: BTreeSet<String> = games.iter().map(text).collect();
        let mut at: Vec<PathBuf> = json_files(&dir);
        at.sort();
        at.push(dir.clone());
        let rights = |p: &Path, m: u32| std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).expect("scratch");
        let mut refused = 0;
        let above: Vec<&Path> = dir.ancestors().take(3).collect();
        for p in above.iter().copied().chain(at.iter().map(|p| p.as_path())) {
            rights(p, 0o755);
        }
        for p in &at {
            for m in 0..8u32 {
                rights(p, 0o700 | m << 3 | m);
                let r = as_other_user(|| catch(|| load_all_games::<TicTacToe>(dir.clone()).map_err(|e| e.to_string())));
                rights(p, 0o755);
                let Some(r) = r else {
                    cx.note("this sandbox cannot act as another user: access rights not checked");
                    break;
                };
                cx.out.transitions += 1;
                match r {
                    Ok(Ok(v)) => {
                        let got: BTreeSet<String> = v.iter().map(text).collect();
                        if !cx.check(v.len() == 3 && got == want, "unreadable", || format!("with rights {m} of {:?} for another user, a directory of 3 games loads as {} games", p.file_name(), v.len())) {
                            break;
                        }
                    }
                    _ => refused += 1,
                }
            }
        }
        cx.note(format!("{refused} of {} access rights are refused", at.len() * 8));
        cx.tick();
    }
    // a match's games, saved one by one
    if cx.case(|| "match records".into()) {
        let r = super::matches::raw_match::<TicTacToe>(&Run::with_bounds(&Bounds { base: 4, ..Bounds::full() }));
        let Some(p) = cx.unwrap(r, "panic", || "a match of random players".into()) else { return };
        let dir = fresh_dir(cx, "games");
        for g in &p.get().games {
            let r = save_game(g, dir.to_str().unwrap()).map_err(|e| e.to_string());
            if !cx.check(r.is_ok(), "save", || format!("saving a match's game fails: {r:?}")) {
                return;
            }
        }
        let r = catch(|| load_all_games::<TicTacToe>(dir.clone()).map_err(|e| e.to_string()));
        cx.out.traces += 1;
        match r {
            Ok(Ok(v)) => {
                let a: std::collections::BTreeSet<String> = v.iter().map(text).collect();
                let b: std::collections::BTreeSet<String> = p.get().games.iter().map(text).collect();
                cx.check(v.len() == p.get().games.len() && a == b, "directory", || format!("{} games of a match load as {} games", b.len(), v.len()));
            }
            r => cx.fail("directory", format!("the games of a match cannot be loaded: {:?}", r.map(|r| r.map(|v| v.len())))),
        }
    }
}

// ---------------------------------------------------------------- C20

/// All values of a model, by name.
pub fn weights(n: &ResNet) -> BTreeMap<String, Vec<f64>> {
    n.vs.variables().into_iter().map(|(k, t)| (k, tensor_vec(&t))).collect()
}

/// What a model answers on a few inputs.
pub fn answers<T: LearnableGame>(n: &ResNet, shape: &[i64]) -> Vec<f64> {
    let _g = tch::no_grad_guard();
    let mut out = vec![];
    for s in 0..3 {
        let k: i64 = shape.iter().product();
        let x = Tensor::from_slice(&values(k as usize, 900 + s)).view(shape);
        let (p, v) = n.forward_t(&x, false);
        out.extend(tensor_vec(&p));
        out.extend(tensor_vec(&v));
        out.extend(tensor_vec(&n.forward_policy(&x, false)));
    }
    out
}

pub fn input_shape<T: LearnableGame>() -> Vec<i64> {
    let mut s = T::new();
    if !T::IS_DETERMINISTIC {
        let _ = Run::default_run().with(|| s.roll_die());
    }
    s.as_tensor().size()
}

fn same_model<T: LearnableGame>(cx: &mut Cx, got: &ResNet, want: &ResNet, key: &str, what: &dyn Fn() -> String) -> bool {
    let sh = input_shape::<T>();
    let ok = weights(got) == weights(want) && answers::<T>(got, &sh) == answers::<T>(want, &sh);
    cx.out.transitions += 1;
    cx.check(ok, key, || {
        let (a, b) = (weights(got), weights(want));
        let bad: Vec<&String> = b.keys().filter(|k| a.get(*k) != b.get(*k)).take(4).collect();
        format!("the model in use is not the one asked for (different: {bad:?}, {} and {} variables): {}", a.len(), b.len(), what())
    })
}

fn with_model<T: LearnableGame>(path: Option<PathBuf>) -> AlphaZero {
    AlphaZero::from_config::<T>(path, &conf(&full_conf(2, 2.0, 5, 0.3, 0.25, 1.0, 1, 3)))
}

fn c20_game<T: LearnableGame>(cx: &mut Cx, name: &str) {
    let shape = {
        let mut s = T::new();
        if !T::IS_DETERMINISTIC {
            let _ = Run::default_run().with(|| s.roll_die());
        }
        s.as_tensor()
    };
    let models = PathBuf::from(format!("./models/{}", T::name()));
    let best = models.join("best_model.ot");
    // models: fresh and trained ones, on disk under different names
    let make = |seed: i64, trained: usize| -> AlphaZero {
        tch::manual_seed(seed);
        let mut az = with_model::<T>(None);
        for k in 0..trained {
            let mut data: Vec<MemoryFragment> = (0..4).map(|i| sample::<T>(&shape, 40 + i + 10 * k as u64, 1 - (i % 3) as i8)).collect();
            az.train(&mut data);
        }
        az
    };
    for trained in [0usize, 1, 3] {
        if !cx.case(|| format!("{name} checkpoints after {trained} passes")) {
            continue;
        }
        let _ = std::fs::remove_dir_all("./models");
        std::fs::create_dir_all(&models).expect("scratch");
        let dir = fresh_dir(cx, "ckpt");
        let r = Run::default_run().with(|| (make(1, trained), make(2, trained), make(3, 0)));
        let Some((a, b, _c)) = cx.unwrap(r, "learner", || "constructing learners".into()) else { return };
        let (pa, pb) = (dir.join("a model.ot"), dir.join("b.ot"));
        for (az, p) in [(&a, &pa), (&b, &pb)] {
            let before = weights(&az.model);
            let r = catch(|| az.save_current_model(p).map_err(|e| e.to_string()));
            let Some(r) = cx.unwrap(r, "save", || "saving a model".into()) else { return };
            if !cx.check(r.is_ok(), "save", || format!("saving a model fails: {r:?}")) || !cx.check(weights(&az.model) == before, "save", || "saving changes the model".into()) {
                return;
            }
        }
        cx.check(weights(&a.model) != weights(&b.model), "fresh", || "two fresh models from different seeds are equal".into());
        // every way to ask for a model: path given or not, best model on disk or not
        for (path, clutter) in [(None, false), (Some(&pa), false), (Some(&pb), false), (None, true), (Some(&pa), true)] {
            if clutter {
                // models that are not the best one: checkpoints of earlier runs, copies, the best model of others
                let others = T::name().chars().rev().collect::<String>();
                let _ = std::fs::create_dir_all(PathBuf::from("./models").join(&others));
                for (k, f) in ["model_0.ot", "model_1.ot", "model_9.ot", "trained_model.ot", "model.ot", "best.ot", "best_model", "best_model.ot.bak", "best_model.tmp", "best_model_1.ot", "latest.ot", "../best_model.ot"].iter().map(|f| models.join(f)).chain([PathBuf::from("./models").join(&others).join("best_model.ot")]).enumerate() {
                    std::fs::copy(if k % 2 == 0 { &pa } else { &pb }, f).expect("scratch");
                }
            }
            for on_disk in [None, Some(&pa), Some(&pb)] {
                let _ = std::fs::remove_file(&best);
                if let Some(p) = on_disk {
                    std::fs::copy(p, &best).expect("scratch");
                }
                let what = || format!("{name}: model path {path:?}, best model on disk {on_disk:?}, other models beside it {clutter}");
                let r = Run::default_run().with(|| {
                    tch::manual_seed(9);
                    with_model::<T>(path.map(|p| p.to_path_buf()))
                });
                cx.out.traces += 1;
                cx.out.states += 1;
                let Some(az) = cx.unwrap(r, "load", || format!("starting, {}", what())) else { return };
                let asked = path.or(on_disk);
                match asked {
                    Some(p) => {
                        let want = if p == &pa { &a } else { &b };
                        if !same_model::<T>(cx, &az.model, &want.model, "model", &what) {
                            return;
                        }
                    }
                    None => {
                        cx.check(weights(&az.model) != weights(&a.model) && weights(&az.model) != weights(&b.model), "model", || format!("weights that nobody asked for are in use: {}", what()));
                    }
                }
                // what is in use is also what is saved and trained from here
                let p2 = dir.join("again.ot");
                let _ = std::fs::remove_file(&p2);
                if az.save_current_model(&p2).is_ok() {
                    let r = catch(|| ResNet::from_path::<T>(&p2));
                    let Some(n) = cx.unwrap(r, "load", || format!("loading what was saved, {}", what())) else { return };
                    if !same_model::<T>(cx, &n, &az.model, "reload", &what) {
                        return;
                    }
                }
                // the optimiser belongs to the model in use: training changes it, and the copy trained the same way agrees
                let mut az = az;
                let before = weights(&az.model);
                let mut data: Vec<MemoryFragment> = (0..3).map(|i| sample::<T>(&shape, 7 + i, 1)).collect();
                let r = Run::default_run().with(|| az.train(&mut data));
                if cx.unwrap(r, "train", || format!("training, {}", what())).is_none() || !cx.check(weights(&az.model) != before, "train", || format!("training does not change the model in use, {}", what())) {
                    return;
                }
                cx.tick();
            }
        }
        for p in [&pa, &pb] {
            let r = catch(|| ResNet::from_path::<T>(p));
            let Some(n) = cx.unwrap(r, "load", || format!("loading {p:?}")) else { return };
            let want = if p == &pa { &a } else { &b };
            if !same_model::<T>(cx, &n, &want.model, "model", &|| format!("{name}: loading {p:?} for a match")) {
                return;
            }
        }
        let _ = std::fs::remove_dir_all("./models");
    }
}

/// This thread's accesses to files, checked as those of another user. None if that is not possible here.
pub fn as_other_user<T>(f: impl FnOnce() -> T) -> Option<T> {
    unsafe { libc::setfsuid(65534) };
    let other = unsafe { libc::setfsuid(u32::MAX) } == 65534;
    let r = other.then(f);
    unsafe { libc::setfsuid(0) };
    r
}

/// The best model, with every access right of its file and directories: it is used, or the problem is reported.
fn rights(cx: &mut Cx) {
    use std::os::unix::fs::PermissionsExt;
    type G = Toy<true>;
    let set = |p: &Path, m: u32| std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).expect("scratch");
    let _ = std::fs::remove_dir_all("./models");
    let models = PathBuf::from(format!("./models/{}", G::name()));
    std::fs::create_dir_all(&models).expect("scratch");
    let r = Run::default_run().with(|| {
        tch::manual_seed(6);
        with_model::<G>(None)
    });
    let Some(a) = cx.unwrap(r, "learner", || "constructing the learner".into()) else { return };
    let best = models.join("best_model.ot");
    if a.save_current_model(&best).is_err() {
        return cx.fail("save", "saving a model fails");
    }
    let here = std::env::current_dir().expect("cwd");
    for p in here.ancestors().take(3).filter(|p| p.starts_with("/tmp/") && *p != Path::new("/tmp")) {
        set(p, 0o755);
    }
    let at = [best.clone(), models.clone(), PathBuf::from("./models")];
    for p in &at {
        set(p, 0o755);
    }
    let mut refused = 0;
    for p in &at {
        for m in 0..8u32 {
            for given in [false, true] {
                set(p, 0o700 | m << 3 | m);
                let path = given.then(|| best.clone());
                let r = as_other_user(|| {
                    Run::default_run().with(|| {
                        tch::manual_seed(9);
                        with_model::<G>(path)
                    })
                });
                set(p, 0o755);
                let Some(r) = r else {
                    cx.note("this sandbox cannot act as another user: access rights not checked");
                    return;
                };
                cx.out.transitions += 1;
                match r {
                    Err(_) => refused += 1,
                    Ok(az) => {
                        if !cx.check(weights(&az.model) == weights(&a.model), "silent", || format!("with access rights {m} of {p:?} a learner ({}) starts from other weights than the best model's", if given { "given that path" } else { "without a path" })) {
                            return;
                        }
                    }
                }
            }
        }
    }
    cx.note(format!("{refused} of 48 starts are refused for access rights"));
    let _ = std::fs::remove_dir_all("./models");
}

/// The file that was named is the one written and read, whatever its name and whatever lies beside it.
fn names(cx: &mut Cx) {
    type G = Toy<true>;
    let _ = std::fs::remove_dir_all("./models");
    let r = Run::default_run().with(|| {
        let make = |seed| {
            tch::manual_seed(seed);
            with_model::<G>(None)
        };
        (make(21), make(22))
    });
    let Some((a, b)) = cx.unwrap(r, "learner", || "constructing learners".into()) else { return };
    let dir = fresh_dir(cx, "named");
    let other = dir.join("other.ot");
    if b.save_current_model(&other).is_err() {
        return cx.fail("save", "saving a model fails");
    }
    let list = ["model", "model.v2", "model.1.ot", "model.ot.bak", "model.old", ".hidden.ot", "best_model", "best_model.ot", "best_model.ot.tmp", "a b.ot", "Model.OT", "m\u{f6}del.ot", "model.safetensors", "sub.ot/model.ot", "sub/../model.ot"];
    for name in list {
        let home = fresh_dir(cx, "named-here");
        std::fs::create_dir_all(home.join("sub.ot")).expect("scratch");
        std::fs::create_dir_all(home.join("sub")).expect("scratch");
        let p = home.join(name);
        // other models beside it, and as the best one
        let same = |q: &Path| q.file_name() == p.file_name() && q.parent() == p.parent();
        let file = p.file_name().unwrap().to_string_lossy().to_string();
        let mut beside = vec![p.with_extension("ot"), p.with_file_name(format!("{file}.ot")), p.with_extension(""), p.with_extension("pt"), p.with_file_name("best_model.ot"), home.join("model.ot"), home.join("sub/model.ot")];
        beside.push(PathBuf::from(format!("./models/{}/best_model.ot", G::name())));
        std::fs::create_dir_all(beside.last().unwrap().parent().unwrap()).expect("scratch");
        beside.retain(|q| !same(q) && !q.is_dir() && q.file_name() != p.file_name());
        beside.sort();
        beside.dedup();
        for q in &beside {
            std::fs::copy(&other, q).expect("scratch");
        }
        let saved = catch(|| a.save_current_model(&p).is_ok());
        cx.out.traces += 1;
        let Some(saved) = cx.unwrap(saved, "save", || format!("saving a model as {name}")) else { return };
        if !cx.check(saved, "save", || format!("saving a model as {name} fails")) {
            return;
        }
        for q in &beside {
            let same = std::fs::read(q).ok() == std::fs::read(&other).ok();
            if !cx.check(same, "overwritten", || format!("saving a model as {name} changes {q:?}")) {
                return;
            }
        }
        let r = Run::default_run().with(|| with_model::<G>(Some(p.clone())));
        let Some(az) = cx.unwrap(r, "load", || format!("starting from the model {name}")) else { return };
        let r = catch(|| ResNet::from_path::<G>(&p));
        let Some(n) = cx.unwrap(r, "load", || format!("a player with the model {name}")) else { return };
        cx.out.states += 2;
        let what = || format!("the model {name}, with others beside it: {beside:?}");
        if !same_model::<G>(cx, &az.model, &a.model, "model", &what) || !same_model::<G>(cx, &n, &a.model, "model", &what) {
            return;
        }
        // and it is gone when it is removed, whatever is beside it
        std::fs::remove_file(&p).expect("scratch");
        let r = Run::default_run().with(|| drop(with_model::<G>(Some(p.clone()))));
        let s = catch(|| drop(ResNet::from_path::<G>(&p)));
        cx.check(r.is_err() && s.is_err(), "silent", || format!("something starts from the missing model {name}, with others beside it: {beside:?}"));
        let _ = std::fs::remove_dir_all("./models");
        let _ = std::fs::remove_dir_all(&home);
        cx.tick();
    }
}

/// Loads that have to be reported: (what was done, path given).
fn refused<T: LearnableGame>(cx: &mut Cx, path: &Path, what: &dyn Fn() -> String) -> bool {
    let models = PathBuf::from(format!("./models/{}", T::name()));
    std::fs::create_dir_all(&models).expect("scratch");
    let best = models.join("best_model.ot");
    let _ = std::fs::remove_file(&best);
    cx.out.transitions += 1;
    let r = Run::default_run().with(|| drop(with_model::<T>(Some(path.to_path_buf()))));
    let mut ok = cx.check(r.is_err(), "silent", || format!("a learner starts from {}", what()));
    let p = path.to_path_buf();
    let r = catch(|| drop(ResNet::from_path::<T>(&p)));
    ok &= cx.check(r.is_err(), "silent", || format!("a player starts from {}", what()));
    if path.exists() {
        std::fs::copy(path, &best).expect("scratch");
        let r = Run::default_run().with(|| drop(with_model::<T>(None)));
        ok &= cx.check(r.is_err(), "silent", || format!("a learner starts from a best model that is {}", what()));
        let _ = std::fs::remove_file(&best);
    }
    cx.tick();
    ok
}

pub fn c20(cx: &mut Cx) {
    toy::set_table(Table::new(&Shape::Node(vec![(false, 0, Shape::End(1))]), false));
    let t = cx.thorough;
    cx.bound("fresh and trained models of a small game, tic-tac-toe and backgammon; every combination of a given path and a best model on disk; all variables and answers compared bit by bit");
    c20_game::<Toy<true>>(cx, "toy");
    c20_game::<TicTacToe>(cx, "tictactoe");
    c20_game::<Backgammon>(cx, "backgammon");
    let dir = fresh_dir(cx, "ckpt");
    let full = dir.join("full.ot");
    let r = Run::default_run().with(|| {
        tch::manual_seed(4);
        with_model::<Toy<true>>(None)
    });
    let Some(az) = cx.unwrap(r, "learner", || "constructing the learner".into()) else { return };
    let _ = az.save_current_model(&full);
    let Ok(whole) = std::fs::read(&full) else {
        cx.fail("save", "a saved model has no file");
        return;
    };
    let step = if t { 7 } else { 61 };
    cx.bound(format!("a checkpoint of {} bytes cut off at every {step}th byte and at each of its last 200; a missing, an empty and a foreign file; checkpoints of the other games", whole.len()));
    let cuts: Vec<usize> = (0..whole.len()).step_by(step).chain(whole.len().saturating_sub(200)..whole.len()).collect();
    for (k, part) in cuts.chunks(cuts.len().div_ceil(16)).enumerate() {
        if cx.case(|| format!("torn checkpoint part {k}")) {
            let p = dir.join("torn.ot");
            for &n in part {
                std::fs::write(&p, &whole[..n]).expect("scratch");
                if !refused::<Toy<true>>(cx, &p, &|| format!("a checkpoint cut off after {n} of {} bytes", whole.len())) {
                    return;
                }
            }
        }
    }
    cx.bound("fifteen file names with other models beside them under similar names: saved, loaded, removed");
    if cx.case(|| "file names".into()) {
        names(cx);
    }
    cx.bound("the best model with all eight access rights of its file and its two directories");
    if cx.case(|| "access rights".into()) {
        rights(cx);
    }
    if cx.case(|| "unusable files".into()) {
        refused::<Toy<true>>(cx, &dir.join("nowhere.ot"), &|| "a missing file".into());
        for (n, body) in [("empty.ot", &b""[..]), ("text.ot", b"not a model"), ("zip.ot", b"PK\x03\x04")] {
            std::fs::write(dir.join(n), body).expect("scratch");
            refused::<Toy<true>>(cx, &dir.join(n), &|| format!("the file {n}"));
        }
        std::fs::create_dir_all(dir.join("dir.ot")).expect("scratch");
        let p = dir.join("dir.ot");
        let r = Run::default_run().with(|| drop(with_model::<Toy<true>>(Some(p.clone()))));
        cx.check(r.is_err(), "silent", || "a learner starts from a directory".into());
        // other games' models
        let r = Run::default_run().with(|| {
            (with_model::<TicTacToe>(None).save_current_model(&dir.join("ttt.ot")).is_ok(), with_model::<Backgammon>(None).save_current_model(&dir.join("bg.ot")).is_ok())
        });
        if cx.unwrap(r, "learner", || "saving models".into()).is_none() {
            return;
        }
        refused::<Toy<true>>(cx, &dir.join("ttt.ot"), &|| "a tic-tac-toe model for the small game".into());
        refused::<TicTacToe>(cx, &dir.join("full.ot"), &|| "the small game's model for tic-tac-toe".into());
        refused::<TicTacToe>(cx, &dir.join("bg.ot"), &|| "a backgammon model for tic-tac-toe".into());
        refused::<Backgammon>(cx, &dir.join("ttt.ot"), &|| "a tic-tac-toe model for backgammon".into());
        // a checkpoint lacking one variable, and one with a variable of another shape
        let vars: Vec<(String, Tensor)> = az.model.vs.variables().into_iter().collect();
        for i in 0..vars.len() {
            for reshape in [false, true] {
                let named: Vec<(&str, Tensor)> = vars
                    .iter()
                    .enumerate()
                    .filter(|(j, _)| reshape || *j != i)
                    .map(|(j, (n, t))| {
                        let t = t.detach();
                        (n.as_str(), if j == i { Tensor::cat(&[&t.flatten(0, -1), &Tensor::ones([1], (Kind::Float, tch::Device::Cpu))], 0) } else { t })
                    })
                    .collect();
                let p = dir.join("part.ot");
                if Tensor::save_multi(&named, &p).is_err() {
                    continue;
                }
                if !refused::<Toy<true>>(cx, &p, &|| format!("a checkpoint in which the variable {} {}", vars[i].0, if reshape { "has another shape" } else { "is missing" })) {
                    return;
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all("./models");
    let _: Option<Sendable<u8>> = None;
}
