//! C17: self-play.
use super::matches::Sendable;
use crate::cx::Cx;
use crate::explore::{dfs, Bounds, Fail, Run};
use crate::toy::{self, show, Shape, State, Table, Toy, What};
use crate::tttref;
use crate::util::*;
use die_e::alphazero::alphazero::{AlphaZero, MemoryFragment};
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::mcts::alpha_mcts::alpha_mcts;
use die_e::tictactoe::TicTacToe;
use std::collections::{BTreeMap, HashMap};

pub type Key = (u16, i8, u8, u32, u32, u16, i8);

/// One sample as the harness reads it.
#[derive(Clone, Debug)]
pub struct Sample {
    pub key: Option<Key>,
    pub outcome: i8,
    pub ps: Vec<f64>,
}

pub fn samples(ms: &[MemoryFragment]) -> Vec<Sample> {
    ms.iter().map(|m| Sample { key: State::key_of_tensor(&m.state), outcome: m.outcome, ps: tensor_vec(&m.ps) }).collect()
}

/// What really happened to one game: the positions acted on, in order, and where it ended.
#[derive(Clone, Debug)]
pub struct Story {
    pub acts: Vec<(State, What)>,
    pub end: State,
    pub limited: bool,
}

/// The games as they were really played. The action taken in a position is the last one logged at
/// its depth: searches look ahead from clones before the action is taken, never afterwards.
pub fn stories(events: &[toy::Event], limit: usize) -> BTreeMap<u32, Story> {
    let mut last: BTreeMap<(u32, u16), &toy::Event> = BTreeMap::new();
    for e in events {
        if !matches!(e.what, What::Decode(_)) {
            last.insert((e.before.birth, e.before.depth), e);
        }
    }
    let mut births: Vec<u32> = last.keys().map(|k| k.0).collect();
    births.dedup();
    let mut out = BTreeMap::new();
    for b in births {
        let Some(first) = last.get(&(b, 0)) else { continue };
        let mut s = Story { acts: vec![], end: first.before, limited: false };
        loop {
            let d = s.end.depth;
            if s.end.winner().is_some() {
                break;
            }
            if d as usize >= limit {
                s.limited = true;
                break;
            }
            match last.get(&(b, d)) {
                Some(e) if e.before == s.end => {
                    s.acts.push((e.before, e.what));
                    s.end = e.after;
                }
                _ => break,
            }
        }
        out.insert(b, s);
    }
    out
}

/// The samples a story has to leave: position and outcome.
pub fn due(s: &Story) -> Vec<(Key, i8, State)> {
    let w = s.end.winner().unwrap_or(0);
    s.acts.iter().filter(|a| matches!(a.1, What::Apply(_))).map(|a| (a.0.key(), w * a.0.player, a.0)).collect()
}

/// Compares samples with what happened; `policy` gives the target of a position where it is known.
pub fn judge_samples(cx: &mut Cx, got: &[Sample], games: &BTreeMap<u32, Story>, det: bool, policy: &mut dyn FnMut(&State) -> Option<Vec<f64>>, what: &dyn Fn() -> String) -> bool {
    let mut want: HashMap<Key, (i8, State)> = HashMap::new();
    let mut total = 0;
    for s in games.values() {
        if !cx.check(s.limited || s.end.winner().is_some(), "unfinished", || format!("a game was left unfinished in {:?}, {}", s.end, what())) {
            return false;
        }
        for (k, o, st) in due(s) {
            want.insert(k, (o, st));
            total += 1;
        }
    }
    cx.out.states += total as u64;
    let mut seen: HashMap<Key, usize> = HashMap::new();
    for f in got {
        let Some(k) = f.key else {
            cx.fail("position", format!("a sample's position is not one of the game's inputs, {}", what()));
            return false;
        };
        let Some((o, st)) = want.get(&k) else {
            cx.fail("foreign", format!("a sample holds the position {k:?} in which no move was chosen (node, player, roll, game, history, depth, last), {}", what()));
            return false;
        };
        let c = seen.entry(k).or_default();
        *c += 1;
        let c = *c;
        if !cx.check(c == 1, "duplicate", || format!("the position {k:?} has {c} samples, {}", what())) {
            return false;
        }
        if !cx.check(f.outcome == *o, "label", || format!("the sample of {st:?} is labelled {}, the game ended {:?}, so {o} for the player to move; {}", f.outcome, games[&st.birth].end, what())) {
            return false;
        }
        let legal: Vec<usize> = st.edges(det).iter().map(|e| ((st.label(e) as u32 + st.shift()) % toy::A) as usize).collect();
        let sum: f64 = f.ps.iter().sum();
        let fine = f.ps.len() == toy::A as usize && sum.is_finite() && sum > 0.0 && f.ps.iter().enumerate().all(|(i, &p)| p >= 0.0 && (p == 0.0 || legal.contains(&i)));
        if !cx.check(fine, "policy", || format!("the policy target of {st:?} is {:?}, legal codes are {legal:?}; {}", f.ps, what())) {
            return false;
        }
        if let Some(p) = policy(st) {
            let ok = p.iter().zip(&f.ps).all(|(a, b)| (a - b / sum).abs() < 2e-3);
            if !cx.check(ok, "target", || format!("the policy target of {st:?} is {:?}, the temperature-adjusted visit shares are {p:?}; {}", f.ps, what())) {
                return false;
            }
        }
    }
    cx.check(got.len() == total, "missing", || format!("{} samples for {total} moves chosen: none for {:?}; {}", got.len(), want.iter().filter(|w| !seen.contains_key(w.0)).map(|w| w.1 .1).next(), what()))
}

/// Does a pass end the game (which happens in no real game)?
pub fn pass_ends(s: &Shape) -> bool {
    match s {
        Shape::Pass(n) => matches!(**n, Shape::End(_)) || pass_ends(n),
        Shape::Node(es) => es.iter().any(|e| pass_ends(&e.2)),
        Shape::Shuttle(n) => pass_ends(n),
        _ => false,
    }
}

struct SelfPlay<'a, const D: bool> {
    az: &'a AlphaZero,
    iters: usize,
    c: f64,
    temp: f64,
    exact: bool, // without noise: the targets are known
    cache: HashMap<String, Option<Vec<f64>>>,
}

impl<const D: bool> SelfPlay<'_, D> {
    /// The visit shares of the search alone, temperature-adjusted; None where the choice between moves nearly ties.
    fn target(&mut self, s: &State) -> Option<Vec<f64>> {
        if !self.exact || !D {
            return None;
        }
        let k = format!("{s:?}");
        if let Some(v) = self.cache.get(&k) {
            return v.clone();
        }
        let g = Toy::<D>(*s);
        let nets = super::search::Nets { net: &self.az.model };
        let v = super::search::decided(&nets, &g, self.iters, self.c).then(|| {
            let cfg = mcts_config(self.iters, self.c, 5, 0.3, 0.0);
            let pi = Run::default_run().with(|| alpha_mcts(&g, &self.az.model, &cfg)).ok().flatten()?;
            let v = tensor_vec(&pi);
            let most = v.iter().cloned().fold(0.0, f64::max);
            let p: Vec<f64> = v.iter().map(|x| (x / most).powf(1.0 / self.temp)).collect();
            let sum: f64 = p.iter().sum();
            Some(p.iter().map(|x| x / sum).collect::<Vec<f64>>())
        }).flatten();
        self.cache.insert(k, v.clone());
        v
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Setup {
    pub iters: usize,
    pub limit: usize,
    pub eps: f64,
    pub temp: f64,
    pub games: usize,
    pub serial: bool,
}

pub fn explore_self_play<const D: bool>(cx: &mut Cx, sh: &Shape, su: Setup, b: &Bounds, hash: u64) {
    toy::set_table(Table::new(sh, false));
    let c = 3.0;
    let r = Run::default_run().with(|| {
        tch::manual_seed(5);
        learner::<Toy<D>>(su.iters, c, su.limit, 0.3, su.eps, su.temp, su.games, 4)
    });
    let Some(az) = cx.unwrap(r, "learner", || "constructing the learner".into()) else { return };
    let mut sp = SelfPlay::<D> { az: &az, iters: su.iters, c, temp: su.temp, exact: su.eps == 0.0, cache: HashMap::new() };
    crate::HASH_SEED.store(hash, std::sync::atomic::Ordering::Relaxed);
    let st = dfs(b, |run| {
        toy::spy_start();
        let ptr = Sendable(&az);
        let r = run.with_fresh(|| {
            let az: &AlphaZero = ptr.get();
            Sendable(if su.serial { az.self_play::<Toy<D>>() } else { az.self_play_parallel::<Toy<D>>() })
        });
        let ev = toy::spy_take();
        cx.out.transitions += ev.len() as u64;
        let what = || format!("self-play {su:?} on the game {}{}, choices {:?}", show(sh), if D { "" } else { " with dice" }, run.choices());
        match r {
            Err(Fail::Horizon) => cx.fail("endless", format!("self-play does not end, {}", what())),
            Err(e) => cx.fail("panic", format!("{e:?} {}: {}", toy::wrong().unwrap_or_default(), what())),
            Ok(m) => {
                if let Some(w) = toy::wrong() {
                    cx.fail("illegal", format!("{w}; {}", what()));
                    return false;
                }
                let games = stories(&ev, if su.serial { usize::MAX } else { su.limit });
                let n = if su.serial { 1 } else { su.games };
                if su.limit > 0 && cx.check(games.len() == n, "games", || format!("{} games were played, {n} were to be; {}", games.len(), what())) {
                    judge_samples(cx, &samples(m.get()), &games, D, &mut |s| sp.target(s), &what);
                }
            }
        }
        if cx.out.traces % 16 == 0 {
            cx.tick();
        }
        !cx.stop()
    });
    crate::HASH_SEED.store(0, std::sync::atomic::Ordering::Relaxed);
    cx.add(st);
}

pub fn c17(cx: &mut Cx) {
    toy::CAP.store(400_000, std::sync::atomic::Ordering::SeqCst);
    let t = cx.thorough;
    let mut shapes: Vec<Shape> = toy::t2(2).into_iter().filter(|s| !pass_ends(s)).collect();
    let deep: Vec<Shape> = toy::t3(2).into_iter().filter(|s| !pass_ends(s)).step_by(if t { 9 } else { 60 }).collect();
    let base = Setup { iters: 4, limit: 20, eps: 0.0, temp: 1.25, games: 1, serial: false };
    // a pass in the middle of a game
    for e in [Shape::End(1), Shape::End(-1), Shape::End(0)] {
        let n = Shape::Node(vec![(false, 0, e.clone()), (false, 0, Shape::End(1))]);
        shapes.push(Shape::Pass(Box::new(n.clone())));
        shapes.push(Shape::Node(vec![(false, 0, Shape::Pass(Box::new(n.clone()))), (true, 0, n.clone())]));
        shapes.push(Shape::Node(vec![(false, 0, Shape::Pass(Box::new(Shape::Pass(Box::new(n.clone()))))), (false, 0, Shape::End(-1))]));
    }
    let solo = Bounds { max_runs: 50_000, horizon: 5_000, ..Bounds::full() };
    let twos = Bounds { max_dev: if t { 5 } else { 2 }, max_runs: 50_000, horizon: 5_000, ..Bounds::full() };
    cx.bound(format!("{} games of up to two and {} of up to three choices in a row: every sequence of sampled moves, one game (batched and serial, temperature 1.25, 0.5 and 0.003), and two games at once within {} deviations", shapes.len(), deep.len(), twos.max_dev));
    for (i, sh) in shapes.iter().chain(&deep).enumerate() {
        if cx.case(|| format!("self-play {}", show(sh))) {
            explore_self_play::<true>(cx, sh, base, &solo, 0);
            explore_self_play::<true>(cx, sh, Setup { temp: 0.5, iters: 6, serial: true, ..base }, &solo, 0);
            for serial in [false, true] {
                explore_self_play::<true>(cx, sh, Setup { temp: 0.003, iters: 6, serial, ..base }, &solo, 0);
            }
            explore_self_play::<true>(cx, sh, Setup { games: 2, ..base }, &twos, i as u64 + 1);
        }
        if cx.stop() {
            return;
        }
    }
    cx.bound("the same games stopped at the round limits 1, 2 and 3, one and two games");
    for sh in shapes.iter().chain(&deep) {
        if cx.case(|| format!("limited {}", show(sh))) {
            for limit in [1usize, 2, 3] {
                explore_self_play::<true>(cx, sh, Setup { limit, ..base }, &solo, 0);
                explore_self_play::<true>(cx, sh, Setup { limit, games: 2, ..base }, &Bounds { max_dev: 2, ..twos }, 3);
            }
        }
        if cx.stop() {
            return;
        }
    }
    cx.bound("games that need not end, round limits 1 to 6, batches of one to three, within two deviations (thorough: three)");
    for sh in toy::endless().iter().filter(|s| !pass_ends(s)) {
        for limit in [1usize, 2, 3, 6] {
            if cx.case(|| format!("endless {} limit {limit}", show(sh))) {
                for games in [1, 2, 3] {
                    explore_self_play::<true>(cx, sh, Setup { limit, games, ..base }, &Bounds { max_dev: if t { 3 } else { 2 }, ..twos }, games as u64);
                }
            }
        }
    }
    cx.bound("dice games, one and two games at once: rolls and moves within one deviation (thorough: two) of three tapes");
    for sh in shapes.iter().step_by(if t { 1 } else { 3 }) {
        if cx.case(|| format!("dice {}", show(sh))) {
            for v in toy::dice_variants(sh) {
                for b in [0u64, 3, 4] {
                    let bounds = Bounds { max_dev: if t { 2 } else { 1 }, base: b, max_runs: 50_000, horizon: 5_000, ..Bounds::full() };
                    explore_self_play::<false>(cx, &v, Setup { limit: 8, games: 1 + (b == 3) as usize, ..base }, &bounds, b);
                }
            }
        }
        if cx.stop() {
            return;
        }
    }
    cx.bound("batches of 3 to 9 games in many orders, with root noise: within one deviation of a tape");
    for sh in shapes.iter().chain(&deep).step_by(if t { 3 } else { 17 }) {
        for games in [3usize, 5, 9] {
            if cx.case(|| format!("batch {games} {}", show(sh))) {
                for h in 0..if t { 6 } else { 2 } {
                    let bounds = Bounds { max_dev: 1, base: 7 + h, max_runs: 50_000, horizon: 5_000, ..Bounds::full() };
                    explore_self_play::<true>(cx, sh, Setup { games, eps: 0.25, limit: 3 + h as usize, ..base }, &bounds, h);
                    explore_self_play::<true>(cx, sh, Setup { games, ..base }, &bounds, h + 50);
                }
            }
        }
        if cx.stop() {
            return;
        }
    }
    cx.bound("games of up to 80 choices, five to nine simulations each: one and two games, batched and serial, three tapes");
    for (n, out) in [(40usize, 1i8), (80, 1), (70, 0), (62, -1)] {
        for iters in [5usize, 9] {
            if cx.case(|| format!("many choices {n} {out} with {iters} simulations")) {
                for b in [0u64, 3, 8] {
                    let bounds = Bounds { max_dev: 0, base: b, horizon: 50_000, ..Bounds::full() };
                    let sh = Shape::Braid(n, Box::new(Shape::Node(vec![(false, 0, Shape::End(out)), (false, 0, Shape::End(-out))])));
                    for serial in [false, true] {
                        explore_self_play::<true>(cx, &sh, Setup { iters, limit: 1000, serial, games: 1 + (b == 3 && !serial) as usize, ..base }, &bounds, b);
                    }
                }
            }
        }
    }
    cx.bound("long games (200 to 600 turns, or endless), round limits around 128, 256 and 512 and beyond: one and two games, two tapes");
    let long = [toy::chain(200, 0, Shape::End(1)), toy::chain(300, 0, Shape::End(-1)), toy::chain(300, 5, Shape::Node(vec![(false, 0, Shape::End(1))])), toy::chain(600, 0, Shape::End(1)), toy::ladder(300, 0, Shape::End(1)), Shape::Shuttle(Box::new(Shape::End(1))), Shape::Shuttle(Box::new(Shape::Stuck)), Shape::Pass(Box::new(Shape::Stuck))];
    for sh in &long {
        for limit in [127usize, 128, 129, 199, 200, 255, 256, 257, 299, 300, 301, 400, 512, 513, 599, 600, 1 << 16, 1 << 32] {
            if limit > 600 && show(sh).contains("s") && !show(sh).contains("moves") {
                continue; // would not end
            }
            if cx.case(|| format!("long {} limit {limit}", show(sh))) {
                for b in [0u64, 3] {
                    let bounds = Bounds { max_dev: 0, base: b, horizon: 50_000, ..Bounds::full() };
                    explore_self_play::<true>(cx, sh, Setup { iters: 2, limit, games: 1 + (b == 3) as usize, ..base }, &bounds, b);
                }
            }
            if cx.stop() {
                return;
            }
        }
        if show(sh).contains("moves") && cx.case(|| format!("long serial {}", show(sh))) {
            for b in [0u64, 3] {
                let bounds = Bounds { max_dev: 0, base: b, horizon: 50_000, ..Bounds::full() };
                explore_self_play::<true>(cx, sh, Setup { iters: 2, serial: true, limit: 1000, ..base }, &bounds, b);
            }
        }
    }
    cx.bound("batches of 100 to 600 games: two tapes");
    for (k, games) in [100usize, 127, 128, 129, 255, 256, 257, 300, 513, 600].into_iter().enumerate() {
        for sh in shapes.iter().chain(&deep).skip(11 + 5 * k).step_by(if t { 40 } else { 120 }) {
            if cx.case(|| format!("crowd {games} {}", show(sh))) {
                for b in [3u64, 4] {
                    let bounds = Bounds { max_dev: 0, base: b, horizon: 50_000, ..Bounds::full() };
                    explore_self_play::<true>(cx, sh, Setup { games, iters: 3, ..base }, &bounds, b);
                }
            }
        }
        if cx.stop() {
            return;
        }
    }
    real_games(cx);
}

/// Self-play of the real games, one game at a time: the samples form a legal line of play.
fn real_games(cx: &mut Cx) {
    cx.bound("tic-tac-toe self-play of one game, serial and batched: the samples are a legal line of play and its labels fit the end; backgammon under small round limits");
    for base in 1..=if cx.thorough { 60u64 } else { 12 } {
        if cx.case(|| format!("tictactoe self-play tape {base}")) {
            let r = Run::default_run().with(|| learner::<TicTacToe>(6, 2.0, 20, 0.3, 0.25, 1.25, 1, 4));
            let Some(az) = cx.unwrap(r, "learner", || "constructing the learner".into()) else { return };
            for serial in [false, true] {
                let run = Run::with_bounds(&Bounds { base, ..Bounds::full() });
                let ptr = Sendable(&az);
                let r = run.with_fresh(|| {
                    let az: &AlphaZero = ptr.get();
                    Sendable(if serial { az.self_play::<TicTacToe>() } else { az.self_play_parallel::<TicTacToe>() })
                });
                cx.out.traces += 1;
                let Some(m) = cx.unwrap(r, "panic", || format!("tic-tac-toe self-play, serial {serial}")) else { return };
                ttt_line(cx, m.get(), serial);
            }
        }
        if base <= if cx.thorough { 20 } else { 6 } && cx.case(|| format!("backgammon self-play tape {base}")) {
            let limit = base as usize % 4 + 1;
            let games = 1 + base as usize % 3;
            let r = Run::default_run().with(|| learner::<Backgammon>(3, 2.0, limit, 0.3, 0.25, 1.25, games, 4));
            let Some(az) = cx.unwrap(r, "learner", || "constructing the learner".into()) else { return };
            let run = Run::with_bounds(&Bounds { base, ..Bounds::full() });
            let ptr = Sendable(&az);
            let r = run.with_fresh(|| Sendable(ptr.get().self_play_parallel::<Backgammon>()));
            cx.out.traces += 1;
            let Some(m) = cx.unwrap(r, "panic", || "backgammon self-play".into()) else { return };
            let m = m.get();
            // nobody has to pass in the first two turns of backgammon
            cx.check(m.len() <= limit * games && m.len() >= limit.min(2) * games, "missing", || format!("{} samples of {games} backgammon games stopped after {limit} rounds", m.len()));
            cx.check(m.iter().all(|f| f.outcome == 0), "label", || format!("an unfinished backgammon game is labelled {:?}", m.iter().map(|f| f.outcome).collect::<Vec<_>>()));
            cx.tick();
        }
    }
}

fn ttt_line(cx: &mut Cx, m: &[MemoryFragment], serial: bool) {
    // position of each sample, by comparing with the input of every position
    let mut boards = vec![];
    for f in m {
        let v = tensor_vec(&f.state);
        let b: Option<TicTacToe> = TTT.with(|t| t.iter().find(|(x, _)| *x == v).map(|x| x.1));
        let Some(b) = b else {
            cx.fail("position", "a tic-tac-toe sample is no position of the game");
            return;
        };
        boards.push(b.board);
    }
    let stones = |b: &[i8; 9]| b.iter().filter(|x| **x != 0).count();
    let text = || format!("tic-tac-toe self-play (serial {serial}): positions {boards:?}, labels {:?}", m.iter().map(|f| f.outcome).collect::<Vec<_>>());
    let mut ok = !m.is_empty() && stones(&boards[0]) == 0;
    for w in boards.windows(2) {
        ok &= stones(&w[1]) == stones(&w[0]) + 1 && (0..9).all(|i| w[0][i] == 0 || w[0][i] == w[1][i]);
    }
    if !cx.check(ok, "line", || format!("the samples are no line of play: {}", text())) {
        return;
    }
    // who moved where
    let mover = |i: usize| -> i8 { if i + 1 < boards.len() { (0..9).map(|k| boards[i + 1][k] - boards[i][k]).find(|d| *d != 0).unwrap_or(0) } else { 0 } };
    let first = mover(0);
    for i in 0..m.len() {
        let p = if i % 2 == 0 { first } else { -first };
        let fine = tttref::winner(&boards[i]).is_none() && tensor_vec(&m[i].ps).iter().enumerate().all(|(k, x)| *x >= 0.0 && (*x == 0.0 || boards[i][k] == 0));
        if !cx.check(fine, "policy", || format!("policy target {:?} at {:?}", tensor_vec(&m[i].ps), boards[i])) {
            return;
        }
        // the outcome must be the same result seen by both, and one the last move can bring about
        let last = m.len() - 1;
        let lp = if last % 2 == 0 { first } else { -first };
        let res = m[last].outcome; // view of the last mover: 1 or 0
        let want = if p == lp { res } else { -res };
        let can = (0..9).any(|k| {
            let mut b = boards[last];
            if b[k] != 0 || tensor_vec(&m[last].ps)[k] == 0.0 {
                return false;
            }
            b[k] = lp;
            tttref::winner(&b) == Some(res * lp)
        });
        if !cx.check(m[i].outcome == want && can, "label", || format!("label {} of sample {i}: {}", m[i].outcome, text())) {
            return;
        }
    }
    cx.out.states += m.len() as u64;
}

thread_local! {
    static TTT: Vec<(Vec<f64>, TicTacToe)> = ttt_positions().into_iter().map(|s| (tensor_vec(&s.as_tensor()), s)).collect();
}
