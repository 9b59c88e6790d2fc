//! C15, C16: matches.
use crate::cx::Cx;
use crate::explore::{dfs, Bounds, Fail, Run};
use crate::toy::{self, show, Shape, State, Table, Toy, What};
use crate::util::*;
use die_e::alphazero::nnet::ResNet;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use die_e::versus::{play, Agent, PlayResult, Player};
use die_e::MctsConfig;
use rayon_core::ctl::Join;
use std::collections::BTreeMap;

pub struct Sendable<T>(pub T);
unsafe impl<T> Send for Sendable<T> {}
unsafe impl<T> Sync for Sendable<T> {}

impl<T> Sendable<T> {
    pub fn get(&self) -> &T {
        &self.0
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Who {
    Random,
    Mcts,
    Model,
}

impl Who {
    fn agent(self) -> Agent {
        match self {
            Who::Random => Agent::Random,
            Who::Mcts => Agent::Mcts,
            Who::Model => Agent::Model,
        }
    }
    fn player<T: LearnableGame>(self, seed: i64) -> Player {
        let model: Option<ResNet> = (self == Who::Model).then(|| net::<T>(seed));
        Player::new(self.agent(), model)
    }
}

/// What a match amounts to.
pub struct Match {
    pub p1: Agent,
    pub p2: Agent,
    pub wins: (usize, usize),
    pub draws: usize,
    pub n: usize,
    pub winrate: f64,
    /// The result as it is printed.
    pub shown: String,
    pub records: Vec<(Option<u64>, Agent, serde_json::Value)>, // birth, recorded winner, everything
}

fn find_birth(v: &serde_json::Value) -> Option<u64> {
    match v {
        serde_json::Value::Object(m) => m.get("birth").and_then(|b| b.as_u64()).or_else(|| m.values().find_map(find_birth)),
        serde_json::Value::Array(a) => a.iter().find_map(find_birth),
        _ => None,
    }
}

pub fn digest<T: LearnableGame>(r: &PlayResult<T>) -> Match {
    Match {
        p1: r.player1.clone(),
        p2: r.player2.clone(),
        wins: (r.wins_p1, r.wins_p2),
        draws: r.draws,
        n: r.n_games,
        winrate: r.winrate,
        shown: r.to_string(),
        records: r
            .games
            .iter()
            .map(|g| {
                let v = serde_json::to_value(g).unwrap_or(serde_json::Value::Null);
                (find_birth(&v), g.winner.clone(), v)
            })
            .collect(),
    }
}

/// Runs a match; `sched`: worker threads and a decider for their schedule.
pub fn run_match<T: LearnableGame>(run: &Run, p1: Who, p2: Who, cfg: &MctsConfig, temp: f64, threads: usize, sched: Option<Box<dyn FnMut() -> Join + Send>>) -> Result<Match, Fail> {
    let cfg = cfg.clone();
    let sched = sched.unwrap_or(Box::new(|| Join::InOrder));
    run_match_team::<T>(run, p1, p2, &cfg, temp, threads, sched, None)
}

#[allow(clippy::too_many_arguments)]
pub fn run_match_team<T: LearnableGame>(run: &Run, p1: Who, p2: Who, cfg: &MctsConfig, temp: f64, threads: usize, sched: Box<dyn FnMut() -> Join + Send>, switch: Option<rayon_core::ctl::Switch>) -> Result<Match, Fail> {
    let cfg = cfg.clone();
    run.with_team(threads, sched, switch, move || digest(&play::<T>(p1.player::<T>(31), p2.player::<T>(32), &cfg, temp)))
}

/// A match of two random players, its result as it is.
pub fn raw_match<T: LearnableGame>(run: &Run) -> Result<Sendable<PlayResult<T>>, Fail> {
    run.with_fresh(|| Sendable(play::<T>(Who::Random.player::<T>(1), Who::Random.player::<T>(2), &mcts_config(2, 2.0, 9, 0.3, 0.25), 1.0)))
}

/// The last state of every game, and how often each event kind happened.
pub fn finals(events: &[toy::Event]) -> BTreeMap<u32, State> {
    let mut m = BTreeMap::new();
    for e in events {
        if !matches!(e.what, What::Decode(_)) {
            m.insert(e.before.birth, e.after);
        }
    }
    m
}

fn tallies(cx: &mut Cx, m: &Match, what: &dyn Fn() -> String) -> bool {
    let (w1, w2) = m.wins;
    // where the printed result has a known line, it says the same
    let told = |label: &str| {
        let t = m.shown.split(label).nth(1)?.trim_start();
        t[..t.find(|c: char| !c.is_ascii_digit() && c != '.').unwrap_or(t.len())].parse::<f64>().ok()
    };
    for (label, want) in [("Wins Player 1:", w1), ("Wins Player 2:", w2), ("Draws:", m.draws), ("Number of Games:", m.n)] {
        if !cx.check(told(label).is_none_or(|x| x == want as f64), "shown", || format!("a result of {w1} wins, {w2} losses and {} draws is printed as {:?}, {}", m.draws, m.shown, what())) {
            return false;
        }
    }
    let rate = w1 as f64 / m.n as f64;
    if !cx.check(told("Winrate:").is_none_or(|x| (x - 100.0 * rate).abs() < 1.0 || (x - rate).abs() < 0.01), "shown", || format!("a win rate of {rate} is printed as {:?}, {}", m.shown, what())) {
        return false;
    }
    cx.check(w1 + w2 + m.draws == m.n, "sum", || format!("{w1} wins, {w2} losses and {} draws in {} games, {}", m.draws, m.n, what()))
        && cx.check(m.records.len() == m.n, "records", || format!("{} game records for {} games, {}", m.records.len(), m.n, what()))
        && cx.check((m.winrate - w1 as f64 / m.n as f64).abs() < 1e-9, "winrate", || format!("win rate {} with {w1} wins in {} games, {}", m.winrate, m.n, what()))
}

/// Compares a match on a toy game with what really happened to the games.
pub fn judge<const D: bool>(cx: &mut Cx, m: &Match, events: &[toy::Event], who: (Who, Who), what: &dyn Fn() -> String) {
    if let Some(w) = toy::wrong() {
        cx.fail("illegal", format!("{w}; {}", what()));
        return;
    }
    if !cx.check(m.p1 == who.0.agent() && m.p2 == who.1.agent(), "players", || format!("the result names {:?} and {:?}, {}", m.p1, m.p2, what())) {
        return;
    }
    if !tallies(cx, m, what) {
        return;
    }
    let ends = finals(events);
    cx.out.states += ends.len() as u64;
    cx.out.transitions += events.len() as u64;
    // the turn is passed at the start of half of the games, afterwards only where there is no move
    for e in events {
        if matches!(e.what, What::Skip) && e.before.depth > 0 && !e.before.edges(D).is_empty() {
            cx.fail("pass", format!("the turn was passed in {:?} although there are moves, {}", e.before, what()));
            return;
        }
    }
    // a finished game is left alone (one that is over after the opening skip gets no turn to notice it)
    if let Some(e) = events.iter().find(|e| !matches!(e.what, What::Decode(_)) && e.before.depth > 1 && e.before.winner().is_some()) {
        cx.fail("goes-on", format!("a finished game was played on from {:?}, {}", e.before, what()));
        return;
    }
    // who moved first in each game
    let mut first: BTreeMap<u32, i8> = BTreeMap::new();
    for e in events {
        if let What::Apply(_) = e.what {
            first.entry(e.before.birth).or_insert(e.before.player);
        }
    }
    if !first.is_empty() && matches!(toy::table().nodes[0], toy::TNode::Inner(_)) && D {
        let p1 = first.values().filter(|&&p| p == -1).count();
        cx.check(p1 * 2 == m.n && first.len() == m.n, "starters", || format!("player 1 starts {p1} of {} games (announced {}), {}", first.len(), m.n, what()));
    }
    cx.check(ends.len() == m.n, "games", || format!("{} games were played, {} are announced, {}", ends.len(), m.n, what()));
    let mut w = (0, 0, 0);
    let mut unfinished: BTreeMap<u16, usize> = BTreeMap::new();
    let mut recs: BTreeMap<u64, Vec<&Agent>> = BTreeMap::new();
    for r in &m.records {
        if let Some(b) = r.0 {
            recs.entry(b).or_default().push(&r.1);
        }
    }
    for (b, s) in &ends {
        let winner = s.winner();
        let name = match winner {
            Some(-1) => {
                w.0 += 1;
                who.0.agent()
            }
            Some(1) => {
                w.1 += 1;
                who.1.agent()
            }
            _ => {
                w.2 += 1;
                Agent::None
            }
        };
        if winner.is_none() {
            *unfinished.entry(s.depth).or_default() += 1;
        }
        let got = recs.get(&(*b as u64)).cloned().unwrap_or_default();
        if !cx.check(got.len() == 1 && *got[0] == name, "record", || format!("game {b} ended in {s:?} (winner {winner:?}, so {name:?}); its records say {got:?}; {}", what())) {
            return;
        }
    }
    if !cx.check((m.wins.0, m.wins.1, m.draws) == w, "count", || format!("counted {} - {} with {} draws, the games ended {} - {} with {} draws; {}", m.wins.0, m.wins.1, m.draws, w.0, w.1, w.2, what())) {
        return;
    }
    // unfinished games all ran to the same round limit; the opening skip makes a difference of one
    if let (Some((lo, _)), Some((hi, _))) = (unfinished.first_key_value(), unfinished.last_key_value()) {
        cx.check(hi - lo <= 1 && *lo >= 398 && *hi <= 402, "round-limit", || format!("unfinished games were stopped after {unfinished:?} actions, {}", what()));
        let longest = ends.values().filter(|s| s.winner().is_some()).map(|s| s.depth).max().unwrap_or(0);
        cx.check(longest <= hi + 1, "round-limit", || format!("unfinished games were stopped after {hi} actions, others went on to {longest}, {}", what()));
    }
}

fn toy_match<const D: bool>(cx: &mut Cx, sh: &Shape, who: (Who, Who), iters: usize, bounds: &Bounds) {
    toy_match_at::<D>(cx, sh, who, iters, 1.0, bounds)
}

fn toy_match_at<const D: bool>(cx: &mut Cx, sh: &Shape, who: (Who, Who), iters: usize, temp: f64, bounds: &Bounds) {
    let cfg = mcts_config(iters, 2.0, 6, 0.3, 0.25);
    let mut n = 0;
    let st = dfs(bounds, |run| {
        toy::set_table(Table::new(sh, true));
        toy::spy_start();
        let r = run_match::<Toy<D>>(run, who.0, who.1, &cfg, temp, 1, None);
        let ev = toy::spy_take();
        n += 1;
        let what = || format!("{:?} against {:?} ({iters} iterations) on the game {}{}, deviating choices {:?}", who.0, who.1, show(sh), if D { "" } else { " with dice" }, run.trace().iter().enumerate().filter(|c| c.1.k != 0).map(|c| (c.0, c.1.value)).collect::<Vec<_>>());
        match r {
            Ok(m) => judge::<D>(cx, &m, &ev, who, &what),
            Err(Fail::Horizon) => cx.fail("endless", format!("the match does not end after {} actions: {}", ev.len(), what())),
            Err(e) => {
                let w = toy::wrong();
                cx.fail("panic", format!("{e:?} {}: {}", w.unwrap_or_default(), what()))
            }
        }
        cx.tick();
        !cx.stop()
    });
    cx.add(st);
}

/// The agents of a match give offered moves, pass only where there is none, and do not crash.
pub fn agents_play<const D: bool>(cx: &mut Cx, sh: &Shape, who: (Who, Who), iters: usize, temp: f64) {
    toy::set_table(Table::new(sh, true));
    toy::CAP.store(2_000_000, std::sync::atomic::Ordering::SeqCst);
    toy::spy_start();
    let run = Run::with_bounds(&Bounds { base: 6, ..Bounds::full() });
    let r = run_match::<Toy<D>>(&run, who.0, who.1, &mcts_config(iters, 2.0, 6, 0.3, 0.25), temp, 1, None);
    let ev = toy::spy_take();
    cx.out.traces += 1;
    cx.out.transitions += ev.len() as u64;
    let what = || format!("{:?} against {:?} ({iters} iterations, temperature {temp}) on the game {}{}", who.0, who.1, show(sh), if D { "" } else { " with dice" });
    if let Some(w) = toy::wrong() {
        cx.fail("not-offered", format!("{w}; {}", what()));
    } else if let Err(Fail::Panic(e)) = r {
        cx.fail("agent-panic", format!("{e}: {}", what()));
    } else if let Some(e) = ev.iter().find(|e| matches!(e.what, What::Skip) && e.before.depth > 0 && !e.before.edges(D).is_empty()) {
        cx.fail("passes", format!("the turn was passed in {:?} although there are moves, {}", e.before, what()));
    }
    cx.tick();
}

pub fn c15(cx: &mut Cx) {
    toy::CAP.store(2_000_000, std::sync::atomic::Ordering::SeqCst);
    let pairs = [(Who::Random, Who::Random), (Who::Mcts, Who::Random), (Who::Random, Who::Mcts), (Who::Mcts, Who::Mcts)];
    let mut shapes = toy::t2(2);
    shapes.extend(toy::t3(2).into_iter().step_by(if cx.thorough { 20 } else { 400 }));
    let take = if cx.thorough { 1 } else { 2 };
    cx.bound(format!("{} small games, 400 games per match, random and tree-search agents in both seats; a fixed and a pseudo-random tape", shapes.len() / take));
    for sh in shapes.iter().step_by(take) {
        if cx.case(|| format!("match {}", show(sh))) {
            for (k, who) in pairs.iter().enumerate() {
                for base in [0u64, 3 + k as u64] {
                    toy_match::<true>(cx, sh, *who, 3, &Bounds { max_dev: 0, base, ..Bounds::full() });
                }
                if cx.stop() {
                    return;
                }
            }
        }
    }
    cx.bound("dice variants: random against random and against the tree search");
    for sh in shapes.iter().step_by(take * 7) {
        if cx.case(|| format!("dice match {}", show(sh))) {
            for v in toy::dice_variants(sh) {
                // games in which some roll leaves no move for ever are covered by the round limit
                toy_match::<false>(cx, &v, (Who::Random, Who::Random), 3, &Bounds { max_dev: 0, base: 5, ..Bounds::full() });
                toy_match::<false>(cx, &v, (Who::Random, Who::Mcts), 2, &Bounds { max_dev: 0, base: 6, ..Bounds::full() });
                if cx.stop() {
                    return;
                }
            }
        }
    }
    cx.bound("games that need not end: the match has to stop at the round limit");
    for sh in toy::endless() {
        for who in [(Who::Random, Who::Random), (Who::Mcts, Who::Random)] {
            if cx.case(|| format!("endless {} {who:?}", show(&sh))) {
                for base in [0u64, 4] {
                    toy_match::<true>(cx, &sh, who, 2, &Bounds { max_dev: 0, base, horizon: 6_000_000, ..Bounds::full() });
                }
            }
        }
    }
    cx.bound("games decided on the last rounds before the limit, on it and after it: every length from four below to three above, every result, either player making the last move");
    for (k, end) in [1i8, -1, 0].into_iter().enumerate() {
        for keep in [false, true] {
            if !cx.case(|| format!("long games ending {end} keep {keep}")) {
                continue;
            }
            // how long unfinished games run
            let run = Run::with_bounds(&Bounds { base: 0, horizon: 6_000_000, ..Bounds::full() });
            toy::set_table(Table::new(&Shape::Stuck, true));
            toy::spy_start();
            let r = run_match::<Toy<true>>(&run, Who::Random, Who::Random, &mcts_config(2, 2.0, 6, 0.3, 0.25), 1.0, 1, None);
            let ev = toy::spy_take();
            if r.is_err() {
                continue; // reported above
            }
            let limit = finals(&ev).values().map(|s| s.depth).max().unwrap_or(0) as usize;
            if limit > 5000 {
                continue;
            }
            for len in limit.saturating_sub(4).max(1)..=limit + 3 {
                let mut sh = Shape::End(end);
                for i in 0..len {
                    sh = Shape::Node(vec![(keep && i == len / 2, 0, sh)]);
                }
                let who = [(Who::Random, Who::Random), (Who::Mcts, Who::Random), (Who::Random, Who::Mcts)][k];
                toy::set_table(Table::new(&sh, true));
                toy::spy_start();
                let run = Run::with_bounds(&Bounds { base: 0, horizon: 6_000_000, ..Bounds::full() });
                let r = run_match::<Toy<true>>(&run, who.0, who.1, &mcts_config(1, 2.0, 1, 0.3, 0.25), 1.0, 1, None);
                let ev = toy::spy_take();
                cx.out.traces += 1;
                let what = || format!("{who:?} on a game of {len} forced moves won by {end}");
                match r {
                    Ok(m) => judge::<true>(cx, &m, &ev, who, &what),
                    Err(e) => cx.fail("panic", format!("{e:?}: {}", what())),
                }
                cx.tick();
                if cx.stop() {
                    return;
                }
            }
        }
    }
    let dev_games: Vec<Shape> = toy::t2(2).into_iter().step_by(if cx.thorough { 9 } else { 45 }).collect();
    let free = if cx.thorough { 900 } else { 450 };
    cx.bound(format!("{} small games, random agents: every single deviation of one of the first {free} choices", dev_games.len()));
    for sh in &dev_games {
        if cx.case(|| format!("deviations {}", show(sh))) {
            toy_match::<true>(cx, sh, (Who::Random, Who::Random), 1, &Bounds { max_dev: 1, max_free: free, base: 8, ..Bounds::full() });
        }
    }
    cx.bound("network agents on small games, both seats, temperature 1 and 0.003");
    for sh in toy::t2(2).iter().step_by(if cx.thorough { 4 } else { 30 }) {
        for who in [(Who::Model, Who::Random), (Who::Random, Who::Model), (Who::Model, Who::Model), (Who::Model, Who::Mcts)] {
            if cx.case(|| format!("network match {} {who:?}", show(sh))) {
                toy_match::<true>(cx, sh, who, 3, &Bounds { max_dev: 0, base: 2, ..Bounds::full() });
                toy_match::<false>(cx, sh, who, 2, &Bounds { max_dev: 0, base: 2, ..Bounds::full() });
                toy_match_at::<true>(cx, sh, who, 6, 0.003, &Bounds { max_dev: 0, base: 2, ..Bounds::full() });
            }
        }
    }
    // the seats: the tree search wins a game that only the better player can win
    cx.bound("seat identity: the tree search against random agents that always blunder, in both seats");
    for (name, sh) in seat_games() {
        for first in [true, false] {
            if cx.case(|| format!("seats {name} search first {first}")) {
                toy::set_table(Table::new(&sh, false));
                toy::spy_start();
                let run = Run::default_run(); // random agents take the first move listed: the blunder
                let who = if first { (Who::Mcts, Who::Random) } else { (Who::Random, Who::Mcts) };
                let r = run_match::<Toy<true>>(&run, who.0, who.1, &mcts_config(60, 2.0, 6, 0.3, 0.25), 1.0, 1, None);
                toy::spy_take();
                cx.out.traces += 1;
                if let Some(m) = cx.unwrap(r, "panic", || format!("seats {name}")) {
                    let want = if first { (400, 0) } else { (0, 400) };
                    cx.check(m.n != 400 || m.wins == want, "seats", || format!("in the game {} the tree search as player {} is credited {:?} (wins of player 1, player 2) against an agent that always blunders", show(&sh), if first { 1 } else { 2 }, m.wins));
                }
            }
        }
    }
    cx.bound("tic-tac-toe matches of random and tree-search agents: tallies against the game records");
    for who in pairs {
        for base in [0u64, 1, 2] {
            if cx.case(|| format!("tictactoe {who:?} tape {base}")) {
                let run = Run::with_bounds(&Bounds { base, ..Bounds::full() });
                let r = run_match::<TicTacToe>(&run, who.0, who.1, &mcts_config(4, 2.0, 9, 0.3, 0.25), 1.0, 1, None);
                cx.out.traces += 1;
                if let Some(m) = cx.unwrap(r, "panic", || format!("tic-tac-toe match {who:?}")) {
                    let what = || format!("tic-tac-toe match {who:?}");
                    if tallies(cx, &m, &what) && who.0 != who.1 {
                        let a = m.records.iter().filter(|r| r.1 == who.0.agent()).count();
                        let b = m.records.iter().filter(|r| r.1 == who.1.agent()).count();
                        cx.check((a, b) == m.wins, "record", || format!("records name the players as winner {a} and {b} times, counted are {:?}", m.wins));
                    }
                }
                cx.tick();
            }
        }
    }
}

/// Games won by whoever avoids the first move listed.
fn seat_games() -> Vec<(&'static str, Shape)> {
    use Shape::*;
    vec![
        // the first move listed loses at once, the second wins at once
        ("at once", Node(vec![(false, 0, End(-1)), (false, 0, End(1))])),
        // the first move hands over the win, the second keeps it
        ("one move on", Node(vec![
            (false, 0, Node(vec![(false, 0, End(-1)), (false, 0, End(1))])),
            (true, 0, Node(vec![(false, 0, End(-1)), (false, 0, End(1))])),
        ])),
    ]
}

// ---------------------------------------------------------------- C16

fn summary(m: &Match, ev: &[toy::Event]) -> (usize, usize, usize, Vec<(u32, u64, u16)>) {
    (m.wins.0, m.wins.1, m.draws, finals(ev).into_iter().map(|(b, s)| (b, s.hist, s.node)).collect())
}

pub fn c16(cx: &mut Cx) {
    let games: Vec<Shape> = vec![
        Shape::Node(vec![(false, 0, Shape::End(1)), (false, 0, Shape::End(-1))]),
        Shape::Node(vec![(false, 0, Shape::Node(vec![(false, 0, Shape::End(1))])), (true, 0, Shape::Node(vec![(false, 0, Shape::End(0)), (false, 0, Shape::End(1))]))]),
        Shape::Node(vec![(false, 0, Shape::Pass(Box::new(Shape::End(1)))), (false, 0, Shape::End(0))]),
    ];
    let join = |k: usize| match k {
        0 => Join::InOrder,
        1 => Join::StolenLate,
        _ => Join::StolenFirst,
    };
    let threads: &[usize] = if cx.thorough { &[1, 2, 3, 4, 6, 8, 16] } else { &[1, 2, 4, 8] };
    let dev = 2;
    let free = if cx.thorough { 120 } else { 44 };
    cx.bound(format!("three games with game-dependent move labels, random and tree-search agents, {threads:?} worker threads: every schedule within {dev} deviations (task stolen and finished late, task stolen and finished first) among the first {free} splits"));
    let free1 = 420;
    for (gi, sh) in games.iter().enumerate() {
        for who in [(Who::Random, Who::Random), (Who::Mcts, Who::Random)] {
            for &t in threads {
                let parts = 6;
                for part in 0..parts {
                    if !cx.case(|| format!("game {} {who:?} threads {t} part {part}", show(sh))) {
                        continue;
                    }
                    // tape of zeros: the draws do not depend on the order in which games are processed
                    let cfg = mcts_config(2, 2.0, 4, 0.3, 0.25);
                    let go = |cx: &mut Cx, run: &Run, sched: Box<dyn FnMut() -> Join + Send>, threads: usize, what: &dyn Fn() -> String| {
                        toy::set_table(Table::new(sh, true));
                        toy::spy_start();
                        let r = run_match::<Toy<true>>(run, who.0, who.1, &cfg, 1.0, threads, Some(sched));
                        let ev = toy::spy_take();
                        cx.tick();
                        match r {
                            Err(e) => {
                                let w = toy::wrong();
                                cx.fail("panic", format!("{e:?} {}: {}", w.unwrap_or_default(), what()));
                                None
                            }
                            Ok(m) => {
                                judge::<true>(cx, &m, &ev, who, what);
                                Some(summary(&m, &ev))
                            }
                        }
                    };
                    let base = go(cx, &Run::default_run(), Box::new(|| Join::InOrder), 1, &|| "one thread".to_string());
                    let Some(base) = base else { return };
                    // fixed patterns
                    for pat in 1..9usize {
                        if pat % parts != part {
                            continue;
                        }
                        let mut k = 0usize;
                        let dec = Box::new(move || {
                            k += 1;
                            match pat {
                                1 => Join::StolenFirst,
                                2 => Join::StolenLate,
                                3 => [Join::InOrder, Join::StolenFirst][k % 2],
                                4 => [Join::StolenFirst, Join::InOrder][k % 2],
                                5 => [Join::InOrder, Join::StolenFirst, Join::StolenLate][k % 3],
                                6 => if k < 10 { Join::StolenFirst } else { Join::InOrder },
                                7 => if k > 10 { Join::StolenFirst } else { Join::InOrder },
                                _ => if (k * k) % 7 < 3 { Join::StolenFirst } else { Join::StolenLate },
                            }
                        });
                        let what = || format!("game {} with {who:?}, {t} threads, schedule pattern {pat}", show(sh));
                        let Some(r) = go(cx, &Run::default_run(), dec, t, &what) else { return };
                        cx.out.traces += 1;
                        if !cx.check(r == base, "schedule-dependent", || format!("the match differs from the one computed in order: {:?} against {:?}; {}", (r.0, r.1, r.2), (base.0, base.1, base.2), what())) {
                            return;
                        }
                    }
                    // all schedules within the deviation bound; sharded by the position of the first deviation
                    let lens = if dev == 1 { free1 } else { free };
                    let mut pos: Vec<Vec<(usize, usize)>> = vec![];
                    for i in 0..lens {
                        for a in 1..3 {
                            pos.push(vec![(i, a)]);
                            if dev > 1 {
                                for j in i + 1..lens {
                                    for b in 1..3 {
                                        pos.push(vec![(i, a), (j, b)]);
                                    }
                                }
                            }
                        }
                    }
                    let mut used = 0usize;
                    for (x, p) in pos.iter().enumerate() {
                        if x % parts != part {
                            continue;
                        }
                        let counter = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
                        let c2 = counter.clone();
                        let p2 = p.clone();
                        let dec = Box::new(move || {
                            let i = c2.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            p2.iter().find(|d| d.0 == i).map_or(Join::InOrder, |d| join(d.1))
                        });
                        let what = || format!("game {} with {who:?}, {t} threads, deviations {p:?} (split, 1 late 2 first)", show(sh));
                        let Some(r) = go(cx, &Run::default_run(), dec, t, &what) else { return };
                        cx.out.traces += 1;
                        used = used.max(counter.load(std::sync::atomic::Ordering::SeqCst));
                        if !cx.check(r == base, "schedule-dependent", || format!("the match differs from the one computed in order: {:?} against {:?}; {}", (r.0, r.1, r.2), (base.0, base.1, base.2), what())) {
                            return;
                        }
                        if p[0].0 > used && used > 0 {
                            break; // no such split
                        }
                    }
                    if gi == 0 && part == 0 {
                        cx.note(format!("{t} threads, {who:?}: {used} splits in the match on the first game"));
                    }
                }
            }
        }
    }
    interleavings(cx, &games);
    cx.bound("tic-tac-toe matches under eight schedule patterns and four thread counts: every action legal for its own board");
    for pat in 0..8u64 {
        for t in [1usize, 2, 5, 8] {
            if cx.case(|| format!("tictactoe pattern {pat} threads {t}")) {
                for who in [(Who::Random, Who::Random), (Who::Mcts, Who::Random)] {
                    let run = Run::with_bounds(&Bounds { base: 20 + pat, ..Bounds::full() });
                    let mut k = pat;
                    let dec = Box::new(move || {
                        k = k.wrapping_mul(6364136223846793005).wrapping_add(pat + 1);
                        [Join::InOrder, Join::StolenLate, Join::StolenFirst][(k >> 33) as usize % 3]
                    });
                    let r = run_match::<TicTacToe>(&run, who.0, who.1, &mcts_config(3, 2.0, 9, 0.3, 0.25), 1.0, t, Some(dec));
                    cx.out.traces += 1;
                    let what = || format!("tic-tac-toe match {who:?}, {t} threads, schedule {pat}");
                    if let Some(m) = cx.unwrap(r, "panic", what) {
                        tallies(cx, &m, &what);
                    }
                    cx.tick();
                }
            }
        }
    }
}

/// Threads that run at the same time, taking turns at every operation on a game and every random draw.
fn interleavings(cx: &mut Cx, games: &[Shape]) {
    use std::sync::{Arc, Mutex};
    /// How the turn changes.
    #[derive(Clone, Debug)]
    enum Turns {
        Every(usize),
        Noise(u64),
        At(Vec<usize>),
    }
    let points = if cx.thorough { 90 } else { 26 };
    let mut plans: Vec<(Vec<usize>, Turns)> = vec![];
    for t in [Turns::Every(1), Turns::Every(2), Turns::Every(3), Turns::Every(7), Turns::Every(50), Turns::Noise(1), Turns::Noise(2), Turns::Noise(3), Turns::Noise(4), Turns::Noise(5)] {
        plans.push((vec![], t.clone())); // every split is shared out
        for i in 0..8 {
            plans.push((vec![i], t.clone()));
        }
    }
    for i in 0..points {
        for j in i + 1..=points {
            plans.push((vec![0], Turns::At(vec![i, j])));
        }
        plans.push((vec![], Turns::At(vec![i])));
    }
    cx.bound(format!("threads that run at the same time and take turns at every operation on a game and every draw: all schedules of two preemptions within the first {points} points of the first split, and round-robin and {} other patterns with one of the first eight splits or every split shared out, 2 and 4 worker threads", 5));
    for (gi, sh) in games.iter().enumerate() {
        for who in [(Who::Random, Who::Random), (Who::Mcts, Who::Random)] {
            for threads in [2usize, 4] {
                for part in 0..4 {
                    if !cx.case(|| format!("interleaved {} {who:?} threads {threads} part {part}", show(sh))) {
                        continue;
                    }
                    let cfg = mcts_config(2, 2.0, 4, 0.3, 0.25);
                    let mut base = None;
                    for (x, (at, turns)) in std::iter::once((part, (vec![usize::MAX], Turns::At(vec![])))).chain(plans.iter().cloned().enumerate()) {
                        if x % 4 != part || (gi > 0 && x % 3 == 0 && !cx.thorough && base.is_some()) {
                            continue;
                        }
                        let mut k = 0usize;
                        let a2 = at.clone();
                        let dec = Box::new(move || {
                            k += 1;
                            if a2.is_empty() || a2.contains(&(k - 1)) { Join::Interleaved } else { Join::InOrder }
                        });
                        let seen = Arc::new(Mutex::new(0usize));
                        let s2 = seen.clone();
                        let t2 = turns.clone();
                        let switch: rayon_core::ctl::Switch = Box::new(move |n| {
                            let mut c = s2.lock().unwrap_or_else(|e| e.into_inner());
                            let i = *c;
                            *c += 1;
                            match &t2 {
                                Turns::Every(m) => ((i + 1) % m == 0) as usize,
                                Turns::Noise(seed) => (crate::explore::mix(seed ^ ((i as u64) << 8)) % n as u64) as usize,
                                Turns::At(v) => v.contains(&i) as usize,
                            }
                        });
                        toy::set_table(Table::new(sh, true));
                        toy::spy_start();
                        let r = run_match_team::<Toy<true>>(&Run::default_run(), who.0, who.1, &cfg, 1.0, threads, dec, Some(switch));
                        let ev = toy::spy_take();
                        cx.tick();
                        cx.out.traces += 1;
                        cx.out.transitions += *seen.lock().unwrap_or_else(|e| e.into_inner()) as u64;
                        let what = || format!("game {} with {who:?}, {threads} threads, splits {at:?} shared out, turns {turns:?}", show(sh));
                        match r {
                            Err(e) => {
                                let w = toy::wrong();
                                cx.fail("panic", format!("{e:?} {}: {}", w.unwrap_or_default(), what()));
                                return;
                            }
                            Ok(m) => {
                                judge::<true>(cx, &m, &ev, who, &what);
                                let s = summary(&m, &ev);
                                let b = base.get_or_insert_with(|| s.clone());
                                if !cx.check(s == *b, "schedule-dependent", || format!("the match differs from the one computed in order: {:?} against {:?}; {}", (s.0, s.1, s.2), (b.0, b.1, b.2), what())) {
                                    return;
                                }
                            }
                        }
                        if cx.stop() {
                            return;
                        }
                    }
                }
            }
        }
    }
}
