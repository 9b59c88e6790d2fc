//! C09..C13: the searches.
use super::rules;
use crate::cx::Cx;
use super::matches::Who;
use crate::explore::{dfs, Bounds, Run};
use crate::families;
use crate::toy::{self, show, Shape, Table, Toy};
use crate::tttref;
use crate::util::*;
use die_e::alphazero::nnet::ResNet;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::mcts::alpha_mcts::{alpha_mcts, alpha_mcts_parallel};
use die_e::mcts::node::Node;
use die_e::mcts::node_store::NodeStore;
use die_e::mcts::simple_mcts::{backpropagate, mct_search, select_leaf_node, select_most_visits};
use die_e::tictactoe::TicTacToe;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

// ---------------------------------------------------------------- C11

/// How a rollout of at most `limit` rounds can end, with probabilities (in units fixed by the run).
fn reference_rollout<T: LearnableGame>(run: &Run, start: &T, player: i8, limit: usize) -> f32 {
    let mut s = *start;
    for _ in 0..limit {
        if s.check_winner().is_some() {
            break;
        }
        let moves = s.get_valid_moves();
        // the game's own dice are drawn from the same run
        if moves.is_empty() {
            run.with(|| s.skip_turn()).expect("skip");
        } else {
            let m = moves[run.choose(moves.len())].clone();
            run.with(|| s.apply_move(&m)).expect("apply");
        }
    }
    match s.check_winner() {
        Some(w) if w == player => 1.0,
        Some(w) if w == -player => -1.0,
        _ => 0.0,
    }
}

type Dist = BTreeMap<i32, f64>;

fn distribution(st: &mut crate::explore::Stats, mut f: impl FnMut(&Run) -> Result<f32, String>) -> Result<(Dist, bool), String> {
    let mut d = Dist::new();
    let mut err = None;
    let mut raw = false;
    let s = dfs(&Bounds { max_runs: 3_000_000, ..Bounds::full() }, |run| {
        match f(run) {
            Ok(v) => {
                raw |= run.raw() > 0;
                *d.entry((v * 1000.0).round() as i32).or_default() += run.probability();
                true
            }
            Err(e) => {
                err = Some(e);
                false
            }
        }
    });
    st.runs += s.runs;
    st.choices += s.choices;
    st.truncated |= s.truncated;
    match err {
        Some(e) => Err(e),
        None => Ok((d, raw || s.truncated)),
    }
}

fn check_rollouts<T: LearnableGame>(cx: &mut Cx, start: &T, limits: &[usize], what: impl Fn() -> String) {
    for &limit in limits {
        for player in [-1i8, 1] {
            let mut st = Default::default();
            let want = distribution(&mut st, |run| Ok(reference_rollout(run, start, player, limit)));
            let got = distribution(&mut st, |run| {
                run.with(|| Node::new(*start, 0, None, None, 0.0).simulate(player, limit)).map_err(|e| format!("{e:?}"))
            });
            cx.add(st);
            cx.out.states += 1;
            cx.tick();
            let (want, _) = want.unwrap();
            match got {
                Err(e) => cx.fail("rollout-panic", format!("rollout of {} for player {player} with limit {limit}: {e}", what())),
                Ok((_, true)) => cx.out.undecided += 1,
                Ok((got, false)) => {
                    let same = want.keys().chain(got.keys()).all(|k| (want.get(k).unwrap_or(&0.0) - got.get(k).unwrap_or(&0.0)).abs() < 1e-9);
                    cx.check(same, "rollout-result", || {
                        format!("rollout of {} for player {player} with at most {limit} rounds: results (x1000) with probabilities {got:?}, but the playouts end {want:?}", what())
                    });
                }
            }
            if cx.stop() {
                return;
            }
        }
    }
}

pub fn c11(cx: &mut Cx) {
    let mut shapes = toy::t2(if cx.thorough { 3 } else { 2 });
    shapes.extend(toy::endless());
    if cx.thorough {
        shapes.extend(toy::t3(2));
    }
    let limits: Vec<usize> = (0..=4).collect();
    cx.bound(format!("{} small games without dice: every sequence of random choices, rollouts of at most 0..4 rounds, for both players", shapes.len()));
    for sh in &shapes {
        if cx.case(|| format!("toy {}", show(sh))) {
            toy::set_table(Table::new(sh, false));
            for p in [-1i8, 1] {
                check_rollouts(cx, &Toy::<true>::start(p, 0), &limits, || format!("the game {} started by {p}", show(sh)));
            }
        }
    }
    let base: Vec<Shape> = toy::t2(2).into_iter().step_by(if cx.thorough { 1 } else { 5 }).collect();
    cx.bound("small games with dice: every sequence of dice and choices, at most 0..4 rounds");
    for b in &base {
        if cx.case(|| format!("dice toy {}", show(b))) {
            for sh in toy::dice_variants(b) {
                toy::set_table(Table::new(&sh, false));
                check_rollouts(cx, &Toy::<false>::start(-1, 0), &limits[..4], || format!("the dice game {}", show(&sh)));
            }
        }
    }
    cx.bound("games of 5 to 64 moves at once, one of which decides the game: every choice, at most 0..2 rounds");
    for n in [5u8, 9, 16, 17, 18, 24, 33, 64] {
        if cx.case(|| format!("wide {n}")) {
            for win in [0, 1, n / 2, n - 2, n - 1] {
                check_rollouts(cx, &toy::Wide::of(n, win, if win % 2 == 0 { -1 } else { 1 }), if n > 40 { &[1] } else { &[0, 1, 2] }, || format!("a game of {n} moves at once, of which number {win} wins"));
            }
        }
    }
    cx.bound("games of 30 to 1000 forced moves (passes among them): round limits around the length, around 256, and up to 2^33");
    for (len, pass) in [(30usize, 0usize), (255, 0), (256, 0), (257, 3), (300, 0), (400, 2), (1000, 0), (1000, 7)] {
        if cx.case(|| format!("long {len} {pass}")) {
            for end in [1i8, -1] {
                let sh = toy::chain(len, pass, Shape::End(end));
                toy::set_table(Table::new(&sh, false));
                let mut limits = vec![0, 1, 44, 127, 128, 129, 254, 255, 256, 257, 400, 999, 1000, 1001, 1 << 16, (1 << 16) + 1, 1 << 20, (1 << 32) + 2, 1 << 33];
                limits.extend([len - 1, len, len + 1]);
                for p in [-1i8, 1] {
                    check_rollouts(cx, &Toy::<true>::start(p, 0), &limits, || format!("a game of {len} forced turns (every {pass}-th a pass) started by {p}, result {end}"));
                }
            }
            // games that end anywhere along the way: every playout
            let sh = toy::ladder(len.min(300), 1, Shape::End(-1));
            toy::set_table(Table::new(&sh, false));
            let start = Toy::<true>::start(-1, 0);
            if len <= 300 {
                check_rollouts(cx, &start, &[len - 1, len, 400], || format!("a game that may end at each of {len} turns"));
            }
        }
    }
    let empties = if cx.thorough { 6 } else { 5 };
    cx.bound(format!("every tic-tac-toe position with at most {empties} empty squares, every playout, at most 0..6 rounds"));
    let mut byfill: BTreeMap<(usize, u64), Vec<TicTacToe>> = BTreeMap::new();
    for (i, s) in ttt_positions().into_iter().enumerate() {
        let e = s.board.iter().filter(|&&x| x == 0).count();
        if e <= empties {
            byfill.entry((e, i as u64 % 40)).or_default().push(s);
        }
    }
    for ((e, k), v) in byfill {
        if cx.case(|| format!("tictactoe {e} empty, part {k}")) {
            for s in v {
                let l: Vec<usize> = if e > 4 { vec![2, e, e + 1] } else { (0..=e + 1).collect() };
                check_rollouts(cx, &s, &l, || format!("tic-tac-toe board {:?} player {}", s.board, s.get_player()));
            }
        }
    }
    cx.bound("backgammon endings with one or two checkers left on each side: all dice and choices of rollouts of at most 0..2 rounds");
    let pairs: Vec<(u8, u8)> = if cx.thorough { (0..=6).flat_map(|a| (0..=6).map(move |b| (a, b))).filter(|&(a, b)| a + b > 0 && a >= b).collect() } else { vec![(1, 0), (6, 0), (1, 1), (6, 5)] };
    for &(a, b) in &pairs {
        for &(oa, ob) in &pairs {
            for roll in [(1, 2), (6, 6), (3, 5)] {
                if !cx.case(|| format!("bear-off own {a} {b} other {oa} {ob} roll {roll:?}")) {
                    continue;
                }
                let mut p = families::empty();
                p.own[a as usize] += 1;
                if b > 0 {
                    p.own[b as usize] += 1;
                }
                p.opp[25 - oa as usize] += 1;
                if ob > 0 {
                    p.opp[25 - ob as usize] += 1;
                }
                families::fill(&mut p);
                let s = rules::state(&crate::bgref::to_board(&p, -1), -1, roll, false);
                check_rollouts(cx, &s, &[0, 1, 2], || format!("backgammon ending own {a} {b} other {oa} {ob} roll {roll:?}"));
            }
        }
    }
}

// ---------------------------------------------------------------- C09

fn is_offered<T: LearnableGame>(cx: &mut Cx, s: &T, m: &T::Move, who: &str, what: &dyn Fn() -> String) {
    let moves = s.get_valid_moves();
    if moves.is_empty() || s.check_winner().is_some() {
        cx.check(*m == T::EMPTY_MOVE || moves.contains(m), "no-pass", || format!("{who} answers {m:?} although no move is possible in {}", what()));
    } else if *m == T::EMPTY_MOVE {
        cx.fail("passes", format!("{who} passes although {} moves are offered in {}", moves.len(), what()));
    } else {
        cx.check(moves.contains(m), "not-offered", || format!("{who} answers {m:?}, offered are {moves:?}, in {}", what()));
    }
}

/// The plain search on one position under the default tapes and (small bounds) their deviations.
fn plain<T: LearnableGame>(cx: &mut Cx, s: &T, iters: &[usize], cs: &[f64], limits: &[usize], bases: &[u64], dev: usize, what: &dyn Fn() -> String) {
    for &n in iters {
        for &c in cs {
            for &l in limits {
                let cfg = mcts_config(n, c, l, 0.3, 0.25);
                for &base in bases {
                    let b = Bounds { max_dev: dev, max_free: 40, base, max_runs: 300, ..Bounds::full() };
                    let mut bad = None;
                    let st = dfs(&b, |run| match run.with(|| mct_search(*s, s.get_player(), &cfg)) {
                        Ok(m) => {
                            is_offered(cx, s, &m, &format!("the tree search ({n} iterations, exploration {c}, round limit {l}, dice {:?})", run.choices()), what);
                            !cx.stop()
                        }
                        Err(e) => {
                            bad = Some(format!("the tree search ({n} iterations, exploration {c}, round limit {l}, random choices {:?}) in {}: {e:?}", run.choices(), what()));
                            false
                        }
                    });
                    cx.add(st);
                    cx.out.states += 1;
                    if let Some(b) = bad {
                        cx.fail("search-panic", b);
                        return;
                    }
                }
                if cx.stop() {
                    return;
                }
            }
        }
        cx.tick();
    }
}

/// The network searches (serial, serial agent, batched) on one position.
fn networked<T: LearnableGame>(cx: &mut Cx, s: &T, net: &ResNet, iters: &[usize], what: &dyn Fn() -> String) {
    for &n in iters {
        for eps in [0.0, 0.25] {
            let cfg = mcts_config(n, 2.0, 5, 0.3, eps);
            for base in [0u64, 5] {
                let run = Run::with_bounds(&Bounds { base, ..Bounds::full() });
                let r = run.with(|| alpha_mcts(s, net, &cfg));
                cx.out.traces += 1;
                match r {
                    Err(e) => {
                        cx.fail("network-panic", format!("the network search ({n} simulations, noise {eps}) in {}: {e:?}", what()));
                        return;
                    }
                    Ok(None) => {
                        cx.check(s.check_winner().is_some() || s.get_valid_moves().is_empty(), "passes", || {
                            format!("the network search ({n} simulations) has no answer although moves are offered in {}", what())
                        });
                    }
                    Ok(Some(pi)) => {
                        let v = tensor_vec(&pi);
                        let moves = s.get_valid_moves();
                        for (code, &w) in v.iter().enumerate() {
                            if w != 0.0 {
                                let ok = moves.iter().any(|m| s.encode(m) as usize == code);
                                cx.check(ok, "not-offered", || format!("the network search gives code {code} the share {w} in {}; offered {moves:?}", what()));
                            }
                        }
                        cx.check((v.iter().sum::<f64>() - 1.0).abs() < 1e-4, "share-sum", || format!("the network search's shares {v:?} do not sum to one in {}", what()));
                    }
                }
                // batched, as the match agent uses it
                let run = Run::with_bounds(&Bounds { base, ..Bounds::full() });
                let r = run.with(|| {
                    let mut store = NodeStore::new();
                    alpha_mcts_parallel(&mut store, &[*s], net, &cfg, None);
                    store.get_node(0).children.iter().map(|&c| (store.get_node(c).action_taken.clone().unwrap(), store.get_node(c).visits)).collect::<Vec<_>>()
                });
                cx.out.traces += 1;
                if let Some(ch) = cx.unwrap(r, "network-panic", || format!("the batched network search ({n} simulations, noise {eps}) in {}", what())) {
                    if s.check_winner().is_none() {
                        let moves = s.get_valid_moves();
                        for (m, v) in &ch {
                            cx.check(moves.contains(m) || *v == 0.0, "not-offered", || format!("the batched network search considers {m:?} in {}", what()));
                        }
                        if !moves.is_empty() {
                            cx.check(ch.iter().any(|c| c.1 > 0.0), "passes", || format!("the batched network search visits no move although some are offered in {}", what()));
                        }
                    }
                }
                cx.out.states += 1;
            }
        }
        cx.tick();
        if cx.stop() {
            return;
        }
    }
}

/// Backgammon positions in which passes are forced at the root or close below it.
pub fn blocked_positions() -> Vec<(Backgammon, String)> {
    let mut out = vec![];
    for own_bar in [0u8, 1, 2] {
        for blocks in 3..=6u8 {
            for rest in 0..3usize {
                for roll in [(1u8, 2u8), (6, 6), (3, 3), (6, 5)] {
                    for second in [false, true] {
                        if second && roll.0 != roll.1 {
                            continue;
                        }
                        let mut p = families::empty();
                        // the opposing home board is closed from the deep end
                        for i in 0..blocks {
                            p.opp[(24 - i) as usize] = 2;
                        }
                        p.own[25] = own_bar;
                        match rest {
                            0 => p.own[1] = 1,
                            1 => p.own[6] = 2,
                            _ => p.own[24 - blocks as usize] += 1,
                        }
                        families::fill(&mut p);
                        for player in [-1i8, 1] {
                            let s = rules::state(&crate::bgref::to_board(&p, player), player, roll, second);
                            out.push((s, format!("backgammon: {own_bar} on the bar, {blocks} entry points closed, rest {rest}, roll {roll:?}, second {second}, player {player}")));
                        }
                    }
                }
            }
        }
    }
    out
}

pub fn c09(cx: &mut Cx) {
    let mut shapes = toy::t2(2);
    shapes.extend(toy::endless());
    if cx.thorough {
        shapes.extend(toy::t2(3));
        shapes.extend(toy::t3(2));
    }
    let iters: &[usize] = if cx.thorough { &[1, 2, 3, 4, 5, 8, 16, 40] } else { &[1, 2, 3, 7, 20] };
    cx.bound(format!("{} small games: plain search with {iters:?} iterations, exploration 0.1 and 2, at most 0/2 rollout rounds, up to one deviation from two random tapes", shapes.len()));
    for sh in &shapes {
        if cx.case(|| format!("toy {}", show(sh))) {
            toy::set_table(Table::new(sh, false));
            toy::spy_start();
            let s = Toy::<true>::start(-1, 0);
            plain(cx, &s, iters, &[0.1, 2.0], &[0, 2], &[0, 9], 1, &|| format!("the game {}", show(sh)));
            if let Some(w) = toy::wrong() {
                cx.fail("illegal-use", format!("{w} in the game {}", show(sh)));
            }
            toy::spy_take();
        }
    }
    cx.bound("dice variants of the small games, plain search, all within one deviation of two tapes");
    for sh in toy::t2(2).iter().step_by(if cx.thorough { 1 } else { 7 }) {
        if cx.case(|| format!("dice toy {}", show(sh))) {
            for v in toy::dice_variants(sh) {
                toy::set_table(Table::new(&v, false));
                plain(cx, &Toy::<false>::start(-1, 0), &[1, 3, 9], &[1.4], &[3], &[0, 9], 1, &|| format!("the dice game {}", show(&v)));
            }
        }
    }
    cx.bound("network searches with a fresh small network on small games: 1..12 simulations, with and without root noise");
    let toynet = net::<Toy<true>>(3);
    for sh in shapes.iter().step_by(if cx.thorough { 1 } else { 2 }) {
        if cx.case(|| format!("network toy {}", show(sh))) {
            toy::set_table(Table::new(sh, false));
            networked(cx, &Toy::<true>::start(-1, 0), &toynet, &[1, 4, 12], &|| format!("the game {}", show(sh)));
            networked(cx, &Toy::<false>::start(1, 0), &toynet, &[1, 4], &|| format!("the game {} with dice", show(sh)));
        }
    }
    for (i, sh) in toy::t1().iter().enumerate() {
        if cx.case(|| format!("agent toy {}", show(sh))) {
            toy::set_table(Table::new(sh, false));
            agent_moves(cx, &Toy::<true>::start(-1, 0), i as i64, &|| format!("the game {}", show(sh)));
        }
    }
    cx.bound("games of 12 to 64 moves at once: all agents");
    for n in [12u8, 17, 40, 64] {
        if cx.case(|| format!("wide {n}")) {
            let s = toy::Wide::of(n, n - 2, 1);
            plain(cx, &s, &[1, 20, 100, 200], &[2.0], &[5], &[0, 9], 0, &|| format!("a game of {n} moves at once"));
            networked(cx, &s, &net::<toy::Wide>(4), &[1, 9, 80], &|| format!("a game of {n} moves at once"));
            agent_moves(cx, &s, 6, &|| format!("a game of {n} moves at once"));
        }
    }
    cx.bound("matches of all agents on small games with passes, moves and passes judged as they are played");
    for sh in toy::t2(2).iter().chain(&toy::endless()).filter(|s| !matches!(s, Shape::End(_)) && show(s).contains('p')).step_by(if cx.thorough { 3 } else { 17 }) {
        for who in [(Who::Model, Who::Random), (Who::Mcts, Who::Model), (Who::Random, Who::Mcts)] {
            if cx.case(|| format!("agents {} {who:?}", show(sh))) {
                super::matches::agents_play::<true>(cx, sh, who, 4, 1.0);
                super::matches::agents_play::<true>(cx, sh, who, 3, 0.003);
                super::matches::agents_play::<false>(cx, sh, who, 2, 1.0);
            }
        }
    }
    let ttt = ttt_positions();
    cx.bound(format!("{} tic-tac-toe positions, finished ones included: plain search", ttt.len()));
    for (k, part) in ttt.chunks(60).enumerate() {
        if cx.case(|| format!("tictactoe part {k}")) {
            for s in part {
                plain(cx, s, if cx.thorough { &[1, 2, 5, 10, 50] } else { &[1, 6, 30] }, &[2.0], &[9], &[0, 4], 0, &|| format!("tic-tac-toe {:?} player {}", s.board, s.get_player()));
            }
        }
    }
    cx.bound("tic-tac-toe: network searches on every 200th position (finished ones and full boards included)");
    let step = if cx.thorough { 40 } else { 200 };
    for (k, s) in ttt.iter().enumerate().filter(|(k, s)| k % step == 0 || (k % (step / 4) == 0 && s.check_winner().is_some())) {
        if cx.case(|| format!("network tictactoe {k}")) {
            let n = net::<TicTacToe>(5);
            networked(cx, s, &n, &[1, 3], &|| format!("tic-tac-toe {:?} player {}", s.board, s.get_player()));
            agent_moves(cx, s, 5, &|| format!("tic-tac-toe {:?} player {}", s.board, s.get_player()));
        }
    }
    let blocked = blocked_positions();
    cx.bound(format!("{} backgammon positions with forced passes at or below the root: plain search with 1, 12 and 40 iterations", blocked.len()));
    for (s, what) in &blocked {
        if cx.case(|| what.clone()) {
            plain(cx, s, if cx.thorough { &[1, 5, 12, 40, 200] } else { &[1, 12, 40] }, &[2.0], &[0, 6], &[0, 3], 0, &|| what.clone());
        }
    }
    cx.bound("backgammon: openings of all 36 rolls and finished games, plain search; network search on four positions");
    for roll in rules_rolls() {
        for p in [-1i8, 1] {
            if cx.case(|| format!("backgammon opening roll {roll:?} player {p}")) {
                let s = rules::state(&families::opening(), p, roll, false);
                plain(cx, &s, &[1, 30], &[2.0], &[10], &[0, 3], 0, &|| format!("backgammon opening roll {roll:?} player {p}"));
            }
        }
    }
    for winner in [-1i8, 1] {
        for p in [-1i8, 1] {
            if cx.case(|| format!("backgammon won by {winner}, {p} to move")) {
                let s = rules::state(&won(winner), p, (3, 1), false);
                plain(cx, &s, &[1, 5], &[2.0], &[5], &[0], 0, &|| format!("a backgammon game won by {winner}, {p} to move"));
                let r = Run::default_run().with(|| alpha_mcts(&s, &net::<Backgammon>(1), &mcts_config(2, 2.0, 5, 0.3, 0.25)).is_some());
                if let Some(some) = cx.unwrap(r, "network-panic", || format!("the network search on a backgammon game won by {winner}")) {
                    let _ = some;
                }
            }
        }
    }
    for k in 0..if cx.thorough { blocked.len() } else { 4 } {
        let (s, what) = &blocked[k * if cx.thorough { 1 } else { blocked.len() / 4 - 3 }];
        if cx.case(|| format!("network {what}")) {
            let n = net::<Backgammon>(2);
            let r = Run::default_run().with(|| {
                let pi = alpha_mcts(s, &n, &mcts_config(3, 2.0, 5, 0.3, 0.25));
                pi.map(|t| tensor_vec(&t))
            });
            let moves = s.get_valid_moves();
            if let Some(pi) = cx.unwrap(r, "network-panic", || format!("the network search in {what}")) {
                match pi {
                    None => {
                        cx.check(moves.is_empty(), "passes", || format!("the network search has no answer in {what}"));
                    }
                    Some(v) => {
                        for (code, &w) in v.iter().enumerate() {
                            let legal = moves.iter().any(|m| LearnableGame::encode(s, m) as usize == code);
                            cx.check(w == 0.0 || legal, "not-offered", || format!("the network search gives code {code} the share {w} in {what}"));
                        }
                    }
                }
            }
            cx.out.states += 1;
        }
    }
}

fn rules_rolls() -> Vec<(u8, u8)> {
    families::ROLLS36.to_vec()
}

fn won(winner: i8) -> die_e::backgammon::backgammon_logic::Board {
    let mut p = families::empty();
    p.opp[20] = 3;
    families::fill(&mut p);
    p.own = [0; 26];
    p.own[0] = 15;
    crate::bgref::to_board(&p, winner)
}

/// The learner's own move choice.
fn agent_moves<T: LearnableGame>(cx: &mut Cx, s: &T, seed: i64, what: &dyn Fn() -> String) {
    tch::manual_seed(seed);
    for n in [1usize, 5] {
        for temp in [1.0, 0.5, 0.003] {
            let r = Run::default_run().with(|| learner::<T>(n, 2.0, 5, 0.3, 0.25, temp, 1, 4));
            let Some(az) = cx.unwrap(r, "learner", || "constructing the learner".to_string()) else { return };
            let mut bad = None;
            let st = dfs(&Bounds { max_free: 1, ..Bounds::full() }, |run| match run.with(|| az.get_next_move_for_state(s)) {
                Ok(m) => {
                    is_offered(cx, s, &m, &format!("the learner's agent ({n} simulations)"), what);
                    !cx.stop()
                }
                Err(e) => {
                    bad = Some(format!("{e:?}"));
                    false
                }
            });
            cx.add(st);
            if let Some(b) = bad {
                cx.fail("agent-panic", format!("the learner's agent ({n} simulations, temperature {temp}) in {}: {b}", what()));
                return;
            }
        }
    }
}

// ---------------------------------------------------------------- C10

/// The model of the plain search: which statistics the iterations can lead to.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
struct MNode {
    node: u16,
    player: i8,
    last: i8,
    label: u8,
    visits: i32,
    value: i32, // from the view of the side that moved here
    children: Vec<MNode>,
}

impl MNode {
    fn state(&self) -> toy::State {
        let mut s = Toy::<true>::start(self.player, 0).0;
        s.node = self.node;
        s.last = self.last;
        s
    }
}

/// All results of the playouts from a state within `limit` rounds, as the winner (0: none).
fn outcomes(s: &toy::State, limit: usize, out: &mut BTreeSet<i8>) {
    if let Some(w) = s.winner() {
        out.insert(w);
        return;
    }
    if limit == 0 {
        out.insert(0);
        return;
    }
    let es = s.edges(true);
    if es.is_empty() {
        outcomes(&s.skipped(), limit - 1, out);
    }
    for e in es {
        outcomes(&s.moved(e), limit - 1, out);
    }
}

/// All ways one iteration can change the subtree; each with the winner that was found.
fn iterate(n: &MNode, c: f64, limit: usize, out: &mut Vec<(MNode, i8)>) {
    let s = n.state();
    let credit = |n: &mut MNode, w: i8| {
        n.visits += 1;
        n.value += (w * n.last) as i32;
    };
    if let Some(w) = s.winner() {
        let mut m = n.clone();
        credit(&mut m, w);
        out.push((m, w));
        return;
    }
    let es = s.edges(true);
    if es.is_empty() {
        let mut ws = BTreeSet::new();
        outcomes(&s, limit, &mut ws);
        for w in ws {
            let mut m = n.clone();
            credit(&mut m, w);
            out.push((m, w));
        }
        return;
    }
    if n.children.len() < es.len() {
        for e in es {
            let l = s.label(e);
            if n.children.iter().any(|c| c.label == l) {
                continue;
            }
            let t = s.moved(e);
            let mut ws = BTreeSet::new();
            outcomes(&t, limit, &mut ws);
            for w in ws {
                let mut ch = MNode { node: t.node, player: t.player, last: t.last, label: l, visits: 0, value: 0, children: vec![] };
                credit(&mut ch, w);
                let mut m = n.clone();
                m.children.push(ch);
                m.children.sort();
                credit(&mut m, w);
                out.push((m, w));
            }
        }
        return;
    }
    // every move tried: the highest upper confidence bound, any of them on a tie
    let ucb: Vec<f64> = n
        .children
        .iter()
        .map(|k| k.value as f64 / k.visits as f64 + (c * (n.visits as f64).ln() / k.visits as f64).sqrt())
        .collect();
    let best = ucb.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    for (i, u) in ucb.iter().enumerate() {
        if *u >= best - 1e-4 {
            let mut sub = vec![];
            iterate(&n.children[i], c, limit, &mut sub);
            for (k, w) in sub {
                let mut m = n.clone();
                m.children[i] = k;
                m.children.sort();
                credit(&mut m, w);
                out.push((m, w));
            }
        }
    }
}

/// The moves a search of 1..=iters iterations may return; None when there are too many statistics.
fn allowed(start: &toy::State, iters: usize, c: f64, limit: usize, cap: usize, states: &mut u64, transitions: &mut u64) -> Vec<Option<BTreeSet<u8>>> {
    let root = MNode { node: start.node, player: start.player, last: start.player, label: 0, visits: 0, value: 0, children: vec![] };
    let mut cur: HashSet<MNode> = HashSet::from([root]);
    let mut out = vec![];
    for _ in 0..iters {
        let mut next = HashSet::new();
        for n in &cur {
            let mut v = vec![];
            iterate(n, c, limit, &mut v);
            *transitions += v.len() as u64;
            next.extend(v.into_iter().map(|x| x.0));
            if next.len() > cap {
                return out;
            }
        }
        *states += next.len() as u64;
        let mut set = BTreeSet::new();
        for n in &next {
            let most = n.children.iter().map(|c| c.visits).max();
            match most {
                None => {
                    set.insert(toy::EMPTY);
                }
                Some(m) => set.extend(n.children.iter().filter(|c| c.visits == m).map(|c| c.label)),
            }
        }
        out.push(Some(set));
        cur = next;
    }
    out
}

pub fn model_against_real(cx: &mut Cx, sh: &Shape, iters: usize, c: f64, limit: usize, player: i8, cap: usize) {
    toy::set_table(Table::new(sh, false));
    let start = Toy::<true>::start(player, 0);
    let (mut st, mut tr) = (0, 0);
    let sets = allowed(&start.0, iters, c, limit, cap, &mut st, &mut tr);
    cx.out.states += st;
    cx.out.transitions += tr;
    if sets.len() < iters {
        cx.out.undecided += (iters - sets.len()) as u64;
    }
    for (k, set) in sets.iter().enumerate() {
        let n = k + 1;
        let Some(set) = set else { continue };
        let cfg = mcts_config(n, c, limit, 0.3, 0.25);
        let mut bad = None;
        let b = Bounds { max_dev: 2, max_runs: 60, ..Bounds::full() };
        let s = dfs(&b, |run| match run.with(|| mct_search(start, player, &cfg)) {
            Ok(m) => {
                if !set.contains(&m) {
                    bad = Some(format!("returns move {m} (random choices {:?}); the statistics allow only {set:?}", run.choices()));
                }
                bad.is_none()
            }
            Err(e) => {
                bad = Some(format!("{e:?}"));
                false
            }
        });
        cx.out.traces += s.runs;
        if let Some(b) = bad {
            cx.fail("decision", format!("search of the game {} started by {player}, {n} iterations, exploration {c}, round limit {limit}: {b}", show(sh)));
            return;
        }
    }
    cx.tick();
}

/// One iteration of the search made of its public parts, each part checked.
fn stepwise<T: LearnableGame + PartialEq>(cx: &mut Cx, start: &T, iters: usize, c: f32, limit: usize, run: &Run, what: &dyn Fn() -> String) {
    let me = start.get_player();
    let mut store = NodeStore::new();
    let root = store.add_node(*start, None, None, 0.0);
    for it in 0..iters {
        let before: Vec<Node<T>> = snapshot(&store);
        let sel = select_leaf_node(root, &store, c);
        // the selected node: descend by the highest bound
        let mut cur = vec![root];
        let mut reach: HashSet<usize> = HashSet::new();
        while let Some(i) = cur.pop() {
            let n = &before[i];
            if n.children.is_empty() || !n.expandable_moves.is_empty() {
                reach.insert(i);
                continue;
            }
            let u: Vec<f64> = n
                .children
                .iter()
                .map(|&k| {
                    let k = &before[k];
                    k.value as f64 / k.visits as f64 + (c as f64 * (n.visits as f64).ln() / k.visits as f64).sqrt()
                })
                .collect();
            let best = u.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            for (j, x) in u.iter().enumerate() {
                if *x >= best - 1e-4 {
                    cur.push(n.children[j]);
                }
            }
        }
        if !cx.check(reach.contains(&sel), "selection", || format!("iteration {it} of the search of {} selects node {sel}, the highest bounds lead to {reach:?}", what())) {
            return;
        }
        let mut node = store.get_node(sel);
        let (credited, value) = if let Some(w) = node.state.check_winner() {
            (sel, if w == me { 1.0 } else if w == -me { -1.0 } else { 0.0 })
        } else if node.expandable_moves.is_empty() {
            let r = run.with(|| node.simulate(me, limit));
            let Some(v) = cx.unwrap(r, "step-panic", || format!("rollout in {}", what())) else { return };
            (sel, v)
        } else {
            let r = run.with(|| node.expand(&mut store));
            let Some(ch) = cx.unwrap(r, "step-panic", || format!("expansion in {}", what())) else { return };
            let new = store.get_node(ch);
            let after = snapshot(&store);
            // one new child, holding the position its move leads to
            let mv = new.action_taken.clone();
            let ok = after.len() == before.len() + 1
                && new.parent == Some(sel)
                && new.visits == 0.0
                && new.children.is_empty()
                && mv.as_ref().is_some_and(|m| before[sel].expandable_moves.contains(m) && !after[sel].expandable_moves.contains(m))
                && after[sel].children.len() == before[sel].children.len() + 1
                && after[sel].children.contains(&ch)
                && after[sel].expandable_moves.len() + 1 == before[sel].expandable_moves.len();
            if !cx.check(ok, "expansion", || format!("expansion of {:?} gives {new:?} in {}", before[sel], what())) {
                return;
            }
            if T::IS_DETERMINISTIC {
                let mut want = before[sel].state;
                want.apply_move(&mv.unwrap());
                if !cx.check(want == new.state, "expansion", || format!("the new node holds {:?}, its move leads to {want:?}, in {}", new.state, what())) {
                    return;
                }
            }
            let r = run.with(|| new.simulate(me, limit));
            let Some(v) = cx.unwrap(r, "step-panic", || format!("rollout in {}", what())) else { return };
            (ch, v)
        };
        let pre = snapshot(&store);
        backpropagate(credited, value, &mut store);
        let post = snapshot(&store);
        // exactly the path is credited, from the mover's view
        let mut path = HashSet::new();
        let mut i = Some(credited);
        while let Some(k) = i {
            path.insert(k);
            i = pre[k].parent;
        }
        for k in 0..post.len() {
            let dv = post[k].visits - pre[k].visits;
            let dq = post[k].value - pre[k].value;
            let on = path.contains(&k);
            let want = match pre[k].parent {
                Some(p) if on => {
                    if pre[p].state.get_player() == me { value } else { -value }
                }
                _ => 0.0,
            };
            let ok = dv == on as i32 as f32 && (pre[k].parent.is_none() || dq == want);
            if !cx.check(ok, "credit", || {
                format!("result {value} for player {me} found at node {credited}: node {k} ({}on the path, moved to by {:?}) gets {dv} visits and value {dq}, expected value {want}, in {}", if on { "" } else { "not " }, pre[k].parent.map(|p| pre[p].state.get_player()), what())
            }) {
                return;
            }
        }
        let m = select_most_visits(root, &store);
        let kids: Vec<(T::Move, f32)> = post[root].children.iter().map(|&k| (post[k].action_taken.clone().unwrap(), post[k].visits)).collect();
        let most = kids.iter().map(|k| k.1).fold(0.0, f32::max);
        let ok = if kids.is_empty() { m == T::EMPTY_MOVE } else { kids.iter().any(|k| k.0 == m && k.1 == most) };
        cx.check(ok, "most-visited", || format!("move {m:?} chosen with visits {kids:?} in {}", what()));
        cx.out.transitions += 1;
        if cx.stop() {
            return;
        }
    }
    cx.out.traces += 1;
}

fn snapshot<T: LearnableGame>(store: &NodeStore<T>) -> Vec<Node<T>> {
    let mut v = vec![];
    let mut todo = vec![];
    for r in store.get_root_nodes() {
        todo.push(r.idx);
    }
    let mut seen: HashMap<usize, Node<T>> = HashMap::new();
    while let Some(i) = todo.pop() {
        let n = store.get_node(i);
        todo.extend(n.children.iter());
        seen.insert(i, n);
    }
    let max = seen.keys().max().copied().unwrap_or(0);
    for i in 0..=max {
        match seen.remove(&i) {
            Some(n) => v.push(n),
            None => v.push(store.get_node(i)),
        }
    }
    v
}

/// The side-to-move's best achievable result under best play.
fn minimax(b: &mut [i8; 9], p: i8, memo: &mut HashMap<([i8; 9], i8), i8>) -> i8 {
    if let Some(w) = tttref::winner(b) {
        return w * p;
    }
    if let Some(v) = memo.get(&(*b, p)) {
        return *v;
    }
    let mut best = -1;
    for i in 0..9 {
        if b[i] == 0 {
            b[i] = p;
            best = best.max(-minimax(b, -p, memo));
            b[i] = 0;
        }
    }
    memo.insert((*b, p), best);
    best
}

/// Values of a toy position for the side to move, or None when the game need not end.
fn toy_value(s: &toy::State, depth: usize) -> Option<i8> {
    if let Some(w) = s.winner() {
        return Some(w * s.player);
    }
    if depth == 0 {
        return None;
    }
    let es = s.edges(true);
    if es.is_empty() {
        return toy_value(&s.skipped(), depth - 1).map(|v| -v);
    }
    let mut best = None;
    for e in es {
        let t = s.moved(e);
        let v = toy_value(&t, depth - 1)? * if t.player == s.player { 1 } else { -1 };
        best = best.max(Some(v));
    }
    best
}

pub fn c10(cx: &mut Cx) {
    // (a) the returned move against the reachable statistics of the model
    let mut shapes = toy::t2(if cx.thorough { 3 } else { 2 });
    shapes.extend(toy::endless());
    let iters = if cx.thorough { 24 } else { 12 };
    cx.bound(format!("{} small games: for 1..{iters} iterations, all statistics the model search can reach (all expansion orders, ties and playouts; at most 3000 different ones per iteration count), compared with the real search's move under up to two deviations of its random choices", shapes.len()));
    for sh in &shapes {
        if cx.case(|| format!("model {}", show(sh))) {
            for c in [0.1, 1.4, 8.0] {
                for limit in [0usize, 4] {
                    model_against_real(cx, sh, iters, c, limit, if limit == 0 { -1 } else { 1 }, if cx.thorough { 6000 } else { 1500 });
                    if cx.stop() {
                        return;
                    }
                }
            }
        }
    }
    // (b) every part of an iteration
    let mut more = toy::t2(2);
    more.extend(toy::endless());
    more.extend(toy::t3(2).into_iter().step_by(if cx.thorough { 3 } else { 40 }));
    cx.bound(format!("{} small games: 40 iterations built from the search's parts, each selection, expansion, credit and decision checked, three random tapes", more.len()));
    for sh in &more {
        if cx.case(|| format!("parts {}", show(sh))) {
            toy::set_table(Table::new(sh, false));
            for c in [0.1f32, 2.0] {
                for base in [0u64, 3, 4] {
                    let run = Run::with_bounds(&Bounds { base, ..Bounds::full() });
                    stepwise(cx, &Toy::<true>::start(if base == 3 { 1 } else { -1 }, 0), 40, c, 6, &run, &|| format!("the game {}", show(sh)));
                    let run = Run::with_bounds(&Bounds { base, ..Bounds::full() });
                    stepwise(cx, &Toy::<false>::start(-1, 0), 40, c, 6, &run, &|| format!("the game {} with dice", show(sh)));
                }
            }
        }
    }
    cx.bound("long games (30 to 400 turns): 70 iterations part by part; the number of positions that up to 700 iterations of the search reach; a win 300 moves away seen or not as the round limit allows");
    for (len, pass, ladder) in [(30usize, 0usize, false), (60, 0, false), (60, 7, false), (40, 0, true), (400, 0, false), (400, 0, true)] {
        if cx.case(|| format!("long {len} {pass} {ladder}")) {
            let sh = if ladder { toy::ladder(len, 0, Shape::End(1)) } else { toy::chain(len, pass, Shape::End(1)) };
            toy::set_table(Table::new(&sh, false));
            for (c, base, limit) in [(0.1f32, 0u64, 6usize), (2.0, 3, 500)] {
                let run = Run::with_bounds(&Bounds { base, ..Bounds::full() });
                stepwise(cx, &Toy::<true>::start(1, 0), 70, c, limit, &run, &|| format!("a game of {len} turns (pass {pass}, may end at each: {ladder})"));
            }
            if cx.stop() {
                return;
            }
        }
    }
    for n in [1usize, 15, 16, 17, 100, 254, 255, 256, 257, 258, 300, 700] {
        if cx.case(|| format!("count {n}")) {
            toy::set_table(Table::new(&toy::chain(1000, 0, Shape::End(1)), false));
            toy::spy_start();
            let s = Toy::<true>::start(-1, 0);
            let r = Run::default_run().with(|| mct_search(s, -1, &mcts_config(n, 2.0, 0, 0.3, 0.25)));
            let seen: HashSet<u16> = toy::spy_take().iter().map(|e| e.after.node).collect();
            cx.out.traces += 1;
            if cx.unwrap(r, "panic", || format!("search of a long game with {n} iterations")).is_none() {
                return;
            }
            cx.check(seen.len() == n, "iterations", || format!("the search of a game of 1000 forced moves, set to {n} iterations and no playouts, looks at {} positions", seen.len()));
            cx.tick();
        }
    }
    for (len, limit) in [(40usize, 38usize), (40, 39), (40, 40), (140, 128), (140, 138), (140, 139), (300, 254), (300, 256), (300, 298), (300, 299), (300, 400), (300, 1 << 16), (300, 1 << 32)] {
        if cx.case(|| format!("far {len} {limit}")) {
            for (far, near) in [(1i8, 0i8), (-1, 0)] {
                for odd in [0, 1] {
                    let sh = Shape::Node(vec![(false, 0, toy::chain(len - 1 + odd, 0, Shape::End(far))), (false, 0, Shape::End(near))]);
                    model_against_real(cx, &sh, 12, 1.4, limit, -1, 500);
                }
            }
        }
    }
    // (c) decisive moves in the small games
    let mut dec = toy::t2(3);
    dec.extend(toy::t3(2).into_iter().step_by(if cx.thorough { 1 } else { 11 }));
    // a forced pass is a leaf of the search, judged by playouts
    dec.retain(|s| !show(s).contains('p'));
    cx.bound(format!("{} small games without forced passes: when some moves win and others lose under best play, 400 iterations find one that does", dec.len()));
    for (k, part) in dec.chunks(64).enumerate() {
        if !cx.case(|| format!("decisive part {k}")) {
            continue;
        }
        for sh in part {
            toy::set_table(Table::new(sh, false));
            for p in [-1i8, 1] {
                let s = Toy::<true>::start(p, 0);
                let vals: Vec<(u8, i8)> = s.0.edges(true).iter().filter_map(|e| {
                    let t = s.0.moved(e);
                    Some((s.0.label(e), toy_value(&t, 12)? * if t.player == p { 1 } else { -1 }))
                }).collect();
                let best = vals.iter().map(|v| v.1).max().unwrap_or(0);
                if vals.iter().all(|v| v.1 == best) {
                    continue;
                }
                for c in [1.0, 2.0] {
                    for base in [0u64, 6] {
                        let run = Run::with_bounds(&Bounds { base, ..Bounds::full() });
                        let r = run.with(|| mct_search(s, p, &mcts_config(400, c, 8, 0.3, 0.25)));
                        cx.out.traces += 1;
                        let Some(m) = cx.unwrap(r, "decisive-panic", || format!("search of {}", show(sh))) else { return };
                        let v = vals.iter().find(|v| v.0 == m).map(|v| v.1);
                        cx.check(v == Some(best), "decisive", || {
                            format!("in the game {} started by {p} the search (400 iterations, exploration {c}) plays {m} with value {v:?}; the moves are worth {vals:?}", show(sh))
                        });
                        if cx.stop() {
                            return;
                        }
                    }
                }
            }
        }
        cx.tick();
    }
    // (d) decisive moves in tic-tac-toe
    let mut memo = HashMap::new();
    let mut decisive: Vec<(TicTacToe, Vec<u8>, &str)> = vec![];
    for s in ttt_positions() {
        if tttref::winner(&s.board).is_some() {
            continue;
        }
        let p = s.get_player();
        let mut b = s.board;
        let (mut wins, mut ok, mut others) = (vec![], vec![], vec![]);
        let mut atonce = false;
        for i in 0..9u8 {
            if b[i as usize] != 0 {
                continue;
            }
            b[i as usize] = p;
            // an immediate win is there, or a win by force, which is as good
            if -minimax(&mut b, -p, &mut memo) == 1 {
                wins.push(i);
                atonce |= tttref::winner(&b) == Some(p);
            }
            // does the opponent win at once?
            let mut loses = false;
            if tttref::winner(&b).is_none() {
                for j in 0..9 {
                    if b[j] == 0 {
                        b[j] = -p;
                        loses |= tttref::winner(&b) == Some(-p);
                        b[j] = 0;
                    }
                }
            }
            if loses {
                others.push(i);
            } else if -minimax(&mut b, -p, &mut memo) >= 0 {
                ok.push(i);
            } else {
                others.push(i);
            }
            b[i as usize] = 0;
        }
        if atonce && wins.len() < ok.len() + others.len() {
            decisive.push((s, wins, "win"));
        } else if wins.is_empty() && ok.len() == 1 && others.len() + ok.len() > 1 {
            let mut b = s.board;
            let i = ok[0];
            b[i as usize] = -p;
            if tttref::winner(&b) == Some(-p) {
                decisive.push((s, ok, "prevents an immediate loss"));
            }
        }
    }
    let step = if cx.thorough { 1 } else { 3 };
    cx.bound(format!("{} tic-tac-toe positions with a decisive move, 800 iterations", decisive.len() / step));
    let decisive: Vec<_> = decisive.into_iter().step_by(step).collect();
    for (k, part) in decisive.chunks(20).enumerate() {
        if !cx.case(|| format!("tictactoe decisive part {k}")) {
            continue;
        }
        for (s, good, why) in part {
            for base in [2u64, 8] {
                let run = Run::with_bounds(&Bounds { base, ..Bounds::full() });
                let r = run.with(|| mct_search(*s, s.get_player(), &mcts_config(800, 2.0, 9, 0.3, 0.25)));
                cx.out.traces += 1;
                let Some(m) = cx.unwrap(r, "decisive-panic", || format!("search of {:?}", s.board)) else { return };
                cx.check(good.contains(&m), "decisive", || format!("tic-tac-toe {:?}, player {} to move: the search (800 iterations) plays {m}, only {good:?} {why}", s.board, s.get_player()));
            }
            if cx.stop() {
                return;
            }
        }
        cx.tick();
    }
}

// ---------------------------------------------------------------- C12, C13

/// Same position apart from the dice rolled after the move.
pub trait Same {
    fn same(&self, other: &Self) -> bool;
}
impl<const D: bool> Same for Toy<D> {
    fn same(&self, o: &Self) -> bool {
        let (mut a, mut b) = (self.0, o.0);
        a.roll = 0;
        b.roll = 0;
        a == b
    }
}
impl Same for toy::Wide {
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Same for TicTacToe {
    fn same(&self, o: &Self) -> bool {
        self.board == o.board && self.get_player() == o.get_player()
    }
}

/// A search tree as seen from its root: nodes in the order of their paths.
#[derive(Clone, Debug)]
pub struct Tree<T: LearnableGame> {
    pub nodes: Vec<Node<T>>,       // idx, parent and children are rewritten to positions in this vector
}

fn tree_of<T: LearnableGame>(store: &NodeStore<T>, root: usize) -> Tree<T> {
    let mut nodes: Vec<Node<T>> = vec![];
    fn rec<T: LearnableGame>(store: &NodeStore<T>, at: usize, parent: Option<usize>, nodes: &mut Vec<Node<T>>) -> usize {
        let mut n = store.get_node(at);
        let me = nodes.len();
        let kids = std::mem::take(&mut n.children);
        n.idx = me;
        n.parent = parent;
        nodes.push(n);
        let ks: Vec<usize> = kids.into_iter().map(|k| rec(store, k, Some(me), nodes)).collect();
        nodes[me].children = ks;
        me
    }
    rec(store, root, None, &mut nodes);
    Tree { nodes }
}

pub struct Nets<'a> {
    pub net: &'a ResNet,
}

impl Nets<'_> {
    fn eval<T: LearnableGame>(&self, s: &T) -> (Vec<f64>, f64) {
        let _g = tch::no_grad_guard();
        let (p, v) = self.net.forward_t(&s.as_tensor(), false);
        (tensor_vec(&p), tensor_vec(&v)[0])
    }
}

fn score(parent_visits: f64, value: f64, visits: f64, prior: f64, c: f64) -> f64 {
    let q = if visits == 0.0 { 0.0 } else { value / visits };
    q + c * parent_visits.sqrt() / (1.0 + visits) * prior
}

fn legal_priors<T: LearnableGame>(s: &T, policy: &[f64]) -> Vec<(T::Move, f64)> {
    let mv: Vec<(T::Move, f64)> = s.get_valid_moves().into_iter().map(|m| { let p = policy[s.encode(&m) as usize]; (m, p) }).collect();
    let sum: f64 = mv.iter().map(|m| m.1).sum();
    mv.into_iter().map(|(m, p)| (m, p / sum)).collect()
}

/// With a concentration like this the noise is the same for every move, give or take a thousandth.
const EVEN: f64 = 1e6;

/// Root priors with even noise: mixed over all codes before masking, or over the legal moves after it.
fn even_mixes<M>(want: &[(M, f64)], raw: &[(f64, f64)], eps: f64, codes: usize) -> Vec<Vec<f64>> {
    let after: Vec<f64> = want.iter().map(|w| (1.0 - eps) * w.1 + eps / want.len() as f64).collect();
    let before: Vec<f64> = raw.iter().map(|r| (1.0 - eps) * r.0 + eps / codes as f64).collect();
    let sum: f64 = before.iter().sum();
    vec![after, before.into_iter().map(|x| x / sum).collect()]
}

/// The children of a just expanded node.
fn check_children<T: LearnableGame + Same>(cx: &mut Cx, t: &Tree<T>, at: usize, nets: &Nets, alpha: f64, eps: f64, what: &dyn Fn() -> String) -> bool {
    let n = &t.nodes[at];
    let (policy, _) = nets.eval(&n.state);
    let want = legal_priors(&n.state, &policy);
    let kids: Vec<&Node<T>> = n.children.iter().map(|&k| &t.nodes[k]).collect();
    let mut ok = kids.len() == want.len();
    for (m, _) in &want {
        ok &= kids.iter().filter(|k| k.action_taken.as_ref() == Some(m)).count() == 1;
    }
    if !cx.check(ok, "children", || format!("node {:?} has children for {:?}, legal are {:?}, in {}", n.state, kids.iter().map(|k| k.action_taken.clone()).collect::<Vec<_>>(), want, what())) {
        return false;
    }
    for k in &kids {
        let mut s = n.state;
        s.apply_move(k.action_taken.as_ref().unwrap());
        if !cx.check(s.same(&k.state), "child-state", || format!("the child by {:?} of {:?} holds {:?} instead of {s:?} in {}", k.action_taken, n.state, k.state, what())) {
            return false;
        }
    }
    let prior = |m: &T::Move| kids.iter().find(|k| k.action_taken.as_ref() == Some(m)).unwrap().policy as f64;
    if want.is_empty() {
        return true;
    }
    let sum: f64 = want.iter().map(|(m, _)| prior(m)).sum();
    if !cx.check((sum - 1.0).abs() < 1e-3, "prior-sum", || format!("the priors at {:?} sum to {sum} in {}", n.state, what())) {
        return false;
    }
    if eps == 0.0 {
        for (m, p) in &want {
            let got = prior(m);
            if !cx.check((got - p).abs() < 1e-3, "prior", || format!("the prior of {m:?} at {:?} is {got}, the normalised network policy is {p}, in {}", n.state, what())) {
                return false;
            }
        }
    } else {
        // Two documented ways of mixing: noise over all codes before masking, or over the legal moves after it. Either way
        // prior * S = (1-eps)*p + eps*noise with noise >= 0 and total at most 1.
        let raw: Vec<(f64, f64)> = want.iter().map(|(m, _)| (policy[n.state.encode(m) as usize], prior(m))).collect();
        let lo = raw.iter().map(|(p, g)| (1.0 - eps) * p / g.max(1e-12)).fold(0.0, f64::max);
        let hi = (1.0 - eps) * raw.iter().map(|r| r.0).sum::<f64>() + eps;
        let lo2 = want.iter().map(|(m, p)| (1.0 - eps) * p / prior(m).max(1e-12)).fold(0.0, f64::max);
        if !cx.check(lo <= hi + 1e-3 || lo2 <= 1.0 + 1e-3, "noise-share", || format!("the root priors {raw:?} (network, got) cannot be a mix with share {eps} of noise, in {}", what())) {
            return false;
        }
        if alpha >= EVEN {
            let got: Vec<f64> = raw.iter().map(|r| r.1).collect();
            let ways = even_mixes(&want, &raw, eps, policy.len());
            if !cx.check(ways.iter().any(|w| w.iter().zip(&got).all(|(x, y)| (x - y).abs() < 0.02 * x + 1e-5)), "even-noise", || format!("the root priors {got:?} are no mix of the network's {raw:?} with a share {eps} of even noise (expected {ways:?}) in {}", what())) {
                return false;
            }
        }
        if raw.len() > 1 {
            let differs = want.iter().any(|(m, p)| (prior(m) - p).abs() > 1e-7);
            if !cx.check(differs, "no-noise", || format!("the root priors {:?} carry no noise although its share is {eps}, in {}", want, what())) {
                return false;
            }
        }
    }
    true
}

/// One simulation: `a` before, `b` after it.
fn check_step<T: LearnableGame + Same>(cx: &mut Cx, a: &Tree<T>, b: &Tree<T>, nets: &Nets, c: f64, what: &dyn Fn() -> String) -> bool {
    let me = a.nodes[0].state.get_player();
    // pair the nodes
    let mut pair: Vec<usize> = vec![usize::MAX; a.nodes.len()];
    pair[0] = 0;
    let mut fresh_parent = None;
    for i in 0..a.nodes.len() {
        let (x, y) = (&a.nodes[i], &b.nodes[pair[i]]);
        let same = x.state.same(&y.state) && x.action_taken == y.action_taken && x.policy == y.policy;
        if !cx.check(same, "node-changed", || format!("a simulation changes an existing node from {x:?} to {y:?} in {}", what())) {
            return false;
        }
        if x.children.is_empty() {
            if !y.children.is_empty() {
                if !cx.check(fresh_parent.is_none(), "two-expansions", || format!("one simulation expands two nodes in {}", what())) {
                    return false;
                }
                fresh_parent = Some(i);
            }
            continue;
        }
        if !cx.check(x.children.len() == y.children.len(), "children-changed", || format!("a simulation changes the children of an expanded node in {}", what())) {
            return false;
        }
        for &k in &x.children {
            let hit = y.children.iter().find(|&&l| b.nodes[l].action_taken == a.nodes[k].action_taken);
            match hit {
                Some(&l) => pair[k] = l,
                None => {
                    cx.fail("children-changed", format!("a simulation replaces a move of an expanded node in {}", what()));
                    return false;
                }
            }
        }
    }
    // the path
    let mut path = vec![0usize];
    loop {
        let n = &a.nodes[*path.last().unwrap()];
        let next: Vec<usize> = n.children.iter().copied().filter(|&k| b.nodes[pair[k]].visits != a.nodes[k].visits).collect();
        match next.len() {
            0 => break,
            1 => path.push(next[0]),
            _ => {
                cx.fail("two-paths", format!("one simulation visits two children of {:?} in {}", n.state, what()));
                return false;
            }
        }
    }
    let leaf = *path.last().unwrap();
    let on: HashSet<usize> = path.iter().copied().collect();
    for i in 0..a.nodes.len() {
        let dv = b.nodes[pair[i]].visits - a.nodes[i].visits;
        let want = on.contains(&i) as i32 as f32;
        if !cx.check(dv == want, "visits", || format!("one simulation adds {dv} visits to {:?} ({} its path) in {}", a.nodes[i].state, if want == 1.0 { "on" } else { "off" }, what())) {
            return false;
        }
    }
    if !cx.check(a.nodes[leaf].children.is_empty(), "stops-early", || format!("a simulation stops at the expanded node {:?} in {}", a.nodes[leaf].state, what())) {
        return false;
    }
    // descends by the highest score
    for w in path.windows(2) {
        let n = &a.nodes[w[0]];
        let sc: Vec<(f64, usize)> = n.children.iter().map(|&k| { let k_ = &a.nodes[k]; (score(n.visits as f64, k_.value as f64, k_.visits as f64, k_.policy as f64, c), k) }).collect();
        let best = sc.iter().map(|s| s.0).fold(f64::NEG_INFINITY, f64::max);
        let got = sc.iter().find(|s| s.1 == w[1]).unwrap().0;
        if !cx.check(got >= best - 1e-4, "selection", || format!("at {:?} the simulation takes {:?} with score {got}, the best score is {best} (scores {sc:?}) in {}", n.state, a.nodes[w[1]].action_taken, what())) {
            return false;
        }
    }
    // evaluation
    let s = a.nodes[leaf].state;
    let value = match s.check_winner() {
        Some(w) => {
            if !cx.check(fresh_parent.is_none(), "expands-finished", || format!("a simulation expands a finished game in {}", what())) {
                return false;
            }
            if w == me { 1.0 } else if w == -me { -1.0 } else { 0.0 }
        }
        None => {
            let legal = s.get_valid_moves().len();
            if !cx.check(fresh_parent == (legal > 0).then_some(leaf), "expansion", || format!("a simulation reaching {s:?} expands {fresh_parent:?} in {}", what())) {
                return false;
            }
            if legal > 0 {
                for &k in &b.nodes[pair[leaf]].children {
                    let k = &b.nodes[k];
                    if !cx.check(k.visits == 0.0 && k.value == 0.0 && k.children.is_empty(), "fresh-child", || format!("a new node starts with {} visits and value {} in {}", k.visits, k.value, what())) {
                        return false;
                    }
                }
                if !check_children(cx, b, pair[leaf], nets, 1.0, 0.0, what) {
                    return false;
                }
            }
            let v = nets.eval(&s).1;
            if s.get_player() == me { v } else { -v }
        }
    };
    for i in 1..a.nodes.len() {
        let p = a.nodes[i].parent.unwrap();
        let dq = (b.nodes[pair[i]].value - a.nodes[i].value) as f64;
        let want = if !on.contains(&i) { 0.0 } else if a.nodes[p].state.get_player() == me { value } else { -value };
        if !cx.check((dq - want).abs() < 1e-3, "value", || {
            format!("a simulation ending at {s:?} (worth {value:.4} to player {me}) adds {dq:.4} to {:?}, moved to by {}, expected {want:.4}, in {}", a.nodes[i].state, a.nodes[p].state.get_player(), what())
        }) {
            return false;
        }
    }
    true
}

/// Runs the batched search with n simulations; deterministic given n's random tape.
pub fn batch<T: LearnableGame>(states: &[T], net: &ResNet, n: usize, c: f64, alpha: f64, eps: f64, base: u64) -> Result<Vec<Tree<T>>, crate::explore::Fail> {
    let cfg = mcts_config(n, c, 5, alpha, eps);
    let mut run = Run::with_bounds(&Bounds { base, ..Bounds::full() });
    run.raw_seed = base + 1;
    struct Share<'a>(&'a ResNet);
    unsafe impl Send for Share<'_> {}
    unsafe impl Sync for Share<'_> {}
    let sh = Share(net);
    let sh = &sh;
    let states = states.to_vec();
    run.with_fresh(move || {
        let net = sh;
        let mut store = NodeStore::new();
        alpha_mcts_parallel(&mut store, &states, net.0, &cfg, None);
        (0..states.len()).map(|i| tree_of(&store, i)).collect()
    })
}

#[allow(clippy::too_many_arguments)]
pub fn check_batch<T: LearnableGame + Same + Send + Sync>(cx: &mut Cx, states: &[T], nets: &Nets, nmax: usize, c: f64, alpha: f64, eps: f64, base: u64, what: &dyn Fn() -> String) {
    check_batch_from(cx, states, nets, 0..=nmax, c, alpha, eps, base, what)
}

/// The same for a range of simulation counts.
#[allow(clippy::too_many_arguments)]
pub fn check_batch_from<T: LearnableGame + Same + Send + Sync>(cx: &mut Cx, states: &[T], nets: &Nets, range: std::ops::RangeInclusive<usize>, c: f64, alpha: f64, eps: f64, base: u64, what: &dyn Fn() -> String) {
    let mut prev: Option<Vec<Tree<T>>> = None;
    for n in range {
        let r = batch(states, nets.net, n, c, alpha, eps, base);
        cx.out.traces += 1;
        let Some(ts) = cx.unwrap(r, "panic", || format!("batched search of {states:?} with {n} simulations in {}", what())) else { return };
        for (g, t) in ts.iter().enumerate() {
            let w = || format!("game {g} of {states:?}, simulation {n}, exploration {c}, noise {eps}: {}", what());
            if !cx.check(t.nodes[0].state.same(&states[g]), "root", || format!("root {g} holds {:?} in {}", t.nodes[0].state, w())) {
                return;
            }
            let finished = states[g].check_winner().is_some();
            match &prev {
                None => {
                    if !finished && n == 0 {
                        if !check_children(cx, t, 0, nets, alpha, eps, &w) {
                            return;
                        }
                        if !cx.check(t.nodes[1..].iter().all(|n| n.visits == 0.0 && n.value == 0.0), "start", || format!("a search of no simulations has visits in {}", w())) {
                            return;
                        }
                    }
                }
                Some(p) if !finished => {
                    if !check_step(cx, &p[g], t, nets, c, &w) {
                        return;
                    }
                    let kids: f32 = t.nodes[0].children.iter().map(|&k| t.nodes[k].visits).sum();
                    if !t.nodes[0].children.is_empty() && !cx.check(kids == n as f32, "total", || format!("{n} simulations put {kids} visits on the root's moves in {}", w())) {
                        return;
                    }
                }
                _ => {}
            }
            cx.out.states += t.nodes.len() as u64;
            cx.out.transitions += 1;
        }
        prev = Some(ts);
        cx.tick();
    }
}

/// Starting positions for batches: the nodes of a game in which no move is forced to come from the root.
fn starts<const D: bool>(n: usize) -> Vec<Toy<D>> {
    (0..n)
        .map(|i| {
            let mut s = Toy::<D>::start(if i % 2 == 0 { -1 } else { 1 }, i as u32);
            s.0.node = i as u16;
            s.0.last = -s.0.player;
            s.0.depth = (i > 0) as u16;
            s
        })
        .collect()
}

pub fn c12(cx: &mut Cx) {
    let tn = net::<Toy<true>>(11);
    let nets = Nets { net: &tn };
    let mut shapes = toy::t2(2);
    shapes.extend(toy::endless());
    shapes.extend(toy::t3(2).into_iter().step_by(if cx.thorough { 5 } else { 150 }));
    let nmax = if cx.thorough { 24 } else { 10 };
    cx.bound(format!("{} small games: batch of one, every simulation from 1 to {nmax} checked against the tree before it, exploration 0.5 and 4, root noise 0 and 0.25 and 1", shapes.len()));
    for sh in &shapes {
        if cx.case(|| format!("solo {}", show(sh))) {
            toy::set_table(Table::new(sh, false));
            for (c, eps, base) in [(0.5, 0.0, 0u64), (4.0, 0.25, 2), (2.0, 1.0, 3)] {
                check_batch(cx, &[Toy::<true>::start(if base == 2 { 1 } else { -1 }, 0)], &nets, nmax, c, 0.3, eps, base, &|| format!("the game {}", show(sh)));
                if cx.stop() {
                    return;
                }
            }
            check_batch(cx, &[Toy::<false>::start(-1, 0)], &nets, nmax, 2.0, 0.5, 0.0, 7, &|| format!("the game {} with dice", show(sh)));
        }
    }
    cx.bound("networks with strong opinions (priors far below a thousandth, values near one): every third game, 14 simulations");
    for (k, sh) in shapes.iter().enumerate().step_by(if cx.thorough { 1 } else { 3 }) {
        if cx.case(|| format!("sharp {}", show(sh))) {
            toy::set_table(Table::new(sh, false));
            for gain in [20.0, 60.0] {
                let sn = sharp::<Toy<true>>(5 + k as i64, gain);
                let sn = Nets { net: &sn };
                check_batch(cx, &[Toy::<true>::start(1, 0)], &sn, 14, 2.0, 0.3, 0.0, 0, &|| format!("the game {} with a network of gain {gain}", show(sh)));
                check_batch(cx, &[Toy::<true>::start(-1, 0)], &sn, 14, 20.0, 0.3, 0.25, 2, &|| format!("the game {} with a network of gain {gain}", show(sh)));
            }
            if cx.stop() {
                return;
            }
        }
    }
    cx.bound("batches of all nodes of a game (finished ones included) and of its first three");
    for sh in shapes.iter().step_by(if cx.thorough { 1 } else { 3 }) {
        if cx.case(|| format!("batch {}", show(sh))) {
            toy::set_table(Table::new(sh, false));
            let n = toy::table().nodes.len();
            for (k, eps) in [(n.min(3), 0.0), (n, 0.25)] {
                check_batch(cx, &starts::<true>(k), &nets, nmax.min(8), 2.0, 0.3, eps, 1, &|| format!("the game {}", show(sh)));
            }
            if cx.stop() {
                return;
            }
        }
    }
    cx.bound("games of 12 to 64 moves at once: 20 simulations, batches of one and two");
    for n in [12u8, 17, 33, 64] {
        if cx.case(|| format!("wide {n}")) {
            let wn = net::<toy::Wide>(8);
            check_batch(cx, &[toy::Wide::of(n, n - 2, 1)], &Nets { net: &wn }, 20, 2.0, 0.3, 0.0, 0, &|| format!("a game of {n} moves at once"));
            check_batch(cx, &[toy::Wide::of(n, 3, -1), toy::Wide::of(n - 1, 9, 1)], &Nets { net: &wn }, 20, 6.0, 0.3, 0.25, 2, &|| format!("games of {n} and {} moves at once", n - 1));
        }
    }
    cx.bound("long games (30 to 1000 forced turns, or with a way out at every turn): 48 simulations one by one, simulations 254 to 259 and 299 to 301, and the number of positions that up to 600 simulations look at");
    for (len, pass, ladder) in [(30usize, 0usize, false), (60, 0, false), (60, 5, false), (40, 0, true), (300, 0, false), (300, 0, true), (1000, 0, false)] {
        if cx.case(|| format!("long {len} {pass} {ladder}")) {
            let sh = if ladder { toy::ladder(len, 0, Shape::End(1)) } else { toy::chain(len, pass, Shape::End(1)) };
            toy::set_table(Table::new(&sh, false));
            let what = || format!("a game of {len} turns{}{}", if pass > 0 { format!(", every {pass}-th a pass") } else { String::new() }, if ladder { ", which may end at each" } else { "" });
            check_batch(cx, &[Toy::<true>::start(1, 0)], &nets, 48, 2.0, 0.3, 0.25, 2, &what);
            check_batch(cx, &starts::<true>(2), &nets, 32, 0.5, 0.3, 0.0, 0, &what);
            for r in [254..=259usize, 299..=301] {
                check_batch_from(cx, &[Toy::<true>::start(-1, 0)], &nets, r.clone(), 2.0, 0.3, 0.0, 0, &what);
                check_batch_from(cx, &starts::<true>(3), &nets, r, 3.0, 0.3, 0.0, 0, &what);
            }
            if cx.stop() {
                return;
            }
        }
    }
    for n in [1usize, 15, 16, 17, 100, 255, 256, 257, 300, 600] {
        if cx.case(|| format!("count {n}")) {
            let sh = toy::chain(1000, 0, Shape::End(1));
            toy::set_table(Table::new(&sh, false));
            for serial in [true, false] {
                toy::spy_start();
                let s = Toy::<true>::start(-1, 0);
                let r = if serial {
                    Run::default_run().with(|| {
                        alpha_mcts(&s, nets.net, &mcts_config(n, 2.0, 5, 0.3, 0.0));
                    })
                } else {
                    batch(&[s], nets.net, n, 2.0, 0.3, 0.0, 0).map(|_| ())
                };
                let seen: HashSet<u16> = toy::spy_take().iter().map(|e| e.after.node).collect();
                cx.out.traces += 1;
                if cx.unwrap(r, "panic", || format!("search of a long game with {n} simulations")).is_none() {
                    return;
                }
                // the root's child and one more position for every simulation
                cx.check(seen.len() == n || seen.len() == n + 1, "simulations", || {
                    format!("the {} search of a game of 1000 forced moves, set to {n} simulations, looks at {} positions below the root", if serial { "serial" } else { "batched" }, seen.len())
                });
                cx.tick();
            }
        }
    }
    cx.bound("tic-tac-toe: batches of five positions at every stage, 12 simulations");
    let ttt: Vec<TicTacToe> = ttt_positions().into_iter().filter(|s| tttref::winner(&s.board).is_none()).collect();
    let picks: Vec<TicTacToe> = ttt.iter().copied().step_by(if cx.thorough { 40 } else { 190 }).collect();
    for (k, part) in picks.chunks(5).enumerate() {
        if cx.case(|| format!("tictactoe batch {k}")) {
            let n = net::<TicTacToe>(6);
            check_batch(cx, part, &Nets { net: &n }, if cx.thorough { 20 } else { 8 }, 2.0, 0.3, if k % 2 == 0 { 0.0 } else { 0.25 }, 4, &|| "tic-tac-toe".into());
        }
    }
    noisy(cx);
    // the serial search answers with the shares of the same statistics
    cx.bound("the serial search against the batched one: same visit shares without noise (skipped where scores nearly tie)");
    for sh in &shapes {
        if cx.case(|| format!("serial {}", show(sh))) {
            toy::set_table(Table::new(sh, false));
            for n in [1usize, 2, 5, 11] {
                for c in [0.7, 2.0] {
                    for p in [-1i8, 1] {
                        let s = Toy::<true>::start(p, 0);
                        let Some(reference) = reference_search(&nets, &s, n, c, true) else {
                            cx.out.undecided += 1;
                            continue;
                        };
                        let r = Run::default_run().with(|| alpha_mcts(&s, nets.net, &mcts_config(n, c, 5, 0.3, 0.0)).map(|t| tensor_vec(&t)));
                        cx.out.traces += 1;
                        let Some(pi) = cx.unwrap(r, "panic", || format!("serial search of {}", show(sh))) else { return };
                        let want = shares(&s, &reference);
                        let ok = match (&pi, &want) {
                            (None, None) => true,
                            (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() < 1e-4),
                            _ => false,
                        };
                        cx.check(ok, "serial", || format!("the serial search of {} started by {p} with {n} simulations, exploration {c}, answers {pi:?}; the visit shares are {want:?}", show(sh)));
                    }
                }
            }
            if cx.stop() {
                return;
            }
        }
    }
}

/// Root noise in both searches. Where every move ends the game and the exploration constant drowns the values, the visits
/// tell the priors.
fn noisy(cx: &mut Cx) {
    cx.bound("root noise of 2 to 33 moves: even noise (concentration 1e6) with shares 0, 0.25, 0.5 and 1 in both searches, the noise of every move in 12 serial searches");
    for n in [2u8, 3, 5, 12, 33] {
        if !cx.case(|| format!("noise on {n} moves")) {
            continue;
        }
        let wn = net::<toy::Wide>(9);
        let nets = Nets { net: &wn };
        let mut s = toy::Wide::of(n, 0, 1);
        s.stage = 1;
        s.player = -1;
        let (policy, _) = nets.eval(&s);
        let want = legal_priors(&s, &policy);
        let raw: Vec<(f64, f64)> = want.iter().map(|(m, _)| (policy[s.encode(m) as usize], 0.0)).collect();
        let sims = 30 * n as usize;
        let share = |cx: &mut Cx, alpha: f64, eps: f64, base: u64| -> Option<Vec<f64>> {
            let mut run = Run::with_bounds(&Bounds { base, ..Bounds::full() });
            run.raw_seed = base;
            let r = run.with(|| alpha_mcts(&s, nets.net, &mcts_config(sims, 1e5, 5, alpha, eps)).map(|t| tensor_vec(&t)));
            cx.out.traces += 1;
            let pi = cx.unwrap(r, "panic", || format!("a serial search among {n} moves with noise of concentration {alpha} and share {eps}"))?;
            if !cx.check(pi.is_some(), "no-answer", || format!("a serial search among {n} moves has no answer")) {
                return None;
            }
            let pi = pi.unwrap();
            Some(want.iter().map(|(m, _)| pi[s.encode(m) as usize]).collect())
        };
        for eps in [0.0, 0.25, 0.5, 1.0] {
            let what = || format!("a game of {n} last moves");
            if eps > 0.0 {
                check_batch(cx, &[s, toy::Wide::of(n, 1, 1)], &nets, 3, 1e5, EVEN, eps, 6, &what);
            }
            let Some(got) = share(cx, EVEN, eps, 4) else { return };
            let ways: Vec<Vec<f64>> = even_mixes(&want, &raw, eps, policy.len()).iter().map(|w| apportion(w, sims)).collect();
            let ok = ways.iter().any(|w| w.iter().zip(&got).all(|(x, y)| (x - y * sims as f64).abs() <= 2.0 + 0.02 * x));
            cx.check(ok, "even-noise", || format!("a serial search among {n} moves with a share {eps} of even noise visits them {got:?} (shares of {sims}); expected {ways:?} visits"));
        }
        // every move gets its part of the noise, which is another one in every search
        for eps in [0.5, 1.0] {
            let mut all = vec![];
            for base in 1..=12 {
                let Some(v) = share(cx, 0.3, eps, base) else { return };
                for (i, x) in v.iter().enumerate() {
                    // (mixing before masking divides by one at most)
                    let least = (1.0 - eps) * raw[i].0 * sims as f64;
                    cx.check(x * sims as f64 >= least.floor() - 1.0, "noise-share", || {
                        format!("a serial search among {n} moves with a share {eps} of noise gives move {i} (prior {}) the share {x}", want[i].1)
                    });
                }
                all.push(v);
            }
            for i in 0..want.len() {
                let differs = all.iter().any(|v| v[i] != all[0][i]);
                cx.check(differs, "same-noise", || format!("12 serial searches among {n} moves with a share {eps} of noise of concentration 0.3 all visit move {i} alike ({})", all[0][i]));
            }
        }
        cx.out.states += 1;
        if cx.stop() {
            return;
        }
    }
}

/// The visits of moves that are picked `n` times by the largest prior / (1 + visits).
fn apportion(prior: &[f64], n: usize) -> Vec<f64> {
    let mut v = vec![0.0; prior.len()];
    for _ in 0..n {
        let k = (0..v.len()).max_by(|&a, &b| (prior[a] / (1.0 + v[a])).total_cmp(&(prior[b] / (1.0 + v[b])))).unwrap();
        v[k] += 1.0;
    }
    v
}

/// Reference search tree without noise: (move, visits) per root child, and all statistics by path.
struct RefNode<T: LearnableGame> {
    state: T,
    mv: Option<T::Move>,
    visits: f64,
    value: f64,
    prior: f64,
    children: Vec<RefNode<T>>,
}

fn expand_ref<T: LearnableGame>(nets: &Nets, n: &mut RefNode<T>) -> f64 {
    let (p, v) = nets.eval(&n.state);
    n.children = legal_priors(&n.state, &p)
        .into_iter()
        .map(|(m, prior)| {
            let mut s = n.state;
            s.apply_move(&m);
            RefNode { state: s, mv: Some(m), visits: 0.0, value: 0.0, prior, children: vec![] }
        })
        .collect();
    v
}

/// The statistics after n simulations, or None if a decision was too close to call in floating point.
fn reference_search<T: LearnableGame>(nets: &Nets, s: &T, n: usize, c: f64, _serial: bool) -> Option<RefNode<T>> {
    let mut root = RefNode { state: *s, mv: None, visits: 1.0, value: 0.0, prior: 0.0, children: vec![] };
    if s.check_winner().is_some() {
        return Some(root);
    }
    expand_ref(nets, &mut root);
    let me = s.get_player();
    fn sim<T: LearnableGame>(nets: &Nets, n: &mut RefNode<T>, c: f64, me: i8) -> Option<f64> {
        n.visits += 1.0;
        if let Some(w) = n.state.check_winner() {
            return Some(if w == me { 1.0 } else if w == -me { -1.0 } else { 0.0 });
        }
        if n.children.is_empty() {
            let v = expand_ref(nets, n);
            return Some(if n.state.get_player() == me { v } else { -v });
        }
        let pv = n.visits - 1.0;
        let sc: Vec<f64> = n.children.iter().map(|k| score(pv, k.value, k.visits, k.prior, c)).collect();
        let best = (0..sc.len()).max_by(|&a, &b| sc[a].total_cmp(&sc[b])).unwrap();
        if (0..sc.len()).any(|i| i != best && sc[best] - sc[i] < 1e-4) {
            return None;
        }
        let mover = n.state.get_player();
        let v = sim(nets, &mut n.children[best], c, me)?;
        n.children[best].value += if mover == me { v } else { -v };
        Some(v)
    }
    for _ in 0..n {
        sim(nets, &mut root, c, me)?;
    }
    Some(root)
}

/// Whether n simulations are decided clearly at every step.
pub fn decided<T: LearnableGame>(nets: &Nets, s: &T, n: usize, c: f64) -> bool {
    reference_search(nets, s, n, c, false).is_some()
}

fn shares<T: LearnableGame>(s: &T, r: &RefNode<T>) -> Option<Vec<f64>> {
    if r.children.is_empty() {
        return None;
    }
    let total: f64 = r.children.iter().map(|k| k.visits).sum();
    let mut v = vec![0.0; T::ACTION_SPACE_SIZE as usize];
    for k in &r.children {
        v[s.encode(k.mv.as_ref().unwrap()) as usize] = k.visits / total;
    }
    Some(v)
}

/// Two trees of the same game, node by node.
fn compare_trees<T: LearnableGame + Same>(t: &Tree<T>, at: usize, r: &Tree<T>, rat: usize) -> Result<(), String> {
    let (n, m) = (&t.nodes[at], &r.nodes[rat]);
    if n.visits != m.visits || (n.value - m.value).abs() > 1e-2 || (n.policy - m.policy).abs() > 1e-3 {
        return Err(format!("{:?}: visits {} value {:.3} prior {:.3}, alone it has visits {} value {:.3} prior {:.3}", n.state, n.visits, n.value, n.policy, m.visits, m.value, m.policy));
    }
    if n.children.len() != m.children.len() {
        return Err(format!("{:?} has {} children, alone it has {}", n.state, n.children.len(), m.children.len()));
    }
    for &k in &m.children {
        let mv = &r.nodes[k].action_taken;
        let Some(&l) = n.children.iter().find(|&&l| t.nodes[l].action_taken == *mv) else {
            return Err(format!("{:?} lacks the move {mv:?}", n.state));
        };
        if !t.nodes[l].state.same(&r.nodes[k].state) {
            return Err(format!("the child of {:?} by {mv:?} holds {:?}", n.state, t.nodes[l].state));
        }
        compare_trees(t, l, r, k)?;
    }
    Ok(())
}

pub fn c13(cx: &mut Cx) {
    let tn = net::<Toy<true>>(21);
    let nets = Nets { net: &tn };
    let mut shapes: Vec<Shape> = toy::t2(2).into_iter().filter(|s| matches!(s, Shape::Node(v) if v.len() > 1)).collect();
    shapes.extend(toy::endless());
    let take = if cx.thorough { 1 } else { 5 };
    let len = 3;
    let n_list: &[usize] = if cx.thorough { &[1, 2, 4, 9, 16] } else { &[1, 3, 8] };
    cx.bound(format!("{} small games, all ordered batches of up to {len} of up to four of their positions (repetitions and finished ones included), {n_list:?} simulations, three hash orders", shapes.len() / take));
    for sh in shapes.iter().step_by(take) {
        if !cx.case(|| format!("batches {}", show(sh))) {
            continue;
        }
        toy::set_table(Table::new(sh, false));
        let all = starts::<true>(toy::table().nodes.len());
        // one position of each kind: undecided, passing, finished
        let mut pool: Vec<Toy<true>> = vec![];
        for kind in 0..3 {
            for s in &all {
                let k = if s.check_winner().is_some() { 2 } else if s.get_valid_moves().is_empty() { 1 } else { 0 };
                if k == kind && pool.iter().filter(|p| (if p.check_winner().is_some() { 2 } else if p.get_valid_moves().is_empty() { 1 } else { 0 }) == kind).count() < 2 - kind / 2 {
                    pool.push(*s);
                }
            }
        }
        pool.truncate(4);
        for &n in n_list {
            let c = 2.0;
            let refs: Vec<Option<RefNode<Toy<true>>>> = pool.iter().map(|s| reference_search(&nets, s, n, c, false)).collect();
            // alone: the yardstick
            let mut alone: Vec<Option<Tree<Toy<true>>>> = vec![];
            for (i, s) in pool.iter().enumerate() {
                if s.check_winner().is_some() || refs[i].is_none() {
                    alone.push(None);
                    continue;
                }
                let r = batch(&[*s], nets.net, n, c, 0.3, 0.0, 0);
                cx.out.traces += 1;
                let Some(ts) = cx.unwrap(r, "panic", || format!("search of {s:?} in {}", show(sh))) else { return };
                alone.extend(ts.into_iter().map(Some));
            }
            // together: all ordered batches
            let k = pool.len();
            for l in 2..=len {
                for code in 0..k.pow(l as u32) {
                    let mut x = code;
                    let idx: Vec<usize> = (0..l).map(|_| { let i = x % k; x /= k; i }).collect();
                    let states: Vec<Toy<true>> = idx.iter().map(|&i| pool[i]).collect();
                    let r = batch(&states, nets.net, n, c, 0.3, 0.0, (code % 3) as u64);
                    cx.out.traces += 1;
                    let Some(ts) = cx.unwrap(r, "panic", || format!("search of {states:?} with {n} simulations in {}", show(sh))) else { return };
                    for (g, &i) in idx.iter().enumerate() {
                        cx.out.transitions += 1;
                        if states[g].check_winner().is_some() {
                            continue;
                        }
                        match &alone[i] {
                            None => cx.out.undecided += 1,
                            Some(r) => {
                                cx.out.states += 1;
                                if let Err(e) = compare_trees(&ts[g], 0, r, 0) {
                                    cx.fail("together", format!("games {states:?} searched together with {n} simulations in {}: game {g} differs: {e}", show(sh)));
                                    return;
                                }
                            }
                        }
                    }
                }
            }
            cx.tick();
        }
    }
    cx.bound("batches of 40 to 1100 games together against each alone, 1 and 4 simulations");
    for (k, len) in [40usize, 100, 127, 129, 200, 255, 256, 257, 258, 300, 513, 700, 1025, 1100].into_iter().enumerate() {
        if !cx.case(|| format!("crowd {len}")) {
            continue;
        }
        let mine: Vec<&Shape> = shapes.iter().skip(k * 7).step_by(shapes.len() / 6).collect();
        for sh in mine.into_iter().take(if cx.thorough { 6 } else { 2 }) {
            toy::set_table(Table::new(sh, false));
            let nodes = toy::table().nodes.len();
            let all = starts::<true>(nodes);
            for n in [1usize, 4] {
                let mut alone: Vec<Option<Tree<Toy<true>>>> = vec![];
                for s in &all {
                    if s.check_winner().is_some() || !decided(&nets, s, n, 2.0) {
                        alone.push(None);
                        continue;
                    }
                    let r = batch(&[*s], nets.net, n, 2.0, 0.3, 0.0, 0);
                    let Some(ts) = cx.unwrap(r, "panic", || format!("search of {s:?} in {}", show(sh))) else { return };
                    alone.extend(ts.into_iter().map(Some));
                }
                // an order without a period dividing a power of two, so that a mixed-up game is a different one
                let idx: Vec<usize> = (0..len).map(|i| (crate::explore::mix(i as u64 / 3 + len as u64) as usize + i) % nodes).collect();
                let states: Vec<Toy<true>> = idx.iter().map(|&i| all[i]).collect();
                let r = batch(&states, nets.net, n, 2.0, 0.3, 0.0, 0);
                cx.out.traces += 1;
                let Some(ts) = cx.unwrap(r, "panic", || format!("search of {len} games with {n} simulations in {}", show(sh))) else { return };
                for (g, &i) in idx.iter().enumerate() {
                    cx.out.transitions += 1;
                    if states[g].check_winner().is_some() {
                        continue;
                    }
                    match &alone[i] {
                        None => cx.out.undecided += 1,
                        Some(r) => {
                            cx.out.states += 1;
                            if let Err(e) = compare_trees(&ts[g], 0, r, 0) {
                                cx.fail("together", format!("{len} games searched together with {n} simulations in {}: game {g} ({:?}) differs: {e}", show(sh), states[g]));
                                return;
                            }
                        }
                    }
                }
                cx.tick();
            }
        }
    }
    cx.bound("tic-tac-toe: batches of up to 6 positions from every stage of the game, in both orders");
    let ttt: Vec<TicTacToe> = ttt_positions();
    let picks: Vec<TicTacToe> = ttt.iter().copied().step_by(if cx.thorough { 60 } else { 240 }).collect();
    for (k, part) in picks.chunks(6).enumerate() {
        if cx.case(|| format!("tictactoe batch {k}")) {
            let nn = net::<TicTacToe>(7);
            let nets = Nets { net: &nn };
            let n = if cx.thorough { 20 } else { 8 };
            let mut rev = part.to_vec();
            rev.reverse();
            for states in [part.to_vec(), rev] {
                let r = batch(&states, nets.net, n, 2.0, 0.3, 0.0, 0);
                cx.out.traces += 1;
                let Some(ts) = cx.unwrap(r, "panic", || format!("search of {states:?}")) else { return };
                for (g, s) in states.iter().enumerate() {
                    if s.check_winner().is_some() {
                        continue;
                    }
                    match reference_search(&nets, s, n, 2.0, false) {
                        None => cx.out.undecided += 1,
                        Some(_) => {
                            cx.out.states += 1;
                            let r = batch(&[*s], nets.net, n, 2.0, 0.3, 0.0, 0);
                            cx.out.traces += 1;
                            let Some(alone) = cx.unwrap(r, "panic", || format!("search of {s:?}")) else { return };
                            if let Err(e) = compare_trees(&ts[g], 0, &alone[0], 0) {
                                cx.fail("together", format!("tic-tac-toe games {:?} searched together: game {g} differs: {e}", states.iter().map(|s| s.board).collect::<Vec<_>>()));
                                return;
                            }
                        }
                    }
                    cx.out.transitions += 1;
                }
                cx.tick();
            }
        }
    }
}
