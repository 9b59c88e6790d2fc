//! C01..C08: the games themselves.
use crate::bgref::{self, Play, Pos};
use crate::cx::Cx;
use crate::explore::{catch, dfs, Bounds, Fail};
use crate::families::{self, ROLLS21, ROLLS36};
use crate::tttref;
use die_e::backgammon::backgammon_logic::{Actions, Backgammon, Board};
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use std::collections::{HashMap, HashSet};

pub fn state(b: &Board, player: i8, roll: (u8, u8), second: bool) -> Backgammon {
    let mut s = Backgammon::init_with_fields(*b, player, second);
    s.roll = roll;
    s
}

fn describe(b: &Board, player: i8, roll: (u8, u8)) -> String {
    format!("board {:?} bar {:?} off {:?} player {player} roll {roll:?}", b.0, b.1, b.2)
}

/// Positions of all families up to the tier's bounds; `scale` 0 = small, 1 = quick, 2 = thorough.
fn positions(cx: &mut Cx, scale: usize, f: &mut impl FnMut(&mut Cx, &Pos, Option<i8>)) {
    let mut g = |cx: &mut Cx, p: &Pos| f(cx, p, None);
    match scale {
        0 => {
            cx.bound("sparse positions: 1 own checker (bar included), at most 2 opposing points with 1 or 2 checkers; 2 own checkers, at most 1 opposing point");
            families::sparse(cx, 1, 2, false, 0, &mut g);
            families::sparse(cx, 2, 1, false, 1, &mut g);
        }
        1 => {
            cx.bound("sparse positions: at most 2 own checkers anywhere (bar included) against at most 2 opposing points with 1 or 2 checkers; 1 own checker against at most 3 blocks; 3 own checkers against at most 1 opposing point");
            families::sparse(cx, 2, 2, false, 0, &mut g);
            families::sparse(cx, 1, 3, true, 1, &mut g);
            families::sparse(cx, 3, 1, false, 1, &mut g);
        }
        _ => {
            cx.bound("sparse positions: at most 3 own checkers anywhere (bar included) against at most 2 opposing points with 1 or 2 checkers; 2 own checkers against at most 3 blocks");
            families::sparse(cx, 3, 2, false, 0, &mut g);
            families::sparse(cx, 2, 3, true, 1, &mut g);
        }
    }
    if scale >= 1 {
        cx.bound("home boards: every filling of the six home points with 0-2 own or 1-2 opposing checkers, five variations outside");
        families::home(cx, &mut g);
        cx.bound("bar entry: 1-3 checkers on the bar against every filling of the entry quadrant, four variations outside");
        families::entry(cx, &mut g);
        cx.bound("contact: three own checkers behind every pattern of blots and blocks on eight consecutive points, six shapes");
        families::prime(cx, &mut g);
    }
    let depth = if scale >= 1 { 2 } else { 1 };
    cx.bound(format!("every position reachable from the opening within {depth} plays, any rolls"));
    families::reachable(cx, depth, &mut |cx, p, pl| f(cx, p, Some(pl)));
}

fn players(only: Option<i8>) -> Vec<i8> {
    match only {
        Some(p) => vec![p],
        None => vec![-1, 1],
    }
}

pub fn c01(cx: &mut Cx) {
    let scale = if cx.thorough { 2 } else { 1 };
    let mut plays: Vec<Play> = vec![];
    positions(cx, scale, &mut |cx, p, only| {
        if cx.stop() {
            return;
        }
        for player in players(only) {
            let b = bgref::to_board(p, player);
            for (ri, mut roll) in ROLLS21.into_iter().enumerate() {
                // both orders of the dice over the positions
                if (ri + (player > 0) as usize + p.own[6] as usize) % 2 == 0 {
                    roll = (roll.1, roll.0);
                }
                bgref::legal(p, roll, &mut plays);
                let second = roll.0 == roll.1 && p.own[1] % 2 == 1;
                let s = state(&b, player, roll, second);
                cx.out.states += 1;
                cx.out.traces += 1;
                let offered = match catch(|| s.get_valid_moves()) {
                    Ok(x) => x,
                    Err(e) => {
                        cx.fail("legal-plays-crash", format!("{}: {e:?}", describe(&b, player, roll)));
                        return;
                    }
                };
                cx.out.transitions += offered.len() as u64;
                judge_offered(cx, &b, p, player, roll, &offered, &plays);
            }
        }
    });
    one_after_another(cx, &mut |cx, &(b, player, roll, second)| {
        let p = bgref::from_board(&b, player);
        bgref::legal(&p, roll, &mut plays);
        cx.out.states += 1;
        cx.out.traces += 1;
        match catch(|| state(&b, player, roll, second).get_valid_moves()) {
            Ok(offered) => {
                cx.out.transitions += offered.len() as u64;
                judge_offered(cx, &b, &p, player, roll, &offered, &plays);
            }
            Err(e) => cx.fail("legal-plays-crash", format!("{}: {e:?}", describe(&b, player, roll))),
        }
    });
}

/// A question about a game: board, player, roll, second play of a double.
type Question = (Board, i8, (u8, u8), bool);

/// Questions that differ from each other in one thing: the player, the dice, the half of a double, one checker.
fn alike(base: usize) -> Vec<Question> {
    let mk = |own: &[(usize, u8)], opp: &[(usize, u8)], opp_bar: u8| {
        let mut p = families::empty();
        for &(i, n) in own {
            p.own[i] = n
        }
        for &(i, n) in opp {
            p.opp[i] = n
        }
        p.opp_bar = opp_bar;
        families::fill(&mut p);
        bgref::to_board(&p, -1)
    };
    let (b, roll): (Board, (u8, u8)) = match base {
        0 => (families::opening(), (3, 1)),
        1 => (mk(&[(24, 2), (13, 4), (8, 3), (6, 4), (4, 2)], &[(1, 1), (5, 2), (12, 5), (17, 3), (19, 4)], 0), (4, 4)),
        2 => (mk(&[(25, 1), (13, 2), (6, 5), (3, 1)], &[(19, 5), (18, 2), (21, 1), (12, 3)], 1), (2, 6)),
        3 => (mk(&[(6, 3), (4, 2), (2, 3)], &[(19, 2), (20, 3), (23, 1)], 0), (5, 2)),
        4 => (mk(&[(1, 2), (3, 1)], &[(24, 1)], 0), (1, 3)),
        _ => (mk(&[(25, 2), (5, 1)], &[(20, 2), (22, 1), (9, 1)], 0), (3, 3)),
    };
    let q: Question = (b, -1, roll, false);
    let mut all = vec![q];
    all.push((b, 1, roll, false));
    all.push((b, -1, (roll.1, roll.0), false));
    all.push((b, -1, (roll.0, roll.0), false));
    all.push((b, -1, (roll.0, roll.0), true));
    all.push((b, 1, (roll.0, roll.0), true));
    all.push((b, -1, (roll.0, roll.1 % 6 + 1), false));
    all.push((b, -1, (roll.0 % 6 + 1, roll.1), false));
    // one checker elsewhere
    for side in [-1i8, 1] {
        let pts: Vec<usize> = (0..24).filter(|&i| b.0[i] * side > 0).collect();
        for (k, &i) in pts.iter().enumerate() {
            let mut c = b;
            c.0[i] -= side;
            match k % 3 {
                0 => *(if side < 0 { &mut c.1 .0 } else { &mut c.1 .1 }) += 1,
                1 => *(if side < 0 { &mut c.2 .0 } else { &mut c.2 .1 }) += 1,
                _ => {
                    let Some(j) = (0..24).find(|&j| j != i && c.0[j] * side >= 0) else { continue };
                    c.0[j] += side;
                }
            }
            all.push((c, -1, roll, false));
            if k == 0 {
                all.push((c, 1, roll, false));
            }
        }
    }
    // the same board from the other side
    let mut m = b;
    for i in 0..24 {
        m.0[i] = -b.0[23 - i];
    }
    m.1 = (b.1 .1, b.1 .0);
    m.2 = (b.2 .1, b.2 .0);
    all.push((m, 1, roll, false));
    all.push((m, -1, roll, false));
    let mut seen = vec![];
    all.retain(|q| if seen.contains(q) { false } else { seen.push(*q); true });
    all
}

/// Every ordered pair of questions that are alike, the one asked right after the other; the answers must be their own.
fn one_after_another(cx: &mut Cx, f: &mut dyn FnMut(&mut Cx, &Question)) {
    cx.bound("every ordered pair of questions that differ in the player, the dice, the half of a double or one checker, one right after the other, around six positions");
    for base in 0..6 {
        let all = alike(base);
        for (k, x) in all.iter().enumerate() {
            if !cx.case(|| format!("one after another {base} {k}")) {
                continue;
            }
            for y in &all {
                f(cx, x);
                f(cx, y);
                if cx.stop() {
                    return;
                }
            }
        }
    }
}

fn judge_offered(cx: &mut Cx, b: &Board, p: &Pos, player: i8, roll: (u8, u8), offered: &[Actions], plays: &[Play]) {
    let mut ends: Vec<&Pos> = plays.iter().map(|x| &x.end).collect();
    let mut uniq: Vec<&Pos> = vec![];
    for e in ends.drain(..) {
        if !uniq.contains(&e) {
            uniq.push(e);
        }
    }
    let mut got: Vec<Pos> = vec![];
    for o in offered {
        // the offered steps, one after the other, by the reference rules, each with a die of its own
        let mut ok = false;
        let mut end = *p;
        let orders: &[[u8; 2]] = &[[roll.0, roll.1], [roll.1, roll.0]];
        if (1..=2).contains(&o.len()) {
            for dice in orders {
                let mut q = *p;
                let mut good = true;
                for (i, &a) in o.iter().enumerate() {
                    let Some(want) = bgref::action_step(player, a) else {
                        good = false;
                        break;
                    };
                    match bgref::step(&q, want.0, dice[i]) {
                        Some((st, r)) if st == want => q = r,
                        _ => {
                            good = false;
                            break;
                        }
                    }
                }
                if good {
                    ok = true;
                    end = q;
                    break;
                }
            }
        }
        if !ok {
            cx.fail("illegal-play-offered", format!("{}: {o:?} is not a sequence of legal moves", describe(b, player, roll)));
            return;
        }
        if !uniq.contains(&&end) {
            cx.fail("dice-left-unused", format!("{}: {o:?} uses fewer dice than possible", describe(b, player, roll)));
            return;
        }
        if got.contains(&end) {
            cx.fail("position-offered-twice", format!("{}: {o:?} reaches a position another offered play reaches", describe(b, player, roll)));
            return;
        }
        got.push(end);
    }
    if got.len() != uniq.len() {
        let miss = plays.iter().find(|x| !got.contains(&x.end)).unwrap();
        let a: Vec<_> = miss.steps[..miss.n].iter().map(|&s| bgref::step_action(player, s)).collect();
        cx.fail("legal-play-missing", format!("{}: the position after {a:?} is not offered; offered {offered:?}", describe(b, player, roll)));
    }
}

pub fn c02(cx: &mut Cx) {
    let scale = if cx.thorough { 2 } else { 1 };
    let mut plays: Vec<Play> = vec![];
    let run = crate::explore::Run::default_run();
    positions(cx, scale, &mut |cx, p, only| {
        if cx.stop() {
            return;
        }
        for player in players(only) {
            let b = bgref::to_board(p, player);
            for (ri, roll) in ROLLS21.into_iter().enumerate() {
                bgref::sequences(p, roll, &mut plays);
                cx.out.states += 1;
                for (k, x) in plays.iter().enumerate() {
                    let acts: Actions = x.steps[..x.n].iter().map(|&s| bgref::step_action(player, s)).collect();
                    cx.out.transitions += 1;
                    cx.out.traces += 1;
                    let want = bgref::to_board(&x.end, player);
                    match catch(|| Backgammon::get_next_state(b, &acts, player)) {
                        Ok(got) => {
                            if got != want {
                                cx.fail("wrong-board", format!("{}: after {acts:?} the board is {got:?}, by the rules {want:?}", describe(&b, player, roll)));
                                return;
                            }
                        }
                        Err(e) => {
                            cx.fail("play-crash", format!("{}: {acts:?}: {e:?}", describe(&b, player, roll)));
                            return;
                        }
                    }
                    // through the game interface as well
                    if (k + ri) % 4 == 0 || plays.len() < 4 {
                        let mut s = state(&b, player, roll, k % 2 == 1 && roll.0 == roll.1);
                        s.set_id(7);
                        match run.with(|| s.apply_move(&acts)) {
                            Ok(()) => {
                                if s.board != want || s.get_id() != 7 {
                                    cx.fail("wrong-board", format!("{}: playing {acts:?} in a game gives {:?}, by the rules {want:?}", describe(&b, player, roll), s.board));
                                    return;
                                }
                            }
                            Err(e) => {
                                cx.fail("play-crash", format!("{}: {acts:?}: {e:?}", describe(&b, player, roll)));
                                return;
                            }
                        }
                        run.tape.lock().unwrap().trace.clear();
                    }
                }
            }
        }
    });
    one_after_another(cx, &mut |cx, &(b, player, roll, second)| {
        bgref::sequences(&bgref::from_board(&b, player), roll, &mut plays);
        cx.out.states += 1;
        for x in &plays {
            let acts: Actions = x.steps[..x.n].iter().map(|&s| bgref::step_action(player, s)).collect();
            let want = bgref::to_board(&x.end, player);
            cx.out.transitions += 1;
            cx.out.traces += 1;
            let r = run.with(|| {
                let mut s = state(&b, player, roll, second);
                s.apply_move(&acts);
                (s.board, Backgammon::get_next_state(b, &acts, player))
            });
            run.tape.lock().unwrap().trace.clear();
            match r {
                Ok((x, y)) if x == want && y == want => {}
                Ok(got) => cx.fail("wrong-board", format!("{}: after {acts:?} the board is {got:?} (in a game, alone), by the rules {want:?}", describe(&b, player, roll))),
                Err(e) => cx.fail("play-crash", format!("{}: {acts:?}: {e:?}", describe(&b, player, roll))),
            }
            if cx.stop() {
                return;
            }
        }
    });
    // whole games of the real engine: fifteen checkers each after every play
    let depth = if cx.thorough { 3 } else { 2 };
    cx.bound(format!("real games from the opening: default choices with up to {depth} deviations, 300 rounds"));
    for base in 1..=(if cx.thorough { 64 } else { 16 }) {
        for dev_at in 0..8usize {
            if !cx.case(|| format!("game base={base} first={dev_at}")) {
                continue;
            }
            let b = Bounds { base: base + 100 * dev_at as u64, max_free: 6, max_dev: 1, horizon: 4000, ..Bounds::full() };
            let st = dfs(&b, |run| {
                let bad = run.with(|| {
                    let mut s = Backgammon::new();
                    s.roll_die();
                    for _ in 0..300 {
                        if s.check_winner().is_some() {
                            break;
                        }
                        let m = s.get_valid_moves();
                        if m.is_empty() {
                            let before = s.board;
                            s.skip_turn();
                            if before != s.board {
                                return Some(format!("skipping changes the board {before:?} to {:?}", s.board));
                            }
                        } else {
                            let k = run.choose(m.len());
                            s.apply_move(&m[k]);
                        }
                        if let Some(e) = count15(&s.board) {
                            return Some(e);
                        }
                    }
                    None
                });
                match bad {
                    Ok(None) => {}
                    Ok(Some(e)) => cx.fail("checkers-lost", e),
                    Err(Fail::Horizon) => {}
                    Err(e) => cx.fail("game-crash", format!("{e:?}")),
                }
                !cx.stop()
            });
            cx.add(st);
        }
    }
}

fn count15(b: &Board) -> Option<String> {
    let neg: i32 = b.0.iter().filter(|&&x| x < 0).map(|&x| -x as i32).sum::<i32>() + b.1 .0 as i32 + b.2 .0 as i32;
    let pos: i32 = b.0.iter().filter(|&&x| x > 0).map(|&x| x as i32).sum::<i32>() + b.1 .1 as i32 + b.2 .1 as i32;
    if (neg, pos) != (15, 15) {
        Some(format!("checkers ({neg}, {pos}) in {b:?}"))
    } else {
        None
    }
}

/// The distribution of the dice after `act`, by enumerating every draw. None when the draws are not
/// made through choice points (then only the support can be judged).
fn roll_distribution(cx: &mut Cx, act: &dyn Fn() -> Backgammon) -> Result<(HashMap<(u8, u8), f64>, Vec<Backgammon>), String> {
    let mut dist: HashMap<(u8, u8), f64> = HashMap::new();
    let mut states = vec![];
    let mut err = None;
    let mut raw = 0;
    // code may draw again; what is left after twelve draws is not judged
    let b = Bounds { max_runs: 20000, horizon: 12, ..Bounds::full() };
    let st = dfs(&b, |run| {
        match run.with(act) {
            Ok(s) => {
                *dist.entry(s.roll).or_default() += run.probability();
                states.push(s);
            }
            Err(crate::explore::Fail::Horizon) => {}
            Err(e) => err = Some(format!("{e:?}")),
        }
        raw += run.raw();
        err.is_none()
    });
    cx.add(st);
    if let Some(e) = err {
        return Err(e);
    }
    if st.runs == 1 && raw > 0 {
        // raw generator words: not enumerable; look at many
        dist.clear();
        states.clear();
        for seed in 0..3000 {
            let mut run = crate::explore::Run::default_run();
            run.raw_seed = seed * 7919 + 1;
            if let Ok(s) = run.with(act) {
                *dist.entry(s.roll).or_default() += 1.0;
                states.push(s);
            }
        }
        cx.out.undecided += 1;
        // only the support is judged: normalise by hand
        for v in dist.values_mut() {
            if *v > 20.0 {
                *v = 1.0 / 36.0;
            }
        }
    }
    Ok((dist, states))
}

fn judge_uniform(cx: &mut Cx, what: &str, dist: &HashMap<(u8, u8), f64>) {
    for r in ROLLS36 {
        let p = dist.get(&r).copied().unwrap_or(0.0);
        let rest = (1.0 - dist.values().sum::<f64>()).max(0.0);
        if p > 1.0 / 36.0 + 1e-9 || p + rest < 1.0 / 36.0 - 1e-9 {
            cx.fail("unfair-dice", format!("{what}: roll {r:?} has probability {p} instead of 1/36; distribution {dist:?}"));
            return;
        }
    }
    if dist.len() != 36 {
        cx.fail("unfair-dice", format!("{what}: outcomes {:?}", dist.keys()));
    }
}

pub fn c03(cx: &mut Cx) {
    // positions with something to play in them and different home/bar situations
    let mut posns: Vec<Pos> = vec![bgref::from_board(&families::opening(), -1)];
    let mk = |own: &[(usize, u8)], opp: &[(usize, u8)]| {
        let mut p = families::empty();
        for &(i, n) in own {
            p.own[i] = n
        }
        for &(i, n) in opp {
            p.opp[i] = n
        }
        families::fill(&mut p);
        p
    };
    posns.push(mk(&[(25, 1), (6, 3), (13, 2)], &[(20, 2), (5, 1), (1, 2)]));
    posns.push(mk(&[(6, 1), (5, 2), (1, 1)], &[(24, 2), (10, 1)]));
    posns.push(mk(&[(25, 2), (13, 1)], &[(19, 2), (20, 2), (21, 2), (22, 2), (23, 2), (24, 2)]));
    posns.push(mk(&[(24, 1), (2, 1)], &[(18, 2), (12, 2)]));
    // the opponent is closed out (bar against six points), with and without checkers of ours outside
    let home = [(1, 2), (2, 2), (3, 2), (4, 2), (5, 2), (6, 2)];
    for out in [&[(10usize, 2u8), (9, 1)][..], &[(6, 4)][..], &[(24, 1)][..]] {
        let mut own: Vec<(usize, u8)> = home.to_vec();
        for &(i, n) in out {
            own.retain(|&(j, _)| j != i);
            own.push((i, n));
        }
        let mut p = mk(&own, &[(19, 2), (20, 2)]);
        p.opp_bar = 1;
        p.opp_off -= 1;
        posns.push(p);
    }
    // a full board without contact, both sides bearing off, and few checkers left
    posns.push(mk(&[(6, 5), (5, 5), (4, 5)], &[(19, 5), (20, 5), (21, 5)]));
    posns.push(mk(&[(3, 1), (2, 2)], &[(24, 1)]));
    posns.push(mk(&[(1, 4)], &[(23, 2), (24, 2)]));
    if cx.thorough {
        for a in [3usize, 9, 16, 22] {
            for c in [4usize, 11, 17, 25] {
                posns.push(mk(&[(a, 2), (c, 1)], &[(8, 2), (15, 1), (20, 2)]));
            }
        }
    }
    cx.bound(format!("{} positions x 36 rolls x both players x both halves of a double: every play, and a skip, with all dice outcomes enumerated; sequences of 4 turns", posns.len()));
    let mut plays = vec![];
    cx.bound("the same positions before their first roll: skipped and rolled for, with all dice outcomes");
    for (pi, p) in posns.iter().enumerate() {
        for player in [-1i8, 1] {
            if !cx.case(|| format!("no dice yet position={pi} player={player}")) {
                continue;
            }
            let b = bgref::to_board(p, player);
            let start = state(&b, player, (0, 0), false);
            for skip in [true, false] {
                let what = format!("{}: {}", describe(&b, player, (0, 0)), if skip { "skipping" } else { "rolling" });
                cx.out.states += 1;
                match roll_distribution(cx, &|| {
                    let mut s = start;
                    if skip {
                        s.skip_turn();
                    } else {
                        s.roll_die();
                    }
                    s
                }) {
                    Err(e) => cx.fail("turn-crash", format!("{what}: {e}")),
                    Ok((dist, states)) => {
                        for s in &states {
                            if s.player != if skip { -player } else { player } || s.is_second_play || s.board != b {
                                cx.fail("wrong-skip", format!("{what}: {s:?}"));
                                break;
                            }
                        }
                        judge_uniform(cx, &what, &dist);
                    }
                }
            }
        }
    }
    for (pi, p) in posns.iter().enumerate() {
        for player in [-1i8, 1] {
            for roll in ROLLS36 {
                if !cx.case(|| format!("turn position={pi} player={player} roll={roll:?}")) {
                    continue;
                }
                let b = bgref::to_board(p, player);
                bgref::legal(p, roll, &mut plays);
                let acts: Vec<Actions> = plays.iter().map(|x| x.steps[..x.n].iter().map(|&s| bgref::step_action(player, s)).collect()).collect();
                let double = roll.0 == roll.1;
                for second in if double { vec![false, true] } else { vec![false] } {
                    let start = state(&b, player, roll, second);
                    cx.out.states += 1;
                    // what comes after a game that was won is nobody's turn
                    let mut acts = acts.clone();
                    let mut wins = plays.iter().map(|x| x.end.own[0] == 15);
                    acts.retain(|_| !wins.next().unwrap());
                    let pick: Vec<usize> = if cx.thorough || acts.len() <= 2 { (0..acts.len()).collect() } else { vec![0, acts.len() - 1] };
                    for k in pick {
                        let a = &acts[k];
                        let again = double && !second;
                        let what = format!("{} second={second}: playing {a:?}", describe(&b, player, roll));
                        match roll_distribution(cx, &|| {
                            let mut s = start;
                            s.apply_move(a);
                            s
                        }) {
                            Err(e) => cx.fail("turn-crash", format!("{what}: {e}")),
                            Ok((dist, states)) => {
                                for s in &states {
                                    let want = if again { player } else { -player };
                                    if s.get_player() != want || s.player != want {
                                        cx.fail("wrong-player-next", format!("{what}: next to move is {}", s.get_player()));
                                        break;
                                    }
                                    if s.is_second_play != again {
                                        cx.fail("wrong-double-state", format!("{what}: second-play flag is {}", s.is_second_play));
                                        break;
                                    }
                                    if again && s.roll != roll {
                                        cx.fail("double-rerolled", format!("{what}: roll is {:?}", s.roll));
                                        break;
                                    }
                                }
                                if !again {
                                    judge_uniform(cx, &what, &dist);
                                }
                            }
                        }
                    }
                    let what = format!("{} second={second}: skipping", describe(&b, player, roll));
                    match roll_distribution(cx, &|| {
                        let mut s = start;
                        s.skip_turn();
                        s
                    }) {
                        Err(e) => cx.fail("turn-crash", format!("{what}: {e}")),
                        Ok((dist, states)) => {
                            for s in &states {
                                if s.player != -player || s.is_second_play || s.board != b {
                                    cx.fail("wrong-skip", format!("{what}: {s:?}"));
                                    break;
                                }
                            }
                            judge_uniform(cx, &what, &dist);
                        }
                    }
                    let what = format!("{} second={second}: rolling", describe(&b, player, roll));
                    match roll_distribution(cx, &|| {
                        let mut s = start;
                        let r = s.roll_die();
                        if r != s.roll {
                            s.roll = (0, 0);
                        }
                        s
                    }) {
                        Err(e) => cx.fail("turn-crash", format!("{what}: {e}")),
                        Ok((dist, states)) => {
                            for s in &states {
                                if s.player != player || s.is_second_play != second || s.board != b {
                                    cx.fail("roll-changes-game", format!("{what}: {s:?}"));
                                    break;
                                }
                            }
                            judge_uniform(cx, &what, &dist);
                        }
                    }
                }
            }
        }
    }
    // sequences: turn order over several plays against an independent protocol
    for first in [-1i8, 1] {
        for r0 in ROLLS36 {
            if !cx.case(|| format!("sequence player={first} roll={r0:?}")) {
                continue;
            }
            let steps = if cx.thorough { 5 } else { 4 };
            let b = Bounds { max_dev: if cx.thorough { 3 } else { 2 }, max_runs: 200_000, horizon: 60, ..Bounds::full() };
            let st = dfs(&b, |run| {
                let r = run.with(|| {
                    let mut s = state(&families::opening(), first, r0, false);
                    let mut want = (first, r0, false);
                    for step in 0..steps {
                        if (s.player, s.roll, s.is_second_play) != want {
                            return Some(format!("step {step}: {s:?}, expected (player, roll, second) {want:?}"));
                        }
                        let m = s.get_valid_moves();
                        // last option: skip
                        let k = run.choose(3);
                        let skip = m.is_empty() || k == 2;
                        if skip {
                            s.skip_turn();
                        } else {
                            s.apply_move(if k == 0 { &m[0] } else { &m[m.len() - 1] });
                        }
                        if !skip && want.1 .0 == want.1 .1 && !want.2 {
                            want.2 = true;
                        } else {
                            want = (-want.0, s.roll, false);
                        }
                        if !(1..=6).contains(&s.roll.0) || !(1..=6).contains(&s.roll.1) {
                            return Some(format!("step {step}: roll {:?}", s.roll));
                        }
                    }
                    None
                });
                match r {
                    Ok(None) => {}
                    Ok(Some(e)) => cx.fail("wrong-turn-order", e),
                    Err(crate::explore::Fail::Horizon) => {}
                    Err(e) => cx.fail("turn-crash", format!("{e:?}")),
                }
                !cx.stop()
            });
            cx.add(st);
        }
    }
    // a new game
    if cx.case(|| "new game".into()) {
        match roll_distribution(cx, &|| {
            let mut s = Backgammon::new();
            s.roll_die();
            s
        }) {
            Err(e) => cx.fail("turn-crash", e),
            Ok((dist, _)) => judge_uniform(cx, "a new game", &dist),
        }
    }
}

pub fn c04(cx: &mut Cx) {
    let want_winner = |b: &Board| {
        if b.2 .0 == 15 {
            Some(-1)
        } else if b.2 .1 == 15 {
            Some(1)
        } else {
            None
        }
    };
    let judge = |cx: &mut Cx, b: &Board, player: i8, second: bool, roll: (u8, u8)| {
        let s = state(b, player, roll, second);
        cx.out.transitions += 1;
        let want = want_winner(b);
        let got = catch(|| (s.check_winner(), Backgammon::check_win(*b, -1), Backgammon::check_win(*b, 1), Backgammon::check_win_without_player(*b)));
        match got {
            Ok(g) => {
                if g != (want, want == Some(-1), want == Some(1), want) {
                    cx.fail("wrong-winner", format!("{}: reported {g:?}, by the rules {want:?}", describe(b, player, roll)));
                }
            }
            Err(e) => cx.fail("winner-crash", format!("{}: {e:?}", describe(b, player, roll))),
        }
    };
    cx.bound("every pair of tray counts 0-15 (not both 15) with the rest on any single point or the bar, both players to move, dice rolled or not");
    for t0 in 0..=15u8 {
        for t1 in 0..=15u8 {
            if t0 == 15 && t1 == 15 {
                continue;
            }
            if !cx.case(|| format!("trays {t0} {t1}")) {
                continue;
            }
            for where0 in 0..25usize {
                for where1 in 0..25usize {
                    if where0 == where1 && where0 < 24 {
                        continue;
                    }
                    let mut b: Board = ([0; 24], (0, 0), (t0, t1));
                    if where0 < 24 {
                        b.0[where0] = -(15 - t0 as i8)
                    } else {
                        b.1 .0 = 15 - t0
                    }
                    if where1 < 24 {
                        b.0[where1] = 15 - t1 as i8
                    } else {
                        b.1 .1 = 15 - t1
                    }
                    cx.out.states += 1;
                    for player in [-1, 1] {
                        for (second, roll) in [(false, (0, 0)), (false, (3, 1)), (true, (4, 4))] {
                            judge(cx, &b, player, second, roll);
                        }
                    }
                }
            }
        }
    }
    positions(cx, if cx.thorough { 1 } else { 0 }, &mut |cx, p, only| {
        for player in players(only) {
            cx.out.states += 1;
            judge(cx, &bgref::to_board(p, player), player, false, (2, 1));
        }
    });
    one_after_another(cx, &mut |cx, &(b, player, roll, second)| {
        cx.out.states += 1;
        judge(cx, &b, player, second, roll);
    });
    // endings: every play of positions about to end, and what the game then reports
    cx.bound("endings: at most 3 checkers left in the home board on each side, every roll, every offered play, two plays deep");
    let mut homes: Vec<Vec<u8>> = vec![];
    for a in 1..=6u8 {
        homes.push(vec![a]);
        for b in a..=6 {
            homes.push(vec![a, b]);
            if cx.thorough {
                for c in b..=6 {
                    homes.push(vec![a, b, c]);
                }
            }
        }
    }
    for mine in &homes {
        if !cx.case(|| format!("ending {mine:?}")) {
            continue;
        }
        for theirs in &homes {
            let mut p = families::empty();
            for &x in mine {
                p.own[x as usize] += 1;
            }
            for &x in theirs {
                p.opp[25 - x as usize] += 1;
            }
            families::fill(&mut p);
            for player in [-1i8, 1] {
                let b = bgref::to_board(&p, player);
                for roll in ROLLS21 {
                    cx.out.states += 1;
                    let bnds = Bounds { max_free: 3, max_dev: 2, ..Bounds::full() };
                    let st = dfs(&bnds, |run| {
                        let r = run.with(|| {
                            let mut s = state(&b, player, roll, false);
                            for _ in 0..3 {
                                if s.check_winner() != want_winner(&s.board) {
                                    return Some(format!("{s:?}: reported {:?}", s.check_winner()));
                                }
                                if s.check_winner().is_some() {
                                    break;
                                }
                                let m = s.get_valid_moves();
                                if m.is_empty() {
                                    s.skip_turn()
                                } else {
                                    s.apply_move(&m[run.choose(m.len())])
                                }
                            }
                            None
                        });
                        match r {
                            Ok(None) => {}
                            Ok(Some(e)) => cx.fail("wrong-winner", e),
                            Err(e) => cx.fail("winner-crash", format!("{e:?}")),
                        }
                        !cx.stop()
                    });
                    cx.add(st);
                }
            }
        }
    }
    if cx.case(|| "opening".into()) {
        let want = families::opening();
        for (n, b) in [("new", Backgammon::new().board), ("initial state", Backgammon::get_initial_state()), ("default", Backgammon::default().board)] {
            cx.check(b == want, "wrong-opening", || format!("{n}: {b:?}, standard {want:?}"));
        }
        let s = Backgammon::new();
        cx.check(!s.is_second_play && s.player.abs() == 1 && s.check_winner().is_none(), "wrong-opening", || format!("{s:?}"));
        cx.out.traces += 1;
    }
}

pub fn c05(cx: &mut Cx) {
    cx.bound("explicit-state search of every (board, player) reachable by moves and skips from both starts; every sequence of legal moves of complete games from both starts");
    // explicit-state search with skips
    if cx.case(|| "all reachable boards".into()) {
        let mut seen: HashSet<([i8; 9], i8)> = HashSet::new();
        let mut stack = vec![TicTacToe::new()];
        {
            let s = stack[0];
            cx.check(s.board == [0; 9] && s.get_player().abs() == 1, "wrong-start", || format!("{s:?}"));
        }
        seen.insert((stack[0].board, stack[0].get_player()));
        while let Some(mut s) = stack.pop() {
            if cx.stop() {
                break;
            }
            s.set_id(3);
            cx.out.states += 1;
            let want = tttref::winner(&s.board);
            let Some((w, moves)) = cx.unwrap(catch(|| (s.check_winner(), s.get_valid_moves())), "rules-crash", || format!("{s:?}")) else { continue };
            cx.check(w == want, "wrong-result", || format!("{s:?}: reported {w:?}, by the rules {want:?}"));
            let mut sk = s;
            if let Some(()) = cx.unwrap(catch(|| sk.skip_turn()), "rules-crash", || format!("skip in {s:?}")) {
                cx.check(sk.board == s.board && sk.get_player() == -s.get_player() && sk.get_id() == 3, "wrong-skip", || format!("{s:?} -> {sk:?}"));
            }
            if want.is_some() {
                continue;
            }
            let empties: Vec<u8> = (0..9u8).filter(|&i| s.board[i as usize] == 0).collect();
            let mut m = moves.clone();
            m.sort();
            cx.check(m == empties, "wrong-moves", || format!("{s:?}: offered {moves:?}"));
            let mut next = vec![sk];
            for &k in &empties {
                let mut t = s;
                if cx.unwrap(catch(|| t.apply_move(&k)), "rules-crash", || format!("{k} in {s:?}")).is_none() {
                    continue;
                }
                let mut want = s.board;
                want[k as usize] = s.get_player();
                cx.check(t.board == want && t.get_player() == -s.get_player() && t.get_id() == 3, "wrong-move-effect", || format!("{s:?} + {k} -> {t:?}"));
                cx.out.transitions += 1;
                next.push(t);
            }
            for t in next {
                if seen.insert((t.board, t.get_player())) {
                    stack.push(t);
                }
            }
        }
    }
    // complete games, history by history
    for starter in [false, true] {
        for first in 0..9u8 {
            if !cx.case(|| format!("games skip-first={starter} first={first}")) {
                continue;
            }
            let mut s = TicTacToe::new();
            if starter {
                s.skip_turn();
            }
            let sp = s.get_player();
            s.apply_move(&first);
            let mut hist = vec![first];
            walk(cx, &s, sp, &mut hist);
        }
    }
    fn walk(cx: &mut Cx, s: &TicTacToe, starter: i8, hist: &mut Vec<u8>) {
        if cx.stop() {
            return;
        }
        cx.out.transitions += 1;
        let mut b = [0i8; 9];
        for (i, &m) in hist.iter().enumerate() {
            b[m as usize] = if i % 2 == 0 { starter } else { -starter };
        }
        let want = tttref::winner(&b);
        let w = s.check_winner();
        if s.board != b || w != want {
            cx.fail("wrong-result", format!("moves {hist:?} starter {starter}: board {:?}, winner {w:?}, by the rules {want:?}", s.board));
            return;
        }
        if want.is_some() {
            cx.out.traces += 1;
            return;
        }
        let mv = s.get_valid_moves();
        for m in mv {
            let mut t = *s;
            t.apply_move(&m);
            hist.push(m);
            walk(cx, &t, starter, hist);
            hist.pop();
        }
    }
}

pub fn c06(cx: &mut Cx) {
    let scale = if cx.thorough { 2 } else { 1 };
    let pass = state(&families::opening(), -1, (1, 2), false).encode(&vec![]);
    let mut plays: Vec<Play> = vec![];
    positions(cx, scale, &mut |cx, p, only| {
        if cx.stop() {
            return;
        }
        for player in players(only) {
            let b = bgref::to_board(p, player);
            for (ri, mut roll) in ROLLS21.into_iter().enumerate() {
                if (ri + p.own[0] as usize) % 2 == 0 {
                    roll = (roll.1, roll.0);
                }
                let s = state(&b, player, roll, false);
                cx.out.states += 1;
                cx.out.traces += 1;
                bgref::legal(p, roll, &mut plays);
                let mut acts: Vec<Actions> = match catch(|| s.get_valid_moves()) {
                    Ok(m) => m,
                    Err(_) => continue,
                };
                // plays by the rules, once per resulting position (what the generator may offer)
                if !cx.thorough && plays.len() > 60 {
                    plays.truncate(60);
                }
                for x in &plays {
                    let a: Actions = x.steps[..x.n].iter().map(|&s| bgref::step_action(player, s)).collect();
                    if !acts.contains(&a) {
                        acts.push(a);
                    }
                }
                let mut used: HashMap<(bool, u32), &Actions> = HashMap::with_capacity(acts.len() * 2);
                for a in &acts {
                    cx.out.transitions += 1;
                    for direct in [false, true] {
                        let r = catch(|| {
                            if direct {
                                let c = Backgammon::encode(&s, a);
                                (c, Backgammon::decode(&s, c))
                            } else {
                                let c = <Backgammon as LearnableGame>::encode(&s, a);
                                (c, <Backgammon as LearnableGame>::decode(&s, c))
                            }
                        });
                        let (c, back) = match r {
                            Ok(x) => x,
                            Err(e) => {
                                cx.fail("code-crash", format!("{}: {a:?} direct={direct}: {e:?}", describe(&b, player, roll)));
                                return;
                            }
                        };
                        if c as i64 >= Backgammon::ACTION_SPACE_SIZE {
                            cx.fail("code-out-of-range", format!("{}: {a:?} has code {c} (direct={direct})", describe(&b, player, roll)));
                            return;
                        }
                        if back != *a {
                            cx.fail("code-not-inverted", format!("{}: {a:?} has code {c} which decodes to {back:?} (direct={direct})", describe(&b, player, roll)));
                            return;
                        }
                        if c == pass {
                            cx.fail("pass-code-reused", format!("{}: {a:?} has the pass code (direct={direct})", describe(&b, player, roll)));
                            return;
                        }
                        if let Some(o) = used.insert((direct, c), a) {
                            cx.fail("code-shared", format!("{}: {a:?} and {o:?} share code {c} (direct={direct})", describe(&b, player, roll)));
                            return;
                        }
                    }
                }
                // the pass
                let e: Actions = vec![];
                let r = catch(|| {
                    let c = <Backgammon as LearnableGame>::encode(&s, &e);
                    let d = Backgammon::encode(&s, &e);
                    (c, d, <Backgammon as LearnableGame>::decode(&s, c), Backgammon::decode(&s, d))
                });
                match r {
                    Ok((c, d, x, y)) if c == pass && d == pass && x.is_empty() && y.is_empty() => {}
                    r => {
                        cx.fail("pass-code", format!("{}: {r:?}", describe(&b, player, roll)));
                        return;
                    }
                }
            }
        }
    });
    one_after_another(cx, &mut |cx, &(b, player, roll, second)| {
        let s = state(&b, player, roll, second);
        cx.out.states += 1;
        bgref::legal(&bgref::from_board(&b, player), roll, &mut plays);
        let mut codes: HashMap<u32, Actions> = HashMap::new();
        for x in &plays {
            let a: Actions = x.steps[..x.n].iter().map(|&s| bgref::step_action(player, s)).collect();
            cx.out.transitions += 1;
            let r = catch(|| {
                let c = <Backgammon as LearnableGame>::encode(&s, &a);
                (c, <Backgammon as LearnableGame>::decode(&s, c))
            });
            match r {
                Ok((c, back)) if back == a && c != pass && codes.insert(c, a.clone()).is_none_or(|o| o == a) => {}
                r => cx.fail("code-not-inverted", format!("{}: {a:?} gives code and back {r:?}", describe(&b, player, roll))),
            }
        }
    });
    if cx.case(|| "tic-tac-toe".into()) {
        for board in 0..3usize.pow(9) {
            let mut s = TicTacToe::new();
            let mut c = board;
            for i in 0..9 {
                s.board[i] = (c % 3) as i8 - 1;
                c /= 3;
            }
            cx.out.states += 1;
            let mut codes = HashSet::new();
            for m in s.get_valid_moves() {
                let c = s.encode(&m);
                cx.out.transitions += 1;
                cx.check((c as i64) < TicTacToe::ACTION_SPACE_SIZE && s.decode(c) == m && codes.insert(c), "ttt-code", || format!("{s:?}: {m} has code {c}"));
            }
        }
    }
}

fn bg_planes(b: &Board, player: i8, roll: (u8, u8), second: bool) -> [f32; 144] {
    let mut v = [0f32; 144];
    for i in 0..24 {
        v[i] = b.0[i] as f32;
        v[24 + i] = player as f32;
        let first = i < 12;
        v[48 + i] = if first { b.1 .0 } else { b.1 .1 } as f32;
        v[72 + i] = if first { b.2 .0 } else { b.2 .1 } as f32;
        v[96 + i] = if first { roll.0 } else { roll.1 } as f32;
        v[120 + i] = second as u8 as f32;
    }
    v
}

pub fn c07(cx: &mut Cx) {
    let check = |cx: &mut Cx, b: &Board, player: i8, roll: (u8, u8), second: bool| {
        let s = state(b, player, roll, second);
        cx.out.states += 1;
        cx.out.traces += 1;
        let Some((size, kind, vals)) = cx.unwrap(
            catch(|| {
                let t = s.as_tensor();
                let k = t.kind();
                (t.size(), k, Vec::<f32>::try_from(t.to_kind(tch::Kind::Float).flatten(0, -1)).unwrap())
            }),
            "input-crash",
            || describe(b, player, roll),
        ) else {
            return;
        };
        cx.out.transitions += vals.len() as u64;
        let want = bg_planes(b, player, roll, second);
        if size != [1, 6, 4, 6] || kind != tch::Kind::Float {
            cx.fail("input-shape", format!("{}: size {size:?} kind {kind:?}", describe(b, player, roll)));
        } else if vals != want {
            let i = (0..144).find(|&i| vals[i] != want[i]).unwrap();
            cx.fail("input-content", format!("{} second={second}: plane {} cell {} is {}, the position has {}", describe(b, player, roll), i / 24, i % 24, vals[i], want[i]));
        }
    };
    cx.bound("every checker count 0-15 of either side on every point, every bar and tray count, every roll, both players, both halves of doubles, one at a time and in pairs; sparse positions; positions reachable from the opening within 1 play (2 thorough)");
    for point in 0..24usize {
        if !cx.case(|| format!("point {point}")) {
            continue;
        }
        for n in -15i8..=15 {
            for bars in 0..4u8 {
                let mut b: Board = ([0; 24], (bars, 3 - bars), (2 * bars, 15 - bars));
                b.0[point] = n;
                b.0[(point + 7) % 24] = if n == 0 { 3 } else { -n / 2 };
                for (player, roll, second) in [(-1, (1, 2), false), (1, (6, 3), false), (1, (5, 5), true), (-1, (2, 2), false)] {
                    check(cx, &b, player, roll, second);
                }
            }
        }
    }
    for bar in 0..=15u8 {
        if !cx.case(|| format!("bars and trays {bar}")) {
            continue;
        }
        for x in 0..=15u8 {
            let mut b: Board = ([0; 24], (bar, x), (x, bar));
            b.0[3] = 1;
            check(cx, &b, -1, (1, 6), false);
            check(cx, &b, 1, (6, 1), false);
            let mut b: Board = ([0; 24], (x, 0), (0, bar));
            b.0[9] = -2;
            check(cx, &b, 1, (3, 3), true);
        }
    }
    for roll in ROLLS36 {
        if !cx.case(|| format!("roll {roll:?}")) {
            continue;
        }
        for player in [-1, 1] {
            for second in [false, true] {
                check(cx, &families::opening(), player, roll, second);
            }
        }
    }
    families::sparse(cx, if cx.thorough { 2 } else { 1 }, 1, false, 1, &mut |cx, p| {
        for player in [-1, 1] {
            check(cx, &bgref::to_board(p, player), player, (4, 2), false);
        }
    });
    families::reachable(cx, if cx.thorough { 2 } else { 1 }, &mut |cx, p, pl| {
        let r = ROLLS36[(p.own[6] as usize * 7 + p.own[13] as usize * 3) % 36];
        check(cx, &bgref::to_board(p, pl), pl, r, r.0 == r.1);
    });
    one_after_another(cx, &mut |cx, &(b, player, roll, second)| check(cx, &b, player, roll, second));
    cx.bound("tic-tac-toe: all 19683 boards, both players");
    for hi in 0..27usize {
        if !cx.case(|| format!("tic-tac-toe {hi}")) {
            continue;
        }
        for lo in 0..729usize {
            let mut s = TicTacToe::new();
            let mut c = hi * 729 + lo;
            for i in 0..9 {
                s.board[i] = (c % 3) as i8 - 1;
                c /= 3;
            }
            for flip in [false, true] {
                if flip {
                    s.skip_turn();
                }
                cx.out.states += 1;
                cx.out.traces += 1;
                let Some((size, kind, vals)) = cx.unwrap(
                    catch(|| {
                        let t = s.as_tensor();
                        let k = t.kind();
                        (t.size(), k, Vec::<f32>::try_from(t.to_kind(tch::Kind::Float).flatten(0, -1)).unwrap())
                    }),
                    "input-crash",
                    || format!("{s:?}"),
                ) else {
                    continue;
                };
                let want: Vec<f32> = [-1i8, 0, 1].iter().flat_map(|v| s.board.iter().map(move |x| (x == v) as u8 as f32)).collect();
                cx.out.transitions += 27;
                cx.check(size == [1, 3, 3, 3] && kind == tch::Kind::Float && vals == want, "ttt-input", || format!("{s:?}: {size:?} {vals:?}"));
            }
        }
    }
}

type Shown = ([i8; 24], (u8, u8), (u8, u8), i8, (u8, u8));

/// Reads a rendered position back.
fn read_board(text: &str) -> Option<Shown> {
    let after = |l: &str, k: &str| -> Option<u8> {
        let i = l.find(k)? + k.len();
        l[i..].trim().parse().ok()
    };
    let lines: Vec<&str> = text.lines().collect();
    let turn = lines.iter().find(|l| l.contains("Current turn:"))?;
    let player = if turn.contains("Player 1") {
        -1
    } else if turn.contains("Player 2") {
        1
    } else {
        return None;
    };
    let inside = &turn[turn.rfind('(')? + 1..turn.rfind(')')?];
    let dice: Vec<u8> = inside.split(',').filter_map(|x| x.trim().parse().ok()).collect();
    if dice.len() != 2 {
        return None;
    }
    let bars: Vec<u8> = lines.iter().filter_map(|l| after(l, "Broken Pieces:")).collect();
    let trays: Vec<u8> = lines.iter().filter_map(|l| after(l, "Pieces Collected:")).collect();
    let i1 = lines.iter().position(|l| l.trim() == "Player 1:")?;
    let i2 = lines.iter().position(|l| l.trim() == "Player 2:")?;
    if bars.len() != 2 || trays.len() != 2 || i1 > i2 {
        return None;
    }
    // the board: header lines with the point numbers, cells in columns below/above them
    let cells = |l: &str| -> Vec<String> { l.split('\t').map(|x| x.trim().to_string()).filter(|x| x != "|").collect() };
    let numbered = |l: &str| -> Option<Vec<usize>> {
        let c = cells(l);
        if c.len() == 12 {
            c.iter().map(|x| x.parse().ok()).collect()
        } else {
            None
        }
    };
    let heads: Vec<usize> = (0..lines.len()).filter(|&i| numbered(lines[i]).is_some()).collect();
    if heads.len() != 2 {
        return None;
    }
    let rows: Vec<Vec<String>> = lines[heads[0] + 1..heads[1]].iter().map(|l| cells(l)).collect();
    if rows.iter().any(|r| r.len() != 12) || rows.len() < 12 {
        return None;
    }
    let mut board = [0i8; 24];
    let column = |it: &mut dyn Iterator<Item = &Vec<String>>, col: usize| -> Option<i8> {
        let mut n = 0i8;
        let mut sign = 0i8;
        for (k, r) in it.enumerate() {
            let c = r[col].as_str();
            match c {
                "" => break,
                "x" | "o" if k < 5 => {
                    let s = if c == "x" { -1 } else { 1 };
                    if sign != 0 && sign != s {
                        return None;
                    }
                    sign = s;
                    n += 1;
                }
                c if k == 5 && c.starts_with('+') => {
                    n = 5 + c[1..].parse::<i8>().ok()?;
                    break;
                }
                _ => return None,
            }
        }
        Some(n * sign)
    };
    for (col, &pt) in numbered(lines[heads[0]])?.iter().enumerate() {
        board[pt] = column(&mut rows.iter().take(6), col)?;
    }
    for (col, &pt) in numbered(lines[heads[1]])?.iter().enumerate() {
        board[pt] = column(&mut rows.iter().rev().take(6), col)?;
    }
    let mut pts: Vec<usize> = numbered(lines[heads[0]])?;
    pts.extend(numbered(lines[heads[1]])?);
    pts.sort();
    if pts != (0..24).collect::<Vec<_>>() {
        return None;
    }
    Some((board, (bars[0], bars[1]), (trays[0], trays[1]), player, (dice[0], dice[1])))
}

pub fn c08(cx: &mut Cx) {
    let check = |cx: &mut Cx, b: &Board, player: i8, roll: (u8, u8)| {
        let s = state(b, player, roll, false);
        cx.out.states += 1;
        cx.out.traces += 1;
        cx.out.transitions += 24;
        let Some(text) = cx.unwrap(catch(|| s.to_pretty_str()), "render-crash", || describe(b, player, roll)) else { return };
        let want: Shown = (b.0, b.1, b.2, player, roll);
        match read_board(&text) {
            Some(got) if got == want => {}
            got => cx.fail("rendering", format!("{}: the text reads as {got:?}\n{text}", describe(b, player, roll))),
        }
    };
    cx.bound("every checker count -15..15 on every point alone and on every pair of points with a fixed partner, all bar/tray pairs 0-15, all rolls and players; sparse and reachable positions");
    for point in 0..24usize {
        for n in -15i8..=15 {
            if !cx.case(|| format!("point {point} count {n}")) {
                continue;
            }
            for other in 0..24usize {
                for m in [-15i8, -6, -5, -1, 0, 1, 5, 6, 7, 15] {
                    let mut b: Board = ([0; 24], (1, 2), (3, 4));
                    b.0[other] = m;
                    b.0[point] = n;
                    check(cx, &b, if (point + other) % 2 == 0 { -1 } else { 1 }, ((point % 6) as u8 + 1, (other % 6) as u8 + 1));
                }
            }
        }
    }
    for bar in 0..=15u8 {
        if !cx.case(|| format!("bars and trays {bar}")) {
            continue;
        }
        for x in 0..=15u8 {
            for y in 0..=15u8 {
                let mut b: Board = ([0; 24], (bar, x), (y, 15 - bar));
                b.0[3] = 1;
                for player in [-1, 1] {
                    check(cx, &b, player, (1, 6));
                }
            }
        }
        for roll in ROLLS36 {
            check(cx, &families::opening(), if bar % 2 == 0 { -1 } else { 1 }, roll);
        }
    }
    if cx.case(|| "unrolled".into()) {
        check(cx, &families::opening(), -1, (0, 0));
    }
    families::sparse(cx, 1, 2, false, 1, &mut |cx, p| {
        for player in [-1, 1] {
            check(cx, &bgref::to_board(p, player), player, (4, 2));
        }
    });
    families::reachable(cx, if cx.thorough { 2 } else { 1 }, &mut |cx, p, pl| check(cx, &bgref::to_board(p, pl), pl, (3, 5)));
    one_after_another(cx, &mut |cx, &(b, player, roll, _)| check(cx, &b, player, roll));
    for hi in 0..27usize {
        if !cx.case(|| format!("tic-tac-toe {hi}")) {
            continue;
        }
        for lo in 0..729usize {
            let mut s = TicTacToe::new();
            let mut c = hi * 729 + lo;
            for i in 0..9 {
                s.board[i] = (c % 3) as i8 - 1;
                c /= 3;
            }
            cx.out.states += 1;
            let text = s.to_pretty_str();
            let read: Vec<Vec<i8>> = text.lines().map(|l| l.split('|').filter_map(|x| x.trim().parse().ok()).collect()).collect();
            let want: Vec<Vec<i8>> = s.board.chunks(3).map(|c| c.to_vec()).collect();
            cx.out.transitions += 9;
            cx.check(read == want, "ttt-rendering", || format!("{s:?}: {text}"));
        }
    }
}
