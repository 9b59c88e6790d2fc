//! Independent reference rules of backgammon. Written from the rules of the game in mover-relative
//! pip coordinates (1..=24 is the distance to bear off, 25 the bar, 0 borne off), not from the
//! implementation's signed point array.
use die_e::backgammon::backgammon_logic::Board;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Pos {
    pub own: [u8; 26], // [0] borne off, [25] bar
    pub opp: [u8; 25], // opposing checkers on my pips 1..=24
    pub opp_bar: u8,
    pub opp_off: u8,
}

/// One checker: from pip (25 = bar), to pip (0 = off).
pub type Step = (u8, u8);

pub fn pip_of(player: i8, point: usize) -> usize {
    if player == -1 {
        point + 1
    } else {
        24 - point
    }
}

pub fn point_of(player: i8, pip: u8) -> i8 {
    if player == -1 {
        pip as i8 - 1
    } else {
        24 - pip as i8
    }
}

pub fn from_board(b: &Board, player: i8) -> Pos {
    let mut p = Pos { own: [0; 26], opp: [0; 25], opp_bar: 0, opp_off: 0 };
    for (i, &n) in b.0.iter().enumerate() {
        let pip = pip_of(player, i);
        if n.signum() == player {
            p.own[pip] = n.unsigned_abs();
        } else if n != 0 {
            p.opp[pip] = n.unsigned_abs();
        }
    }
    let (mine, theirs) = if player == -1 { ((b.1 .0, b.2 .0), (b.1 .1, b.2 .1)) } else { ((b.1 .1, b.2 .1), (b.1 .0, b.2 .0)) };
    p.own[25] = mine.0;
    p.own[0] = mine.1;
    p.opp_bar = theirs.0;
    p.opp_off = theirs.1;
    p
}

pub fn to_board(p: &Pos, player: i8) -> Board {
    let mut b: Board = ([0; 24], (0, 0), (0, 0));
    for pip in 1..=24usize {
        let i = point_of(player, pip as u8) as usize;
        if p.own[pip] > 0 {
            b.0[i] = player * p.own[pip] as i8;
        } else if p.opp[pip] > 0 {
            b.0[i] = -player * p.opp[pip] as i8;
        }
    }
    let (mine, theirs) = ((p.own[25], p.own[0]), (p.opp_bar, p.opp_off));
    if player == -1 {
        b.1 = (mine.0, theirs.0);
        b.2 = (mine.1, theirs.1);
    } else {
        b.1 = (theirs.0, mine.0);
        b.2 = (theirs.1, mine.1);
    }
    b
}

/// The step of a checker on `from` with one die, if the rules allow it.
pub fn step(p: &Pos, from: u8, die: u8) -> Option<(Step, Pos)> {
    if p.own[from as usize] == 0 || from == 0 {
        return None;
    }
    if p.own[25] > 0 && from != 25 {
        return None;
    }
    if from > die {
        let to = from - die;
        if p.opp[to as usize] >= 2 {
            return None;
        }
        let mut q = *p;
        q.own[from as usize] -= 1;
        if q.opp[to as usize] == 1 {
            q.opp[to as usize] = 0;
            q.opp_bar += 1;
        }
        q.own[to as usize] += 1;
        Some(((from, to), q))
    } else {
        // bearing off: every checker home
        if p.own[7..=25].iter().any(|&n| n > 0) {
            return None;
        }
        // a larger die only takes the farthest checker
        if from < die && p.own[from as usize + 1..=6].iter().any(|&n| n > 0) {
            return None;
        }
        let mut q = *p;
        q.own[from as usize] -= 1;
        q.own[0] += 1;
        Some(((from, 0), q))
    }
}

pub struct Play {
    pub n: usize,
    pub steps: [Step; 2],
    pub end: Pos,
}

/// Every sequence of steps with the two dice that cannot be continued; both dice orders.
pub fn sequences(p: &Pos, roll: (u8, u8), out: &mut Vec<Play>) {
    out.clear();
    let orders: &[(u8, u8)] = if roll.0 == roll.1 { &[(roll.0, roll.1)] } else { &[(roll.0, roll.1), (roll.1, roll.0)] };
    for &(d1, d2) in orders {
        for f1 in (1..=25u8).rev() {
            let Some((s1, q)) = step(p, f1, d1) else { continue };
            let mut more = false;
            for f2 in (1..=25u8).rev() {
                if let Some((s2, r)) = step(&q, f2, d2) {
                    more = true;
                    out.push(Play { n: 2, steps: [s1, s2], end: r });
                }
            }
            if !more {
                out.push(Play { n: 1, steps: [s1, (0, 0)], end: q });
            }
        }
    }
}

/// The legal plays: as many dice as possible.
pub fn legal(p: &Pos, roll: (u8, u8), out: &mut Vec<Play>) {
    sequences(p, roll, out);
    let max = out.iter().map(|x| x.n).max().unwrap_or(0);
    out.retain(|x| x.n == max);
}

/// Implementation action (from point or -1 for the bar, to point or -1 for off) to pips.
pub fn action_step(player: i8, a: (i8, i8)) -> Option<Step> {
    let f = match a.0 {
        -1 => 25,
        f if (0..24).contains(&f) => pip_of(player, f as usize) as u8,
        _ => return None,
    };
    let t = match a.1 {
        -1 => 0,
        t if (0..24).contains(&t) => pip_of(player, t as usize) as u8,
        _ => return None,
    };
    Some((f, t))
}

pub fn step_action(player: i8, s: Step) -> (i8, i8) {
    (if s.0 == 25 { -1 } else { point_of(player, s.0) }, if s.1 == 0 { -1 } else { point_of(player, s.1) })
}
