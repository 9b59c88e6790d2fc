//! Exhaustively enumerated families of backgammon positions, in mover-relative coordinates.
use crate::bgref::Pos;
use crate::cx::Cx;
use die_e::backgammon::backgammon_logic::Board;
use std::collections::HashSet;

pub const ROLLS21: [(u8, u8); 21] = {
    let mut r = [(0, 0); 21];
    let mut i = 0;
    let mut a = 1;
    while a <= 6 {
        let mut b = a;
        while b <= 6 {
            // alternate which die is first, so that both orders occur
            r[i] = if (a + b) % 2 == 0 { (a, b) } else { (b, a) };
            i += 1;
            b += 1;
        }
        a += 1;
    }
    r
};

pub const ROLLS36: [(u8, u8); 36] = {
    let mut r = [(0, 0); 36];
    let mut i = 0;
    while i < 36 {
        r[i] = (i as u8 / 6 + 1, i as u8 % 6 + 1);
        i += 1;
    }
    r
};

pub fn empty() -> Pos {
    Pos { own: [0; 26], opp: [0; 25], opp_bar: 0, opp_off: 0 }
}

/// Puts the checkers that are nowhere else into the trays.
pub fn fill(p: &mut Pos) {
    let own: u32 = p.own[1..].iter().map(|&n| n as u32).sum();
    let opp: u32 = p.opp.iter().map(|&n| n as u32).sum::<u32>() + p.opp_bar as u32;
    p.own[0] = (15 - own) as u8;
    p.opp_off = (15 - opp) as u8;
}

fn multisets(k: usize, lo: u8, hi: u8, f: &mut impl FnMut(&[u8])) {
    fn rec(k: usize, lo: u8, hi: u8, acc: &mut Vec<u8>, f: &mut impl FnMut(&[u8])) {
        f(acc);
        if k == 0 {
            return;
        }
        for x in lo..=hi {
            acc.push(x);
            rec(k - 1, x, hi, acc, f);
            acc.pop();
        }
    }
    rec(k, lo, hi, &mut vec![], f)
}

/// A: at most `own` own checkers anywhere (bar included), `opp` opposing points with a blot or two
/// checkers each.
pub fn sparse(cx: &mut Cx, own: usize, opp: usize, only_blocks: bool, opp_bar: u8, f: &mut impl FnMut(&mut Cx, &Pos)) {
    let mut owns: Vec<Vec<u8>> = vec![];
    multisets(own, 1, 25, &mut |m| {
        if !m.is_empty() {
            owns.push(m.to_vec())
        }
    });
    for m in owns {
        if !cx.case(|| format!("sparse own={m:?} opp<={opp} blocks={only_blocks} bar={opp_bar}")) {
            continue;
        }
        let mut base = empty();
        for &x in &m {
            base.own[x as usize] += 1;
        }
        base.opp_bar = opp_bar;
        let free: Vec<usize> = (1..=24).filter(|&i| base.own[i] == 0).collect();
        fn rec(cx: &mut Cx, p: &mut Pos, free: &[usize], k: usize, only_blocks: bool, f: &mut impl FnMut(&mut Cx, &Pos)) {
            let mut q = *p;
            fill(&mut q);
            if q.opp_off < 15 {
                f(cx, &q);
            }
            if k == 0 {
                return;
            }
            for (j, &i) in free.iter().enumerate() {
                for n in if only_blocks { 2..=2u8 } else { 1..=2 } {
                    p.opp[i] = n;
                    rec(cx, p, &free[j + 1..], k - 1, only_blocks, f);
                    p.opp[i] = 0;
                }
            }
        }
        rec(cx, &mut base, &free, opp, only_blocks, f);
        cx.tick();
    }
}

/// B: every filling of the own home board with 0..=2 own or 1..=2 opposing checkers per point, with
/// variations outside it.
pub fn home(cx: &mut Cx, f: &mut impl FnMut(&mut Cx, &Pos)) {
    for outer in 0..5usize {
        for hi in 0..125usize {
            if !cx.case(|| format!("home outside={outer} high={hi}")) {
                continue;
            }
            for lo in 0..125usize {
                let mut p = empty();
                let mut code = hi * 125 + lo;
                for pip in 1..=6 {
                    match code % 5 {
                        0 => {}
                        1 => p.own[pip] = 1,
                        2 => p.own[pip] = 2,
                        3 => p.opp[pip] = 1,
                        _ => p.opp[pip] = 2,
                    }
                    code /= 5;
                }
                match outer {
                    0 => {}
                    1 => p.own[7] = 1,
                    2 => p.own[24] = 1,
                    3 => p.opp_bar = 1,
                    _ => {
                        // the rest of the checkers on the farthest home point, as early in a bear-off
                        let own: u8 = p.own[1..].iter().sum();
                        if p.opp[6] > 0 {
                            continue;
                        }
                        p.own[6] += 15 - own - 1;
                    }
                }
                if p.opp.iter().sum::<u8>() + p.opp_bar == 0 {
                    p.opp[20] = 3;
                }
                if p.own[1..].iter().sum::<u8>() == 0 {
                    continue;
                }
                fill(&mut p);
                f(cx, &p);
            }
        }
    }
}

/// D: checkers on the bar against every pattern of the entry quadrant.
pub fn entry(cx: &mut Cx, f: &mut impl FnMut(&mut Cx, &Pos)) {
    for bar in 1..=3u8 {
        for extra in 0..4usize {
            for hi in 0..25usize {
                if !cx.case(|| format!("entry bar={bar} extra={extra} high={hi}")) {
                    continue;
                }
                for lo in 0..625usize {
                    let mut p = empty();
                    let mut code = hi * 625 + lo;
                    for pip in 19..=24 {
                        match code % 5 {
                            0 => {}
                            1 => p.own[pip] = 1,
                            2 => p.own[pip] = 2,
                            3 => p.opp[pip] = 1,
                            _ => p.opp[pip] = 2,
                        }
                        code /= 5;
                    }
                    p.own[25] = bar;
                    match extra {
                        0 => {}
                        1 => p.own[13] = 1,
                        2 => {
                            p.own[6] = 1;
                            p.opp[13] = 2
                        }
                        _ => {
                            p.own[18] = 1;
                            p.opp_bar = 1
                        }
                    }
                    if p.opp.iter().sum::<u8>() + p.opp_bar == 0 {
                        p.opp[1] = 2;
                    }
                    if p.own.iter().sum::<u8>() > 15 || p.opp.iter().sum::<u8>() > 14 {
                        continue;
                    }
                    fill(&mut p);
                    f(cx, &p);
                }
            }
        }
    }
}

/// M: a run of twelve points with every pattern of blocks and blots against three own checkers at
/// its far end (dense contact).
pub fn prime(cx: &mut Cx, f: &mut impl FnMut(&mut Cx, &Pos)) {
    for shape in 0..6usize {
        for hi in 0..27usize {
            if !cx.case(|| format!("prime shape={shape} high={hi}")) {
                continue;
            }
            for lo in 0..243usize {
                let mut p = empty();
                let mut code = hi * 243 + lo;
                let base = if shape < 3 { 10 } else { 3 };
                // eight points in front of the runners
                for i in 0..8usize {
                    match code % 3 {
                        0 => {}
                        n => p.opp[base + i] = n as u8,
                    }
                    code /= 3;
                }
                match shape % 3 {
                    0 => p.own[base + 8] = 3,
                    1 => {
                        p.own[base + 8] = 1;
                        p.own[base + 9] = 1;
                    }
                    _ => {
                        p.own[base + 8] = 2;
                        p.own[base + 11] = 1;
                    }
                }
                if p.opp.iter().sum::<u8>() > 15 {
                    continue;
                }
                if p.opp.iter().sum::<u8>() == 0 {
                    p.opp[24] = 1;
                }
                fill(&mut p);
                f(cx, &p);
            }
        }
    }
}

pub fn opening() -> Board {
    // the standard set-up: two on the 24 point, five on the mid-point, three on the 8 point, five on the 6 point
    let mut p = empty();
    p.own[24] = 2;
    p.own[13] = 5;
    p.own[8] = 3;
    p.own[6] = 5;
    for (pip, n) in [(24, 2), (13, 5), (8, 3), (6, 5)] {
        p.opp[25 - pip] = n;
    }
    crate::bgref::to_board(&p, -1)
}

/// C: positions reachable from the opening within `depth` plays (any rolls, any legal plays), by
/// breadth-first search over the reference rules. The last level is generated, not stored.
pub fn reachable(cx: &mut Cx, depth: usize, f: &mut impl FnMut(&mut Cx, &Pos, i8)) {
    let mut level: Vec<(Pos, i8)> = [-1i8, 1].iter().map(|&pl| (crate::bgref::from_board(&opening(), pl), pl)).collect();
    let mut plays = vec![];
    for d in 0..=depth {
        for chunk in level.chunks(64) {
            if !cx.case(|| format!("reachable depth={d} first={:?}", crate::bgref::to_board(&chunk[0].0, chunk[0].1))) {
                continue;
            }
            for (p, pl) in chunk {
                f(cx, p, *pl);
            }
        }
        if d == depth {
            break;
        }
        let mut seen = HashSet::new();
        let mut next = vec![];
        for (p, pl) in &level {
            for r in ROLLS21 {
                crate::bgref::legal(p, r, &mut plays);
                for x in &plays {
                    let b = crate::bgref::to_board(&x.end, *pl);
                    let q = crate::bgref::from_board(&b, -pl);
                    if seen.insert((q, -pl)) {
                        next.push((q, -*pl));
                    }
                }
            }
        }
        level = next;
    }
}
