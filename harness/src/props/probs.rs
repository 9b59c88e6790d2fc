//! C14: move probabilities.
use super::{rules, search};
use crate::cx::Cx;
use crate::explore::{catch, dfs, Bounds};
use crate::families;
use crate::toy::{self, Edge, TNode, Table, Toy};
use crate::util::*;
use die_e::alphazero::alphazero::AlphaZero;
use die_e::base::LearnableGame;
use die_e::mcts::node_store::NodeStore;
use die_e::mcts::utils::{get_prob_tensor, get_prob_tensor_parallel, turn_policy_to_probs, turn_policy_to_probs_tensor, turn_policy_to_probs_tensor_parallel};
use std::collections::BTreeSet;
use tch::Tensor;

/// A table whose nodes 0.. offer exactly the given label lists.
fn offering(lists: &[Vec<u8>]) -> Table {
    let n = lists.len();
    let mut nodes: Vec<TNode> = lists
        .iter()
        .map(|l| TNode::Inner(l.iter().enumerate().map(|(i, &label)| Edge { label, to: (n + i % 2) as u16, keep: false, when: 0 }).collect()))
        .collect();
    nodes.push(TNode::End(1));
    nodes.push(TNode::End(0));
    Table { nodes, tagged: false }
}

fn at(node: usize) -> Toy<true> {
    let mut s = Toy::<true>::start(if node % 2 == 0 { -1 } else { 1 }, 0);
    s.0.node = node as u16;
    s
}

fn close(a: &[f64], b: &[f64]) -> bool {
    a.iter().zip(b).all(|(x, y)| (x - y).abs() < 1e-5)
}

/// The masked and normalised policy.
fn masked<T: LearnableGame>(s: &T, w: &[f32]) -> Vec<f64> {
    let mut v = vec![0.0; w.len()];
    for m in s.get_valid_moves() {
        let c = s.encode(&m) as usize;
        v[c] = w[c] as f64;
    }
    let sum: f64 = v.iter().sum();
    v.iter().map(|x| x / sum).collect()
}

fn policies<T: LearnableGame>(cx: &mut Cx, states: &[T], rows: &[Vec<f32>], what: &dyn Fn() -> String) {
    let r = catch(|| {
        let mut store = NodeStore::new();
        for s in states {
            store.add_node(*s, None, None, 0.0);
        }
        let flat: Vec<f32> = rows.concat();
        let t = Tensor::from_slice(&flat).view([rows.len() as i64, rows[0].len() as i64]);
        let many = turn_policy_to_probs_tensor_parallel(&store, &(0..states.len()).collect::<Vec<_>>(), &t);
        let size = many.size();
        let many = tensor_vec(&many);
        let ones: Vec<(Vec<f64>, Vec<f64>)> = (0..states.len())
            .map(|i| {
                let n = store.get_node(i);
                let row = Tensor::from_slice(&rows[i]);
                (turn_policy_to_probs(&row, &n).into_iter().map(|x| x as f64).collect(), tensor_vec(&turn_policy_to_probs_tensor(&row, &n)))
            })
            .collect();
        (size, many, ones)
    });
    cx.out.traces += 1;
    let Some((size, many, ones)) = cx.unwrap(r, "policy-panic", || format!("masking {rows:?} for {}", what())) else { return };
    let a = rows[0].len();
    if !cx.check(size == [states.len() as i64, a as i64], "policy-shape", || format!("batched masking gives shape {size:?} for {}", what())) {
        return;
    }
    for (i, s) in states.iter().enumerate() {
        cx.out.states += 1;
        cx.out.transitions += 3;
        if s.get_valid_moves().is_empty() {
            continue;
        }
        let want = masked(s, &rows[i]);
        let d = |got: &[f64], how: &str| format!("{how} of policy {:?} gives {:?}, the legal moves' normalised weights are {:?}, row {i} of {}", brief(&rows[i]), brief64(got), brief64(&want), what());
        let got = &many[i * a..(i + 1) * a];
        let exact0 = |g: &[f64]| g.iter().zip(&want).all(|(g, w)| *w != 0.0 || *g == 0.0);
        cx.check(close(got, &want) && exact0(got), "policy-batched", || d(got, "batched masking"));
        let (v, t) = &ones[i];
        cx.check(v.len() >= a && close(&v[..a], &want) && exact0(&v[..a]) && v[a..].iter().all(|x| *x == 0.0), "policy-vector", || d(&v[..a.min(v.len())], "masking to a vector"));
        cx.check(t.len() == a && close(t, &want) && exact0(t), "policy-tensor", || d(t, "masking to a tensor"));
        if cx.stop() {
            return;
        }
    }
}

fn brief(v: &[f32]) -> Vec<(usize, f32)> {
    v.iter().copied().enumerate().filter(|x| x.1 != 0.0).take(12).collect()
}
fn brief64(v: &[f64]) -> Vec<(usize, f64)> {
    v.iter().copied().enumerate().filter(|x| x.1 != 0.0).take(12).collect()
}

/// Visit counts given to the children of freshly expanded roots.
fn visit_shares<T: LearnableGame>(cx: &mut Cx, states: &[T], order: &[usize], visits: &dyn Fn(usize, usize) -> f32, what: &dyn Fn() -> String) {
    let a = T::ACTION_SPACE_SIZE as usize;
    let r = catch(|| {
        let mut store = NodeStore::new();
        for s in states {
            store.add_node(*s, None, None, 0.0);
        }
        let uniform = vec![1.0f32 / a as f32; a];
        for i in 0..states.len() {
            let mut n = store.get_node(i);
            n.alpha_expand(&mut store, uniform.clone());
            let kids = store.get_node(i).children;
            for (j, k) in kids.iter().enumerate() {
                store.get_node_as_mut(*k).visits = visits(i, j);
            }
        }
        let roots: Vec<_> = order.iter().map(|&i| store.get_node_ref(i)).collect();
        let many = get_prob_tensor_parallel(&roots, &store);
        let size = many.size();
        let many = tensor_vec(&many);
        let ones: Vec<Option<Vec<f64>>> = (0..states.len()).map(|i| get_prob_tensor(&states[i], i, &store).map(|t| tensor_vec(&t))).collect();
        let kids: Vec<Vec<(T::Move, f32)>> = (0..states.len())
            .map(|i| store.get_node(i).children.iter().map(|&k| (store.get_node(k).action_taken.clone().unwrap(), store.get_node(k).visits)).collect())
            .collect();
        (size, many, ones, kids)
    });
    cx.out.traces += 1;
    let Some((size, many, ones, kids)) = cx.unwrap(r, "shares-panic", || format!("visit shares of {}", what())) else { return };
    if !cx.check(size == [order.len() as i64, a as i64], "shares-shape", || format!("batched shares have shape {size:?} for {}", what())) {
        return;
    }
    for (row, &i) in order.iter().enumerate() {
        cx.out.states += 1;
        cx.out.transitions += 2;
        let total: f64 = kids[i].iter().map(|k| k.1 as f64).sum();
        if kids[i].is_empty() {
            cx.check(ones[i].is_none(), "shares-none", || format!("shares without moves: {:?} for {}", ones[i], what()));
            continue;
        }
        if total == 0.0 {
            continue;
        }
        let mut want = vec![0.0; a];
        for (m, v) in &kids[i] {
            want[states[i].encode(m) as usize] += *v as f64 / total;
        }
        let got = &many[row * a..(row + 1) * a];
        cx.check(close(got, &want), "shares-batched", || format!("visits {:?} become shares {:?}, expected {:?}, row {row} of {}", kids[i], brief64(got), brief64(&want), what()));
        let ok = ones[i].as_ref().is_some_and(|o| o.len() == a && close(o, &want));
        cx.check(ok, "shares-single", || format!("visits {:?} become shares {:?}, expected {:?}, game {i} of {}", kids[i], ones[i].as_ref().map(|o| brief64(o)), brief64(&want), what()));
        if cx.stop() {
            return;
        }
    }
}

fn sampling(cx: &mut Cx, pi: &[f32]) {
    let mut seen = BTreeSet::new();
    let mut raw = false;
    let mut bad = None;
    let st = dfs(&Bounds { max_runs: 4000, ..Bounds::full() }, |run| {
        let r = run.with(|| AlphaZero::weighted_select_tensor_idx(&Tensor::from_slice(pi)));
        raw |= run.raw() > 0;
        match r {
            Ok(i) => {
                seen.insert(i);
                true
            }
            Err(e) => {
                bad = Some(format!("{e:?}"));
                false
            }
        }
    });
    cx.add(st);
    cx.out.states += 1;
    if let Some(b) = bad {
        cx.fail("sampling-panic", format!("sampling from {:?}: {b}", brief(pi)));
        return;
    }
    let want: BTreeSet<usize> = pi.iter().enumerate().filter(|x| *x.1 > 0.0).map(|x| x.0).collect();
    cx.check(if raw { seen.is_subset(&want) } else { seen == want }, "sampling", || format!("sampling from {:?} selects {seen:?}, the positive ones are {want:?}", brief(pi)));
}

fn vectors(digits: &[f32], len: usize, f: &mut impl FnMut(&[f32])) {
    let k = digits.len();
    for code in 0..k.pow(len as u32) {
        let mut x = code;
        let v: Vec<f32> = (0..len).map(|_| { let d = digits[x % k]; x /= k; d }).collect();
        f(&v);
    }
}

pub fn c14(cx: &mut Cx) {
    // every ordered list of distinct labels
    let mut lists: Vec<Vec<u8>> = vec![];
    fn perms(cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if !cur.is_empty() {
            out.push(cur.clone());
        }
        for l in 0..4 {
            if !cur.contains(&l) {
                cur.push(l);
                perms(cur, out);
                cur.pop();
            }
        }
    }
    perms(&mut vec![], &mut lists);
    lists.push(vec![]);
    let digits: &[f32] = if cx.thorough { &[0.0, 0.01, 0.25, 1.0, 7.0] } else { &[0.0, 0.25, 3.0] };
    cx.bound(format!("four codes: all {} ordered lists of legal moves with all policies over weights {digits:?} (some legal weight positive), also scaled by 1e-6, 1e-4 and 3e4", lists.len()));
    for (li, l) in lists.iter().enumerate() {
        if !cx.case(|| format!("policies for moves {l:?}")) {
            continue;
        }
        toy::set_table(offering(&[l.clone(), lists[(li * 7 + 3) % lists.len()].clone()]));
        let (s, other) = (at(0), at(1));
        vectors(digits, 4, &mut |w| {
            if cx.stop() || masked(&s, w).iter().any(|x| x.is_nan()) {
                return;
            }
            policies(cx, &[s], &[w.to_vec()], &|| format!("moves {l:?}"));
            // as a row of a batch, first and last
            let ow = vec![0.5f32, 1.5, 0.25, 2.0];
            let scaled = |f: f32| -> Vec<f32> { w.iter().map(|x| x * f).collect() };
            policies(cx, &[s, other, s], &[w.to_vec(), ow.clone(), scaled(1e-6)], &|| format!("moves {l:?} and others"));
            policies(cx, &[other, s, s], &[ow, w.to_vec(), scaled(3e4)], &|| format!("others and moves {l:?}"));
            policies(cx, &[s], &[scaled(1e-4)], &|| format!("moves {l:?} with hardly any weight"));
        });
        cx.tick();
    }
    let vd: &[f32] = if cx.thorough { &[0.0, 1.0, 2.0, 5.0, 100.0] } else { &[0.0, 1.0, 4.0] };
    cx.bound(format!("four codes: all ordered lists of moves with all visit counts over {vd:?}, alone and in both orders with another game"));
    for (li, l) in lists.iter().enumerate() {
        if !cx.case(|| format!("visits for moves {l:?}")) {
            continue;
        }
        toy::set_table(offering(&[l.clone(), lists[(li * 11 + 5) % lists.len()].clone(), vec![]]));
        vectors(vd, l.len(), &mut |v| {
            if cx.stop() {
                return;
            }
            for order in [vec![0usize, 1], vec![1, 0], vec![0, 0, 1], vec![1, 2, 0]] {
                visit_shares(cx, &[at(0), at(1), at(2)], &order, &|g, k| if g == 0 { v[k] } else { (k + 2) as f32 }, &|| format!("games with moves {l:?}, order {order:?}"));
            }
        });
        cx.tick();
    }
    cx.bound("four codes: the same with visit counts of up to a million");
    for (li, l) in lists.iter().enumerate() {
        if !cx.case(|| format!("many visits for moves {l:?}")) {
            continue;
        }
        toy::set_table(offering(&[l.clone(), lists[(li * 11 + 5) % lists.len()].clone(), vec![]]));
        for d in [[1.0f32, 300.0, 1025.0], [0.0, 255.0, 256.0], [127.0, 70_000.0, 1_000_000.0]] {
            vectors(&d, l.len(), &mut |v| {
                if !cx.stop() {
                    visit_shares(cx, &[at(0), at(1), at(2)], &[1, 0], &|g, k| if g == 0 { v[k] } else { (k * 513 + 2) as f32 }, &|| format!("games with moves {l:?}"));
                }
            });
        }
        cx.tick();
    }
    cx.bound("batches of 100 to 1100 games: masking and visit shares");
    for n in [100usize, 128, 255, 256, 257, 300, 513, 1025, 1100] {
        if cx.case(|| format!("crowd {n}")) {
            toy::set_table(offering(&lists));
            let states: Vec<_> = (0..n).map(|i| at((i * 31 + i / 7) % lists.len())).collect();
            let rows: Vec<Vec<f32>> = (0..n).map(|i| (0..4).map(|k| ((i * 7 + k * 13) % 19 + 1) as f32 / 20.0).collect()).collect();
            policies(cx, &states, &rows, &|| format!("{n} games"));
            let order: Vec<usize> = (0..n).map(|i| (i * 769 + 5) % n).collect();
            visit_shares(cx, &states, &order, &|g, k| ((g * 5 + k * 3) % 11 + (k == 0) as usize) as f32, &|| format!("{n} games"));
        }
    }
    cx.bound("sampling: all vectors of up to six weights over {0, 1e-6, 0.5, 2}, every outcome");
    for len in 1..=if cx.thorough { 7 } else { 5 } {
        if cx.case(|| format!("sampling of {len} weights")) {
            vectors(&[0.0, 1e-6, 0.5, 2.0], len, &mut |v| {
                if !cx.stop() && v.iter().any(|&x| x > 0.0) {
                    sampling(cx, v);
                }
            });
        }
    }
    cx.bound("tic-tac-toe: every unfinished position with a fixed uneven policy, in batches; visit shares likewise");
    let ttt: Vec<_> = ttt_positions().into_iter().filter(|s| s.check_winner().is_none()).collect();
    let weigh = |n: usize, salt: usize| -> Vec<f32> { (0..n).map(|i| (((i * 7919 + salt * 31) % 101) + 1) as f32 / 100.0).collect() };
    for (k, part) in ttt.chunks(64).enumerate() {
        if cx.case(|| format!("tictactoe part {k}")) {
            let rows: Vec<Vec<f32>> = (0..part.len()).map(|i| weigh(9, i)).collect();
            policies(cx, part, &rows, &|| "tic-tac-toe".into());
            let order: Vec<usize> = (0..part.len()).rev().collect();
            visit_shares(cx, part, &order, &|g, k| ((g * 5 + k * 3) % 7) as f32, &|| "tic-tac-toe".into());
        }
    }
    cx.bound("backgammon: openings of all rolls, both second-play flags, and the forced-pass positions, with a fixed uneven policy");
    let mut bg: Vec<_> = vec![];
    for r in families::ROLLS36 {
        for p in [-1i8, 1] {
            bg.push(rules::state(&families::opening(), p, r, false));
            if r.0 == r.1 {
                bg.push(rules::state(&families::opening(), p, r, true));
            }
        }
    }
    bg.extend(search::blocked_positions().into_iter().map(|x| x.0).step_by(if cx.thorough { 1 } else { 9 }));
    for (k, part) in bg.chunks(16).enumerate() {
        if cx.case(|| format!("backgammon part {k}")) {
            let rows: Vec<Vec<f32>> = (0..part.len()).map(|i| weigh(1352, i)).collect();
            policies(cx, part, &rows, &|| "backgammon".into());
            let order: Vec<usize> = (0..part.len()).rev().collect();
            visit_shares(cx, part, &order, &|g, k| ((g * 5 + k * 3) % 7) as f32, &|| "backgammon".into());
            for i in 0..part.len() {
                if !part[i].get_valid_moves().is_empty() {
                    let pi: Vec<f32> = masked(&part[i], &rows[i]).iter().map(|x| *x as f32).collect();
                    sampling(cx, &pi);
                }
            }
        }
    }
}
