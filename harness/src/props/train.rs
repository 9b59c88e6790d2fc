//! C21, C23, C25: the best model, training passes, learning runs.
use super::learn::{judge_samples, pass_ends, samples, stories};
use super::matches::{finals, Sendable};
use super::store::{flat, fresh_dir, sample, weights, Flat};
use crate::cx::Cx;
use crate::explore::{catch, dfs, Bounds, Fail, Run};
use crate::toy::{self, show, Shape, Table, TNode, Toy};
use crate::util::*;
use die_e::alphazero::alphazero::{AlphaZero, MemoryFragment};
use die_e::alphazero::nnet::ResNet;
use die_e::base::LearnableGame;
use die_e::constants::DEVICE;
use die_e::tictactoe::TicTacToe;
use itertools::Itertools;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use tch::nn::{self, Optimizer, OptimizerConfig, VarStore};
use tch::{Kind, Tensor};

type T1 = Toy<true>;

// ---------------------------------------------------------------- C23

/// The reference training: its own gradient steps on a copy of the model.
pub struct Reference {
    net: ResNet,
    fine: ResNet, // the same in double precision, to know which gradients are mere rounding
    opt: Optimizer,
    lr: f64,
    steps: usize,
    firm: BTreeMap<String, Vec<bool>>, // entries whose gradient was clearly not zero at every step
    wd: f64,
}

impl Reference {
    pub fn new<T: LearnableGame>(from: &ResNet, lr: f64, wd: f64) -> Reference {
        let mut net = ResNet::new::<T>(VarStore::new(*DEVICE));
        net.vs.copy(&from.vs).expect("copy");
        let opt = nn::Adam::default().wd(wd).build(&net.vs, lr).expect("optimizer");
        let mut fine = ResNet::new::<T>(VarStore::new(*DEVICE));
        fine.vs.double();
        Reference { net, fine, opt, lr, steps: 0, firm: BTreeMap::new(), wd }
    }

    /// One optimiser step on these samples.
    pub fn step(&mut self, batch: &[&Flat], shape: &[i64]) {
        let n = batch.len() as i64;
        let f = |v: Vec<f32>| Tensor::from_slice(&v);
        let cat = |g: &dyn Fn(&Flat) -> &Vec<f64>| -> Vec<f32> { batch.iter().flat_map(|s| g(s).iter().map(|x| *x as f32)).collect() };
        let mut xs = vec![n];
        xs.extend(shape.iter().skip(if shape.len() == 4 { 1 } else { 0 }));
        let x = f(cat(&|s| &s.2)).view(xs.as_slice());
        let ps = f(cat(&|s| &s.1)).view([n, -1]);
        let z = f(batch.iter().map(|s| s.0 as f32).collect()).view([n, 1]);
        let loss = |n: &ResNet, k: Kind| {
            let (logits, v) = n.forward_train(&x.to_kind(k), true);
            let policy = (ps.to_kind(k) * logits.log_softmax(1, k)).sum(k) * (-1.0 / batch.len() as f64);
            let value = (v - z.to_kind(k)).square().sum(k) * (1.0 / batch.len() as f64);
            policy + value
        };
        self.fine.vs.copy(&self.net.vs).expect("copy");
        for (_, mut t) in self.fine.vs.variables() {
            t.zero_grad();
        }
        loss(&self.fine, Kind::Double).backward();
        self.opt.zero_grad();
        loss(&self.net, Kind::Float).backward();
        let grads = |n: &ResNet, wd: f64| -> BTreeMap<String, Vec<f64>> {
            n.vs.variables()
                .into_iter()
                .map(|(name, t)| {
                    let w = tensor_vec(&t.detach());
                    let g = if t.grad().defined() { tensor_vec(&t.grad()) } else { vec![0.0; w.len()] };
                    (name, g.iter().zip(&w).map(|(g, w)| g + wd * w).collect())
                })
                .collect()
        };
        let (rough, exact) = (grads(&self.net, self.wd), grads(&self.fine, self.wd));
        let big = exact.values().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
        for (name, g) in &exact {
            let r = &rough[name];
            let noise = g.iter().zip(r).fold(0.0f64, |a, (x, y)| a.max((x - y).abs()));
            let e = self.firm.entry(name.clone()).or_insert_with(|| vec![true; g.len()]);
            for (a, x) in e.iter_mut().zip(g) {
                *a &= x.abs() > 20.0 * noise && x.abs() > 1e-5 * big && x.abs() > 1e-6;
            }
        }
        self.opt.step();
        self.steps += 1;
    }

    /// Compares the running statistics, closely: with a tiny learning rate they depend on the samples alone.
    pub fn running(&self, got: &BTreeMap<String, Vec<f64>>) -> Result<(), String> {
        let mine = weights(&self.net);
        if got.keys().ne(mine.keys()) {
            return Err("other variables".into());
        }
        let slack = 3.0 * self.lr * self.steps as f64;
        for (k, a) in &mine {
            let b = &got[k];
            if a.len() != b.len() {
                return Err(format!("{k} has another size"));
            }
            if self.lr < 1e-6 || k.contains("running") {
                let rel = if k.contains("running") { if self.lr < 1e-6 { 1e-4 } else { 0.02 } } else { 1e-6 };
                for i in 0..a.len() {
                    if (a[i] - b[i]).abs() > rel * a[i].abs() + 1e-6 + slack + if self.lr < 1e-6 { 0.0 } else { 1e-4 } {
                        return Err(format!("{k}[{i}] is {:.6}, by the reference {:.6}", b[i], a[i]));
                    }
                }
            }
        }
        Ok(())
    }

    /// None if the model agrees with the reference; else the worst entry. Also how many entries count.
    pub fn disagreement(&self, got: &BTreeMap<String, Vec<f64>>) -> Result<usize, String> {
        let mine = weights(&self.net);
        if got.keys().ne(mine.keys()) {
            return Err("other variables".into());
        }
        let mut n = 0;
        for (k, a) in &mine {
            let b = &got[k];
            if a.len() != b.len() {
                return Err(format!("{k} has another size"));
            }
            let running = k.contains("running");
            let none = vec![true; a.len()];
            let firm = if running || self.steps == 0 { &none } else { self.firm.get(k).unwrap_or(&none) };
            let tol = if running { 3.0 * self.lr * self.steps as f64 + 1e-4 } else { 0.05 * self.lr * self.steps as f64 + 1e-6 };
            for i in 0..a.len() {
                if firm[i] {
                    n += !running as usize;
                    let rel = if running { a[i].abs() * 0.02 } else { 0.0 };
                    if (a[i] - b[i]).abs() > tol + rel {
                        return Err(format!("{k}[{i}] is {:.6}, by the reference {:.6} (learning rate {}, {} steps)", b[i], a[i], self.lr, self.steps));
                    }
                }
            }
        }
        Ok(n)
    }
}

fn trainer<T: LearnableGame>(lr: f64, wd: f64, batch: usize) -> Result<AlphaZero, Fail> {
    let mut c = full_conf(2, 2.0, 5, 0.3, 0.25, 1.0, 1, batch);
    for p in c.iter_mut() {
        if p.0 == "lr" {
            p.1 = lr;
        }
        if p.0 == "wd" {
            p.1 = wd;
        }
    }
    Run::default_run().with(|| {
        tch::manual_seed(21);
        AlphaZero::from_config::<T>(None, &conf(&c))
    })
}

/// Samples whose policy targets are shares, as they are in self-play, or not normalised.
fn memory<T: LearnableGame>(shape: &Tensor, n: usize, seed: u64, normal: bool) -> Vec<MemoryFragment> {
    (0..n)
        .map(|i| {
            let mut m = sample::<T>(shape, seed + i as u64 * 5, [1, -1, 0, -1][i % 4]);
            m.ps = m.ps.square();
            if normal {
                let s = m.ps.sum(Kind::Float);
                m.ps = &m.ps / s;
            }
            m
        })
        .collect()
}

fn orders(n: usize, b: usize) -> Vec<Vec<Vec<usize>>> {
    let mut seen = BTreeSet::new();
    (0..n)
        .permutations(n)
        .map(|p| p.chunks(b).map(|c| c.iter().copied().sorted().collect_vec()).collect_vec())
        .filter(|p| seen.insert(p.clone()))
        .collect()
}

#[allow(clippy::too_many_arguments)]
pub fn training_pass<T: LearnableGame>(cx: &mut Cx, n: usize, b: usize, lr: f64, wd: f64, normal: bool, passes: usize, bounds: &Bounds) {
    training_pass_of::<T>(cx, n, b, lr, wd, normal, passes, bounds, 0.0)
}

/// Makes the model sure of itself: its policy outputs (before the softmax) reach from minus to plus `by`.
fn sharpen<T: LearnableGame>(n: &ResNet, by: f64) {
    let a = T::ACTION_SPACE_SIZE;
    let _g = tch::no_grad_guard();
    for (_, mut t) in n.vs.variables() {
        if t.size() == [a] && by != 0.0 {
            let v: Vec<f32> = (0..a).map(|i| (by * (1.0 - 2.0 * ((i * 5 + 2) % a) as f64 / (a - 1) as f64)) as f32).collect();
            t.copy_(&Tensor::from_slice(&v));
        }
    }
}

/// One or more training passes over n samples, every shuffle, against the reference.
#[allow(clippy::too_many_arguments)]
pub fn training_pass_of<T: LearnableGame>(cx: &mut Cx, n: usize, b: usize, lr: f64, wd: f64, normal: bool, passes: usize, bounds: &Bounds, sharp: f64) {
    let shape = {
        let mut s = T::new();
        if !T::IS_DETERMINISTIC {
            let _ = Run::default_run().with(|| s.roll_die());
        }
        s.as_tensor()
    };
    let size = shape.size();
    let Some(az) = cx.unwrap(trainer::<T>(lr, wd, b), "learner", || "constructing the learner".into()) else { return };
    sharpen::<T>(&az.model, sharp);
    let data = flat(&memory::<T>(&shape, n, 300 + n as u64, normal));
    let all = orders(n, b);
    // the reference for every order of every pass
    let mut refs: Vec<Reference> = vec![];
    for combo in (0..passes).map(|_| 0..all.len()).multi_cartesian_product() {
        let mut r = Reference::new::<T>(&az.model, lr, wd);
        for o in combo {
            for batch in &all[o] {
                let v: Vec<&Flat> = batch.iter().map(|i| &data[*i]).collect();
                r.step(&v, &size);
            }
        }
        refs.push(r);
    }
    cx.out.states += refs.len() as u64;
    cx.tick();
    drop(az);
    let st = dfs(bounds, |run| {
        let Ok(mut az) = trainer::<T>(lr, wd, b) else { return false };
        sharpen::<T>(&az.model, sharp);
        let mut mem = memory::<T>(&shape, n, 300 + n as u64, normal);
        let r = run.with(|| {
            for _ in 0..passes {
                az.train(&mut mem);
            }
        });
        let what = || format!("{passes} passes over {n} samples, batches of {b}, learning rate {lr}, weight decay {wd}, shuffle {:?}, policy outputs beyond {sharp}", run.choices());
        if cx.unwrap(r, "panic", || format!("training, {}", what())).is_none() {
            return false;
        }
        let mut after = flat(&mem);
        let mut before = data.clone();
        let key = |f: &Flat| format!("{f:?}");
        after.sort_by_key(key);
        before.sort_by_key(key);
        if !cx.check(after == before, "memory", || format!("training changes the samples, {}", what())) {
            return false;
        }
        let got = weights(&az.model);
        let mut nearest = String::new();
        let mut firm = 0;
        let ok = refs.iter().any(|r| match r.disagreement(&got) {
            Ok(k) => {
                firm = k;
                true
            }
            Err(e) => {
                nearest = e;
                false
            }
        });
        cx.out.transitions += 1;
        cx.tick();
        if firm > 0 && firm < 50 {
            cx.out.undecided += 1;
        }
        cx.check(ok, "step", || format!("no division of the samples into batches explains the trained model ({} tried; against the last: {nearest}); {}", refs.len(), what()))
    });
    cx.add(st);
}

/// Equal samples: the number and size of the steps, whatever the shuffle.
pub fn step_count(cx: &mut Cx, n: usize, b: usize) {
    let shape = T1::start(-1, 0).as_tensor();
    let size = shape.size();
    let (lr, wd) = (0.003, 0.01);
    let Some(mut az) = cx.unwrap(trainer::<T1>(lr, wd, b), "learner", || "constructing the learner".into()) else { return };
    let mut mem: Vec<MemoryFragment> = (0..n).map(|_| memory::<T1>(&shape, 1, 9, true).remove(0)).collect();
    let data = flat(&mem);
    let mut r = Reference::new::<T1>(&az.model, lr, wd);
    for c in data.chunks(b) {
        r.step(&c.iter().collect_vec(), &size);
    }
    let run = Run::with_bounds(&Bounds { base: 3, ..Bounds::full() });
    let res = run.with(|| az.train(&mut mem));
    cx.out.traces += 1;
    if cx.unwrap(res, "panic", || format!("training on {n} samples in batches of {b}")).is_some() {
        let d = r.disagreement(&weights(&az.model));
        cx.check(d.is_ok(), "steps", || format!("{n} equal samples in batches of {b}: {}", d.unwrap_err()));
    }
    cx.tick();
}

pub fn c23(cx: &mut Cx) {
    toy::set_table(Table::new(&Shape::Node(vec![(false, 0, Shape::End(1))]), false));
    let t = cx.thorough;
    let nmax = if t { 6 } else { 5 };
    cx.bound(format!("one pass over 1 to {nmax} samples in batches of 1 to {}: every shuffle, against the reference gradient steps of every division into batches", nmax + 1));
    for n in 1..=nmax {
        for b in 1..=n + 1 {
            for (k, (lr, wd, normal)) in [(0.01, 0.0, true), (0.002, 0.1, false)].into_iter().enumerate() {
                // batches of one position have no variance in places; the game's own input is 2x2
                if cx.case(|| format!("pass {n} samples batch {b} variant {k}")) {
                    training_pass::<T1>(cx, n, b, lr, wd, normal, 1, &Bounds::full());
                }
                if cx.stop() {
                    return;
                }
            }
        }
    }
    cx.bound("two and three passes in a row over 2 or 3 samples: every combination of shuffles");
    for (n, b, passes) in [(2usize, 1usize, 2usize), (3, 2, 2), (3, 1, 2), (2, 1, 3), (3, 5, 3)] {
        if cx.case(|| format!("passes {passes} of {n} samples batch {b}")) {
            training_pass::<T1>(cx, n, b, 0.004, 0.01, true, passes, &Bounds::full());
        }
    }
    cx.bound("models sure of themselves (policy outputs of 3 to 60 before the softmax): one to three passes over one to three samples, every shuffle");
    for by in [3.0, 12.0, 25.0, 60.0] {
        for (n, b, passes) in [(1usize, 1usize, 3usize), (2, 1, 2), (3, 1, 1), (3, 2, 2), (4, 4, 1)] {
            if cx.case(|| format!("sure by {by}: passes {passes} of {n} samples batch {b}")) {
                training_pass_of::<T1>(cx, n, b, 0.003, 0.0, true, passes, &Bounds::full(), by);
                training_pass_of::<T1>(cx, n, b, 0.01, 0.01, false, passes, &Bounds::full(), -by);
            }
            if cx.stop() {
                return;
            }
        }
    }
    cx.bound("tic-tac-toe: 3 samples in batches of 1 to 4, every shuffle");
    for b in 1..=4 {
        if cx.case(|| format!("tictactoe batch {b}")) {
            training_pass::<TicTacToe>(cx, 3, b, 0.002, 0.01, true, 1, &Bounds::full());
        }
    }
    cx.bound("up to 300 equal samples in batches of up to 301, and up to 2048 in batches of up to 5000: number and size of the steps");
    for (n, b) in [(511usize, 512usize), (512, 512), (513, 512), (513, 256), (1000, 128), (1000, 999), (1024, 1024), (1025, 1024), (2048, 1000), (2048, 512), (2048, 5000)] {
        if cx.case(|| format!("equal samples {n} batch {b}")) {
            step_count(cx, n, b);
        }
    }
    let sizes: &[usize] = &[1, 2, 3, 7, 8, 9, 16, 17, 31, 33, 64, 100, 255, 256, 257, 300];
    for &n in sizes {
        for b in [1usize, 2, 3, 7, 8, 9, 16, 64, 255, 256, 257, 301] {
            if n / b > if t { 300 } else { 40 } {
                continue;
            }
            if cx.case(|| format!("equal samples {n} batch {b}")) {
                step_count(cx, n, b);
            }
        }
    }
}

// ---------------------------------------------------------------- C21

/// Makes the model prefer the codes in this order, strongly, in every position.
pub fn bias_policy<T: LearnableGame>(n: &ResNet, order: &[usize]) {
    let a = T::ACTION_SPACE_SIZE;
    let _g = tch::no_grad_guard();
    for (_, mut t) in n.vs.variables() {
        let s = t.size();
        if s == [a] {
            let mut v = vec![-12.0f32; a as usize];
            for (i, c) in order.iter().enumerate() {
                v[*c] = 12.0 - 1.0 * i as f32;
            }
            t.copy_(&Tensor::from_slice(&v));
        } else if s.len() == 2 && s[0] == a {
            let _ = t.zero_();
        }
    }
}

/// The code of the root's k-th move.
fn root_code(k: usize) -> usize {
    let s = T1::start(-1, 0).0;
    match &toy::table().nodes[0] {
        TNode::Inner(es) => (s.label(&es[k]) as usize + s.shift() as usize) % toy::A as usize,
        _ => 0,
    }
}

fn challenger(iters: usize, c: f64) -> Result<AlphaZero, Fail> {
    Run::default_run().with(|| {
        tch::manual_seed(33);
        learner::<T1>(iters, c, 5, 0.3, 0.0, 1.0, 1, 4)
    })
}

fn models_dir() -> PathBuf {
    PathBuf::from(format!("./models/{}", T1::name()))
}

/// Wins of the two sides as the games really ended.
fn real_wins() -> (usize, usize, usize) {
    let ev = toy::spy_take();
    let f = finals(&ev);
    let w = |p: i8| f.values().filter(|s| s.winner() == Some(p)).count();
    (w(-1), w(1), f.len())
}

fn verdict(w: usize, n: usize) -> Option<usize> {
    if w * 100 >= n * 55 {
        Some(1)
    } else if w * 100 <= n * 45 {
        Some(2)
    } else {
        None
    }
}

/// Which side the challenger plays, found out by letting it always win.
fn seat(cx: &mut Cx) -> Option<i8> {
    toy::set_table(Table::new(&Shape::Node(vec![(false, 0, Shape::End(1)), (false, 0, Shape::End(-1))]), false));
    let az = cx.unwrap(challenger(1, 1.0), "learner", || "constructing the learner".into())?;
    bias_policy::<T1>(&az.model, &[root_code(0)]);
    let other = net::<T1>(40);
    bias_policy::<T1>(&other, &[root_code(1)]);
    toy::spy_start();
    let ptr = Sendable((az, std::sync::Mutex::new(Some(other))));
    let r = Run::default_run().with_fresh(|| {
        let p = ptr.get();
        let o = p.1.lock().unwrap().take().unwrap();
        p.0.play_vs_model::<T1>(o)
    });
    let (a, b, n) = real_wins();
    let r = cx.unwrap(r, "panic", || "a match of models".into())?;
    let s = if a == n { -1 } else if b == n { 1 } else { 0 };
    cx.check(s != 0 && r == Some(1), "models", || format!("a model that always takes the win against one that always gives it away wins {a} or {b} of {n} games and is judged {r:?}")).then_some(s)
}

fn scripted_match(cx: &mut Cx, seat: i8, sh: &Shape, script: Vec<u32>, what: &dyn Fn() -> String) {
    toy::set_table(Table::new(sh, false));
    let Some(az) = cx.unwrap(challenger(12, 60.0), "learner", || "constructing the learner".into()) else { return };
    let before = weights(&az.model);
    let ptr = Sendable((az, std::sync::Mutex::new(Some(net::<T1>(41)))));
    toy::spy_start();
    let r = Run::scripted(script).with_fresh(|| {
        let p = ptr.get();
        let o = p.1.lock().unwrap().take().unwrap();
        p.0.play_vs_model::<T1>(o)
    });
    let (a, b, n) = real_wins();
    cx.out.traces += 1;
    cx.out.states += n as u64;
    let Some(r) = cx.unwrap(r, "panic", || format!("a match of models, {}", what())) else { return };
    let w = if seat == -1 { a } else { b };
    cx.note(format!("challenger's wins covered: {w}"));
    cx.check(r == verdict(w, n), "verdict", || format!("the challenger wins {w} of {n} games ({} lost): judged {r:?}, should be {:?}; {}", a + b - w, verdict(w, n), what()));
    cx.check(weights(&ptr.get().0.model) == before, "changed", || format!("a match changes the challenger, {}", what()));
    cx.tick();
}

fn two() -> Shape {
    Shape::Node(vec![(false, 0, Shape::End(1)), (false, 0, Shape::End(-1))])
}

/// One round against the best model on disk.
fn best_round(cx: &mut Cx, seat: i8, az: AlphaZero, best: Option<&ResNet>, script: Vec<u32>, what: &dyn Fn() -> String) {
    let _ = std::fs::remove_dir_all("./models");
    std::fs::create_dir_all(models_dir()).expect("scratch");
    let file = models_dir().join("best_model.ot");
    if let Some(b) = best {
        b.vs.save(&file).expect("scratch");
    }
    std::fs::write(models_dir().join("model_0.ot"), b"other").expect("scratch");
    let old = std::fs::read(&file).ok();
    let mine = weights(&az.model);
    let ptr = Sendable(az);
    toy::spy_start();
    let r = Run::scripted(script).with_fresh(|| ptr.get().play_vs_best_model::<T1>());
    let (a, b, n) = real_wins();
    cx.out.traces += 1;
    cx.out.states += n as u64;
    if cx.unwrap(r, "panic", || format!("comparing with the best model, {}", what())).is_none() {
        return;
    }
    let w = if seat == -1 { a } else { b };
    let replace = best.is_none() || (n > 0 && verdict(w, n) == Some(1));
    let now = std::fs::read(&file).ok();
    if best.is_some() && !cx.check(n > 0, "match", || format!("no match is played against the best model, {}", what())) {
        return;
    }
    if replace {
        let p = file.clone();
        match catch(|| ResNet::from_path::<T1>(&p)) {
            Ok(m) => {
                cx.check(weights(&m) == mine, "best", || format!("the best model on disk is not the challenger that won {w} of {n} games; {}", what()));
            }
            Err(e) => cx.fail("best", format!("there is no usable best model ({e:?}) after the challenger won {w} of {n} games; {}", what())),
        }
    } else {
        cx.check(now == old, "kept", || format!("the best model on disk changed although the challenger won only {w} of {n} games; {}", what()));
    }
    let rest: BTreeSet<String> = std::fs::read_dir(models_dir()).into_iter().flatten().flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect();
    cx.check(std::fs::read(models_dir().join("model_0.ot")).is_ok_and(|b| b == b"other") && rest.contains("model_0.ot"), "others", || format!("another model on disk changed: {rest:?}"));
    cx.check(weights(&ptr.get().model) == mine, "changed", || format!("the comparison changes the challenger, {}", what()));
    let _ = std::fs::remove_dir_all("./models");
    cx.tick();
}

/// 0/1 per choice: the first half's first a and the second half's first b take option 0.
fn script(a: usize, b: usize) -> Vec<u32> {
    (0..400).map(|i| if i < 200 { (i >= a) as u32 } else { (i - 200 >= b) as u32 }).collect()
}

pub fn c21(cx: &mut Cx) {
    let t = cx.thorough;
    let Some(seat) = seat(cx) else { return };
    // all numbers of wins
    let counts: Vec<usize> = if t { (0..=400).collect() } else { (0..=400).filter(|j| j % 16 == 0 || (170..=190).contains(j) || (210..=230).contains(j)).collect() };
    cx.bound(format!("matches of two models with {} numbers of won games, in three distributions over the seats, without draws; all around 45 and 55 percent", counts.len()));
    for &j in &counts {
        if cx.case(|| format!("wins {j}")) {
            // option 0 is a win of the mover: first half are the games of player 1
            for (a, b) in [(j.min(200), 200 - j.saturating_sub(200)), (j.saturating_sub(200), 200 - j.min(200)), (j / 2, 200 - j.div_ceil(2))] {
                scripted_match(cx, seat, &two(), script(a, b), &|| format!("{a} and {b} games of the two starters won by the starter"));
            }
        }
        if cx.stop() {
            return;
        }
    }
    cx.bound("the same with draws: wins x losses around the thresholds, the rest drawn");
    let three = Shape::Node(vec![(false, 0, Shape::End(1)), (false, 0, Shape::End(0)), (false, 0, Shape::End(-1))]);
    for w in if t { vec![0usize, 90, 100, 120, 170, 178, 179, 180, 181, 182, 190, 200, 210, 218, 219, 220, 221, 222, 260, 300] } else { vec![0, 100, 179, 180, 181, 200, 219, 220, 221] } {
        for d in [1usize, 20, 41, 100, 150] {
            if cx.case(|| format!("wins {w} draws {d}")) {
                // player 1's half: wins then draws then losses; the other half likewise from its own view
                let (w1, w2) = (w.min(200), w.saturating_sub(200));
                let script: Vec<u32> = (0..400)
                    .map(|i| {
                        if i < 200 {
                            if i < w1 { 0 } else if i - w1 < d { 1 } else { 2 }
                        } else {
                            let i = i - 200;
                            if i < w2 { 2 } else if i - w2 < d { 1 } else { 0 }
                        }
                    })
                    .collect();
                scripted_match(cx, seat, &three, script, &|| format!("{w} wins and up to {} draws", 2 * d));
            }
        }
        if cx.stop() {
            return;
        }
    }
    cx.bound("the best model on disk after a round: none there, and after every number of wins around the thresholds");
    if cx.case(|| "no best model".into()) {
        toy::set_table(Table::new(&two(), false));
        for (i, c) in [(1, 1.0), (12, 60.0)] {
            let Some(az) = cx.unwrap(challenger(i, c), "learner", || "constructing the learner".into()) else { return };
            best_round(cx, seat, az, None, vec![], &|| "no best model on disk".into());
        }
    }
    for &j in counts.iter().filter(|j| **j % 40 == 0 || (177..=183).contains(*j) || (217..=223).contains(*j)) {
        if cx.case(|| format!("best after {j} wins")) {
            toy::set_table(Table::new(&two(), false));
            for (a, b) in [(j.min(200), 200 - j.saturating_sub(200)), (j / 2, 200 - j.div_ceil(2))] {
                let Some(az) = cx.unwrap(challenger(12, 60.0), "learner", || "constructing the learner".into()) else { return };
                let other = net::<T1>(42);
                best_round(cx, seat, az, Some(&other), script(a, b), &|| format!("{a} and {b} games won by their starter"));
            }
        }
        if cx.stop() {
            return;
        }
    }
    // identity of the players: the models' own preferences decide
    cx.bound("identity of the two models: each takes or gives away the win by its own preference, in a match and against the best model on disk");
    for mine in 0..2usize {
        for theirs in 0..2usize {
            if cx.case(|| format!("preferences {mine} {theirs}")) {
                toy::set_table(Table::new(&two(), false));
                for disk in [false, true] {
                    let Some(az) = cx.unwrap(challenger(1, 1.0), "learner", || "constructing the learner".into()) else { return };
                    bias_policy::<T1>(&az.model, &[root_code(mine)]);
                    let other = net::<T1>(43);
                    bias_policy::<T1>(&other, &[root_code(theirs)]);
                    // a good challenger wins its own starts; a bad best model gives its starts away
                    let want = 200 * (mine == 0) as usize + 200 * (theirs == 1) as usize;
                    if disk {
                        let v = verdict(want, 400);
                        let cur = weights(&az.model);
                        let old = weights(&other);
                        best_round(cx, seat, az, Some(&other), vec![], &|| format!("preferences {mine} and {theirs}"));
                        let _ = (v, cur, old);
                    } else {
                        let ptr = Sendable((az, std::sync::Mutex::new(Some(other))));
                        toy::spy_start();
                        let r = Run::default_run().with_fresh(|| {
                            let p = ptr.get();
                            let o = p.1.lock().unwrap().take().unwrap();
                            p.0.play_vs_model::<T1>(o)
                        });
                        let (a, b, n) = real_wins();
                        let w = if seat == -1 { a } else { b };
                        if let Some(r) = cx.unwrap(r, "panic", || "a match of models".into()) {
                            cx.check(w * 400 == want * n && r == verdict(want, 400), "models", || format!("a challenger that {} meets a model that {}: it should win {want} of 400 games, wins {w} of {n}, judged {r:?}", ["takes wins", "gives wins away"][mine], ["takes wins", "gives wins away"][theirs]));
                        }
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C25

pub struct Plan {
    pub learn: usize,
    pub rounds: usize,
    pub games: usize,
    pub epochs: usize,
    pub limit: usize,
    pub batch: usize,
    pub prepare: bool, // the model directory is there before
}

/// Everything under a directory: files and directories, relative.
pub fn listing(d: &Path) -> BTreeSet<String> {
    fn rec(base: &Path, d: &Path, out: &mut BTreeSet<String>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            out.insert(p.strip_prefix(base).unwrap().to_string_lossy().to_string());
            if p.is_dir() {
                rec(base, &p, out);
            }
        }
    }
    let mut out = BTreeSet::new();
    rec(d, d, &mut out);
    out
}

const FILES: [&str; 3] = ["ps.ot", "states.ot", "outcomes.ot"];

pub fn learning_run(cx: &mut Cx, sh: &Shape, plan: &Plan, run: &Run, crash: Option<usize>, what: &dyn Fn() -> String) {
    let home = fresh_dir(cx, "run");
    let back = std::env::current_dir().expect("cwd");
    std::env::set_current_dir(&home).expect("scratch");
    learning_run_in(cx, sh, plan, run, crash, what);
    std::env::set_current_dir(back).expect("scratch");
    let _ = std::fs::remove_dir_all(&home);
}

fn learning_run_in(cx: &mut Cx, sh: &Shape, plan: &Plan, run: &Run, crash: Option<usize>, what: &dyn Fn() -> String) {
    toy::set_table(Table::new(sh, false));
    let (lr, wd) = (0.002, 0.01);
    let mut c = full_conf(3, 3.0, plan.limit, 0.3, 0.25, 1.25, plan.games, plan.batch);
    for p in c.iter_mut() {
        match p.0 {
            "lr" => p.1 = lr,
            "wd" => p.1 = wd,
            "learn_iterations" => p.1 = plan.learn as f64,
            "self_play_iterations" => p.1 = plan.rounds as f64,
            "num_epochs" => p.1 = plan.epochs as f64,
            _ => (),
        }
    }
    if plan.prepare {
        std::fs::create_dir_all(models_dir()).expect("scratch");
        if crash.is_none() {
            // the models of an earlier run are in the way
            for l in 0..plan.learn {
                net::<T1>(60 + l as i64).vs.save(models_dir().join(format!("model_{l}.ot"))).expect("scratch");
            }
        }
    }
    // an earlier run's data stays as it is
    let older = PathBuf::from(format!("./data/{}/run-old/lrn-0/sp-0", T1::name()));
    std::fs::create_dir_all(&older).expect("scratch");
    std::fs::write(older.join("ps.ot"), b"old").expect("scratch");
    let r = Run::default_run().with(|| {
        tch::manual_seed(51);
        AlphaZero::from_config::<T1>(None, &conf(&c))
    });
    let Some(az) = cx.unwrap(r, "learner", || "constructing the learner".into()) else { return };
    let mut reference = Reference::new::<T1>(&az.model, lr, wd);
    let cell = Sendable(std::sync::Mutex::new(az));
    toy::CAP.store(crash.unwrap_or(3_000_000), std::sync::atomic::Ordering::SeqCst);
    toy::spy_start();
    let r = run.with_fresh(|| {
        let mut g = cell.get().lock().unwrap_or_else(|e| e.into_inner());
        g.learn_parallel::<T1>()
    });
    let ev = toy::spy_take();
    toy::CAP.store(3_000_000, std::sync::atomic::Ordering::SeqCst);
    cx.out.transitions += ev.len() as u64;
    cx.out.traces += 1;
    let crashed = match r {
        Ok(()) => false,
        Err(Fail::Horizon) if crash.is_some() => true,
        Err(e) => {
            cx.fail("panic", format!("{e:?} {}; {}", toy::wrong().unwrap_or_default(), what()));
            return;
        }
    };
    if let Some(w) = toy::wrong() {
        cx.fail("illegal", format!("{w}; {}", what()));
        return;
    }
    let az = cell.get().lock().unwrap_or_else(|e| e.into_inner());
    let base = PathBuf::from(format!("./data/{}", T1::name()));
    if !cx.check(listing(&base).contains("run-old/lrn-0/sp-0/ps.ot") && std::fs::read(older.join("ps.ot")).is_ok_and(|b| b == b"old"), "older", || format!("an earlier run's data changed, {}", what())) {
        return;
    }
    let runs: Vec<PathBuf> = std::fs::read_dir(&base).into_iter().flatten().flatten().map(|e| e.path()).filter(|p| !p.ends_with("run-old")).collect();
    if !cx.check(runs.len() == 1 && runs[0].file_name().unwrap().to_string_lossy().starts_with("run-"), "layout", || format!("the data of the run is under {runs:?}, {}", what())) {
        return;
    }
    let games = stories(&ev, plan.limit);
    let found = listing(&runs[0]);
    let mut births: BTreeSet<u32> = BTreeSet::new();
    let mut done = 0; // iterations whose data is complete
    let mut want: BTreeSet<String> = BTreeSet::new();
    for l in 0..plan.learn {
        want.insert(format!("lrn-{l}"));
        let mut all: Vec<Flat> = vec![];
        let mut complete = true;
        for s in 0..plan.rounds {
            let rel = format!("lrn-{l}/sp-{s}");
            want.insert(rel.clone());
            for f in FILES {
                want.insert(format!("{rel}/{f}"));
            }
            let dir = runs[0].join(&rel);
            if crashed && !FILES.iter().all(|f| dir.join(f).exists()) {
                complete = false;
                continue;
            }
            let r = catch(|| AlphaZero::load_training_data(&dir));
            let Some(mem) = cx.unwrap(r, "load", || format!("loading {rel}, {}", what())) else { return };
            let sm = samples(&mem);
            let here: BTreeSet<u32> = sm.iter().filter_map(|s| s.key.map(|k| k.3)).collect();
            let story: BTreeMap<u32, _> = games.iter().filter(|g| here.contains(g.0)).map(|(k, v)| (*k, v.clone())).collect();
            let w = || format!("data of {rel}, {}", what());
            if !cx.check(here.len() == plan.games, "games", || format!("samples of {} games are stored for a round of {}: {}", here.len(), plan.games, w())) {
                return;
            }
            if !cx.check(here.is_disjoint(&births), "again", || format!("samples of earlier rounds are stored again: {}", w())) {
                return;
            }
            births.extend(&here);
            if !judge_samples(cx, &sm, &story, true, &mut |_| None, &w) {
                return;
            }
            all.extend(flat(&mem));
        }
        if !complete {
            break;
        }
        done += 1;
        // the training of this iteration
        let path = models_dir().join(format!("model_{l}.ot"));
        if crashed && !path.exists() {
            // only the last iteration begun may lack its model
            cx.check(!runs[0].join(format!("lrn-{}", l + 1)).exists(), "model", || format!("iteration {l} has no model although the next one has begun, {}", what()));
            break;
        }
        let size = T1::start(-1, 0).as_tensor().size();
        if all.len() <= plan.batch {
            let v: Vec<&Flat> = all.iter().collect();
            for _ in 0..plan.epochs {
                reference.step(&v, &size);
            }
        }
        let r = catch(|| ResNet::from_path::<T1>(&path));
        let Some(m) = cx.unwrap(r, "model", || format!("the model of iteration {l}, {}", what())) else { return };
        if all.len() <= plan.batch {
            let d = reference.disagreement(&weights(&m));
            if !cx.check(d.is_ok(), "training", || format!("the model of iteration {l} is not trained by {} passes on the {} samples of that iteration: {}; {}", plan.epochs, all.len(), d.clone().unwrap_err(), what())) {
                return;
            }
        }
        cx.out.states += 1;
        if !crashed && l + 1 == plan.learn && !cx.check(weights(&m) == weights(&az.model), "model", || format!("the last iteration's model on disk is not the learner's model, {}", what())) {
            return;
        }
        if l == 0 && plan.learn == 1 && !crashed {
            let p = models_dir().join("best_model.ot");
            let r = catch(|| ResNet::from_path::<T1>(&p));
            if let Some(b) = cx.unwrap(r, "best", || format!("the best model after the first iteration, {}", what())) {
                cx.check(weights(&b) == weights(&m), "best", || format!("the best model after the first iteration is not that iteration's model, {}", what()));
            }
        }
    }
    if !crashed {
        let extra: Vec<&String> = found.difference(&want).collect();
        let lacking: Vec<&String> = want.difference(&found).collect();
        cx.check(extra.iter().all(|e| !e.contains("sp-") && !e.contains("lrn-")) && lacking.is_empty(), "layout", || format!("stored data: unexpected {extra:?}, lacking {lacking:?}; {}", what()));
        // every self-play game of the run is stored; the rest are the games of the comparisons
        let n = plan.learn * plan.rounds * plan.games;
        cx.check(births.len() == n, "lost", || format!("{} games are stored, {n} were played in self-play, {}", births.len(), what()));
        // the best model is one of the run's models
        let p = models_dir().join("best_model.ot");
        if let Ok(b) = catch(|| ResNet::from_path::<T1>(&p)) {
            let wb = weights(&b);
            let any = (0..plan.learn).any(|l| catch(|| ResNet::from_path::<T1>(&models_dir().join(format!("model_{l}.ot")))).is_ok_and(|m| weights(&m) == wb));
            cx.check(any, "best", || format!("the best model is none of the run's models, {}", what()));
        } else {
            cx.fail("best", format!("there is no usable best model after the run, {}", what()));
        }
    } else {
        cx.note(format!("crash points after {done} complete iterations covered"));
    }
    cx.tick();
}

/// A serial learning run in the current directory. The choices of its games are the defaults and there is no noise, so the
/// same games can be played again from the networks the run left behind.
fn serial_run(cx: &mut Cx, sh: &Shape, plan: &Plan) {
    let what = || format!("a serial run of {} iterations of {} games, {} passes, on the game {}", plan.learn, plan.rounds, plan.epochs, show(sh));
    let (lr, wd) = (0.002, 0.01);
    let mut c = full_conf(3, 3.0, plan.limit, 0.3, 0.0, 1.25, plan.games, plan.batch);
    for p in c.iter_mut() {
        match p.0 {
            "lr" => p.1 = lr,
            "wd" => p.1 = wd,
            "learn_iterations" => p.1 = plan.learn as f64,
            "self_play_iterations" => p.1 = plan.rounds as f64,
            "num_epochs" => p.1 = plan.epochs as f64,
            _ => (),
        }
    }
    if plan.prepare {
        std::fs::create_dir_all(models_dir()).expect("scratch");
        for l in 0..plan.learn {
            net::<T1>(70 + l as i64).vs.save(models_dir().join(format!("model_{l}.ot"))).expect("scratch");
        }
    }
    let make = || {
        Run::default_run().with(|| {
            tch::manual_seed(52);
            AlphaZero::from_config::<T1>(None, &conf(&c))
        })
    };
    // the learner that plays again is made first: the run may make a best model
    let Some(mut again) = cx.unwrap(make(), "learner", || "constructing the learner".into()) else { return };
    let Some(mut az) = cx.unwrap(make(), "learner", || "constructing the learner".into()) else { return };
    if weights(&again.model) != weights(&az.model) {
        cx.out.undecided += 1;
        return;
    }
    let mut reference = Reference::new::<T1>(&az.model, lr, wd);
    toy::set_table(Table::new(sh, false));
    toy::spy_start();
    let r = Run::default_run().with(|| az.learn::<T1>());
    toy::spy_take();
    cx.out.traces += 1;
    if cx.unwrap(r, "panic", what).is_none() {
        return;
    }
    if let Some(w) = toy::wrong() {
        cx.fail("illegal", format!("{w}; {}", what()));
        return;
    }
    toy::spy_start();
    let size = T1::start(-1, 0).as_tensor().size();
    for l in 0..plan.learn {
        let mut all: Vec<Flat> = vec![];
        for _ in 0..plan.rounds {
            let r = Run::default_run().with(|| Sendable(again.self_play::<T1>()));
            let Some(m) = cx.unwrap(r, "panic", what) else { return };
            all.extend(flat(m.get()));
        }
        cx.out.states += all.len() as u64;
        for _ in 0..plan.epochs {
            reference.step(&all.iter().collect::<Vec<_>>(), &size);
        }
        let path = models_dir().join(format!("model_{l}.ot"));
        let r = catch(|| ResNet::from_path::<T1>(&path));
        let Some(m) = cx.unwrap(r, "model", || format!("the model of iteration {l}, {}", what())) else { return };
        let d = reference.disagreement(&weights(&m));
        if !cx.check(d.is_ok(), "training", || format!("the model of iteration {l} is not trained by {} passes on the {} samples of that iteration: {}; {}", plan.epochs, all.len(), d.clone().unwrap_err(), what())) {
            return;
        }
        if l + 1 == plan.learn {
            cx.check(weights(&m) == weights(&az.model), "model", || format!("the last iteration's model on disk is not the learner's model, {}", what()));
        } else {
            again.model.vs.load(&path).expect("loaded before");
        }
    }
    toy::spy_take();
    cx.tick();
}

/// All files under a directory with their contents.
fn contents(d: &Path) -> BTreeMap<String, Vec<u8>> {
    listing(d).into_iter().filter_map(|f| std::fs::read(d.join(&f)).ok().map(|b| (f, b))).collect()
}

/// A history of runs and removals in the current directory (0: a run, 1: remove the oldest run, 2: the newest, 3: an inner one).
/// False if it was wrong.
fn history(cx: &mut Cx, steps: &[usize]) -> bool {
    let _ = std::fs::remove_dir_all("./data");
    let _ = std::fs::remove_dir_all("./models");
    toy::set_table(Table::new(&two(), false));
    let base = PathBuf::from(format!("./data/{}", T1::name()));
    let names = || -> BTreeSet<PathBuf> { std::fs::read_dir(&base).into_iter().flatten().flatten().map(|e| e.path()).collect() };
    let mut runs: Vec<(PathBuf, BTreeMap<String, Vec<u8>>)> = vec![];
    let seed = crate::HASH_SEED.load(std::sync::atomic::Ordering::Relaxed);
    let mut fine = true;
    for (k, s) in steps.iter().enumerate() {
        match s {
            0 => {
                // no match is played: there is no best model yet
                let _ = std::fs::remove_dir_all("./models");
                crate::HASH_SEED.store(seed + 1 + k as u64, std::sync::atomic::Ordering::Relaxed);
                let r = Run::default_run().with(|| learner::<T1>(2, 2.0, 5, 0.3, 0.25, 1.0, 2, 50));
                let r = r.and_then(|az| {
                    let az = Sendable(std::sync::Mutex::new(az));
                    Run::with_bounds(&Bounds { base: 2 + k as u64 % 4, ..Bounds::full() }).with_fresh(|| az.get().lock().unwrap_or_else(|e| e.into_inner()).learn_parallel::<T1>())
                });
                crate::HASH_SEED.store(seed, std::sync::atomic::Ordering::Relaxed);
                cx.out.transitions += 1;
                if cx.unwrap(r, "panic", || format!("run {k} of the history {steps:?}")).is_none() {
                    return false;
                }
                let new: Vec<PathBuf> = names().into_iter().filter(|p| runs.iter().all(|r| r.0 != *p)).collect();
                fine &= cx.check(new.len() == 1, "overwritten", || format!("step {k} of the history {steps:?} (0: a run, 1: remove the oldest run, 2: the newest, 3: an inner one) is a run, and {} directories are new", new.len()));
                for p in new {
                    let c = contents(&p);
                    runs.push((p, c));
                }
            }
            _ if runs.len() < if *s == 3 { 3 } else { 1 } => return fine, // nothing to remove: a shorter history
            s => {
                let i = match s {
                    1 => 0,
                    2 => runs.len() - 1,
                    _ => 1,
                };
                let (p, _) = runs.remove(i);
                std::fs::remove_dir_all(p).expect("scratch");
            }
        }
        for (p, c) in &runs {
            fine &= cx.check(contents(p) == *c, "overwritten", || format!("the data of another run changed in step {k} of the history {steps:?} (0: a run, 1: remove the oldest run, 2: the newest, 3: an inner one)"));
        }
        cx.out.states += 1;
        cx.tick();
        if !fine {
            return false;
        }
    }
    cx.out.traces += 1;
    true
}

pub fn c25(cx: &mut Cx) {
    let t = cx.thorough;
    let mut shapes: Vec<Shape> = toy::t2(2).into_iter().filter(|s| !pass_ends(s) && matches!(s, Shape::Node(_))).step_by(if t { 3 } else { 9 }).collect();
    shapes.extend(toy::t3(2).into_iter().filter(|s| !pass_ends(s)).step_by(if t { 30 } else { 130 }));
    shapes.extend(toy::endless().into_iter().filter(|s| !pass_ends(s) && matches!(s, Shape::Shuttle(_))));
    let plans = [
        Plan { learn: 1, rounds: 1, games: 1, epochs: 1, limit: 6, batch: 500, prepare: true },
        Plan { learn: 1, rounds: 3, games: 2, epochs: 2, limit: 6, batch: 500, prepare: false },
        Plan { learn: 2, rounds: 2, games: 3, epochs: 1, limit: 4, batch: 500, prepare: false },
        Plan { learn: 3, rounds: 1, games: 2, epochs: 3, limit: 6, batch: 500, prepare: true },
        Plan { learn: 2, rounds: 2, games: 5, epochs: 2, limit: 5, batch: 3, prepare: true },
    ];
    cx.bound(format!("{} small games, five plans (1 to 3 iterations, 1 to 3 self-play rounds, 1 to 5 games, 1 to 3 passes), two tapes", shapes.len()));
    for sh in &shapes {
        for (i, p) in plans.iter().enumerate() {
            if show(sh).contains("stuck") && i > 1 && !t {
                continue; // its comparison matches last a thousand rounds
            }
            if cx.case(|| format!("learning run {} plan {i}", show(sh))) {
                for base in if t { vec![0u64, 2, 3, 4, 5] } else { vec![0, 2] } {
                    let run = Run::with_bounds(&Bounds { base, ..Bounds::full() });
                    learning_run(cx, sh, p, &run, None, &|| format!("a run of {} iterations, {} rounds of {} games, {} passes, on the game {}, tape {base}", p.learn, p.rounds, p.games, p.epochs, show(sh)));
                }
            }
            if cx.stop() {
                return;
            }
        }
    }
    cx.bound("runs of 12 or 40 self-play rounds, of 12 iterations, of 300 games at once and of 300 passes");
    let many = [
        Plan { learn: 1, rounds: 12, games: 1, epochs: 1, limit: 6, batch: 500, prepare: true },
        Plan { learn: 2, rounds: 40, games: 2, epochs: 1, limit: 6, batch: 2000, prepare: false },
        Plan { learn: 12, rounds: 2, games: 2, epochs: 1, limit: 6, batch: 500, prepare: true },
        Plan { learn: 2, rounds: 2, games: 300, epochs: 1, limit: 6, batch: 5000, prepare: true },
        Plan { learn: 1, rounds: 2, games: 2, epochs: 300, limit: 6, batch: 500, prepare: true },
        Plan { learn: 1, rounds: 300, games: 1, epochs: 1, limit: 6, batch: 5000, prepare: true },
    ];
    for (i, p) in many.iter().enumerate() {
        for sh in shapes.iter().filter(|s| !show(s).contains("stuck")).skip(i).step_by(if t { 10 } else { 1000 }) {
            if cx.case(|| format!("large run {} plan {i}", show(sh))) {
                let run = Run::with_bounds(&Bounds { base: 2, ..Bounds::full() });
                learning_run(cx, sh, p, &run, None, &|| format!("a run of {} iterations, {} rounds of {} games, {} passes, on the game {}", p.learn, p.rounds, p.games, p.epochs, show(sh)));
            }
            if cx.stop() {
                return;
            }
        }
    }
    // all sampled moves of the first choices
    cx.bound(format!("every sequence of sampled moves in the self-play of a run of two rounds, within {} deviations", if t { 2 } else { 1 }));
    for sh in shapes.iter().step_by(4) {
        if cx.case(|| format!("moves {}", show(sh))) {
            let b = Bounds { max_dev: if t { 2 } else { 1 }, max_free: 8, ..Bounds::full() };
            let st = dfs(&b, |run| {
                learning_run(cx, sh, &plans[1], run, None, &|| format!("a run of two rounds on the game {}, choices {:?}", show(sh), run.choices()));
                !cx.stop()
            });
            cx.out.truncated += st.truncated as u64;
        }
    }
    cx.bound("a run ended at many points of its games: what is stored by then is complete");
    for (k, sh) in shapes.iter().step_by(5).enumerate() {
        for part in 0..4usize {
            if cx.case(|| format!("crash {} part {part}", show(sh))) {
                for i in 0..if t { 60 } else { 12 } {
                    let at = 3 + (i * 4 + part) * (5 + k % 3) + if i % 3 == 0 { 2000 } else { 0 };
                    let run = Run::with_bounds(&Bounds { base: 2, ..Bounds::full() });
                    learning_run(cx, sh, &plans[2], &run, Some(at), &|| format!("a run ended after {at} steps of its games, on the game {}", show(sh)));
                }
            }
        }
    }
    let len = if t { 6 } else { 5 };
    cx.bound(format!("all histories of up to {len} steps of one data directory, each step a new run or the removal of the oldest, the newest or an inner run: a run leaves the data of the others as it is"));
    for first in 0..4usize {
        if cx.case(|| format!("histories {first}")) {
            let home = fresh_dir(cx, "run");
            let back = std::env::current_dir().expect("cwd");
            std::env::set_current_dir(&home).expect("scratch");
            for code in 0..4usize.pow(len as u32 - 2) {
                // the first step is a run, the second is given
                let mut steps = vec![0, first];
                steps.extend((0..len - 2).map(|k| code / 4usize.pow(k as u32) % 4));
                if !history(cx, &steps) {
                    break;
                }
            }
            std::env::set_current_dir(back).expect("scratch");
        }
        if cx.stop() {
            return;
        }
    }
    if cx.case(|| "unusable best model".into()) {
        // the comparison fails: the iteration's model is on disk all the same
        let home = fresh_dir(cx, "run");
        let back = std::env::current_dir().expect("cwd");
        std::env::set_current_dir(&home).expect("scratch");
        toy::set_table(Table::new(&two(), false));
        let r = Run::default_run().with(|| learner::<T1>(3, 2.0, 5, 0.3, 0.25, 1.0, 2, 50));
        if let Some(mut az) = cx.unwrap(r, "learner", || "constructing the learner".into()) {
            std::fs::create_dir_all(models_dir()).expect("scratch");
            std::fs::write(models_dir().join("best_model.ot"), b"broken").expect("scratch");
            toy::spy_start();
            let _ = Run::default_run().with(|| az.learn_parallel::<T1>());
            toy::spy_take();
            let p = models_dir().join("model_0.ot");
            let r = catch(|| ResNet::from_path::<T1>(&p));
            if let Some(m) = cx.unwrap(r, "order", || "the model of an iteration whose comparison failed".into()) {
                cx.check(weights(&m) == weights(&az.model), "order", || "the model of an iteration whose comparison failed is not the trained one".into());
            }
        }
        std::env::set_current_dir(back).expect("scratch");
    }
    if cx.case(|| "serial learning".into()) {
        let home = fresh_dir(cx, "run");
        let back = std::env::current_dir().expect("cwd");
        std::env::set_current_dir(&home).expect("scratch");
        for made in [true, false] {
            toy::set_table(Table::new(&two(), false));
            let _ = std::fs::remove_dir_all("./models");
            if made {
                std::fs::create_dir_all(models_dir()).expect("scratch");
            }
            let r = Run::default_run().with(|| learner::<T1>(3, 2.0, 5, 0.3, 0.25, 1.0, 2, 50));
            let Some(mut az) = cx.unwrap(r, "learner", || "constructing the learner".into()) else { break };
            let before = weights(&az.model);
            let r = Run::default_run().with(|| az.learn::<T1>());
            if cx.unwrap(r, "panic", || "a serial learning run".into()).is_some() {
                let last = (0..1000).map(|k| models_dir().join(format!("model_{k}.ot"))).take_while(|p| p.exists()).last();
                let r = catch(|| ResNet::from_path::<T1>(&last.unwrap_or_else(|| models_dir().join("model_0.ot"))));
                if let Some(m) = cx.unwrap(r, "model", || format!("the model of a serial learning iteration (model directory there before: {made})")) {
                    cx.check(weights(&m) == weights(&az.model) && weights(&m) != before, "model", || "the model of a serial learning iteration is not the trained one".into());
                }
            }
        }
        std::env::set_current_dir(back).expect("scratch");
    }
    let plans = [
        Plan { learn: 1, rounds: 1, games: 1, epochs: 1, limit: 6, batch: 500, prepare: true },
        Plan { learn: 3, rounds: 1, games: 1, epochs: 1, limit: 6, batch: 500, prepare: false },
        Plan { learn: 2, rounds: 3, games: 1, epochs: 2, limit: 6, batch: 500, prepare: true },
        Plan { learn: 2, rounds: 12, games: 1, epochs: 3, limit: 6, batch: 500, prepare: true },
        Plan { learn: 12, rounds: 2, games: 1, epochs: 1, limit: 6, batch: 500, prepare: true },
    ];
    cx.bound("serial learning runs: the small games that end, five plans, the model of every iteration against the reference trained on the samples of that iteration's self-play (played again with the same choices and networks)");
    for sh in shapes.iter().filter(|s| matches!(s, Shape::Node(_)) && !show(s).contains("stuck")) {
        for (i, p) in plans.iter().enumerate() {
            if cx.case(|| format!("serial run {} plan {i}", show(sh))) {
                let home = fresh_dir(cx, "run");
                let back = std::env::current_dir().expect("cwd");
                std::env::set_current_dir(&home).expect("scratch");
                serial_run(cx, sh, p);
                std::env::set_current_dir(back).expect("scratch");
                let _ = std::fs::remove_dir_all(&home);
            }
            if cx.stop() {
                return;
            }
        }
    }
}
