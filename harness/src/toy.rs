//! Small table-driven games implementing the repository's game interface, so that the searches,
//! the match loop, self-play and the learning loop can be run on every game up to a size.
use die_e::base::LearnableGame;
use rand::Rng;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicPtr, AtomicU32, Ordering};
use std::sync::Mutex;
use tch::{Kind, Tensor};

pub const A: u32 = 4; // codes
pub const PASS: u8 = 7;
pub const EMPTY: u8 = 99;

/// A game tree; `keep`: the mover moves again; `when` (dice games): bit r set if playable on roll r.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Shape {
    End(i8),              // result for the side that moved last
    Pass(Box<Shape>),     // nobody can move here: the turn passes
    Node(Vec<(bool, u8, Shape)>),
    Stuck,                // nobody can move, for ever
    Shuttle(Box<Shape>),  // one move that comes back here, one that leads on
    Braid(usize, Box<Shape>), // so many turns with a choice of three that makes no difference (every seventh a pass)
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub label: u8,
    pub to: u16,
    pub keep: bool,
    pub when: u8,
}

#[derive(Clone, Debug)]
pub enum TNode {
    End(i8),
    Pass(u16),
    Inner(Vec<Edge>),
}

#[derive(Clone, Debug)]
pub struct Table {
    pub nodes: Vec<TNode>,
    pub tagged: bool, // move labels depend on which game it is
}

impl Table {
    pub fn new(s: &Shape, tagged: bool) -> Table {
        let mut t = Table { nodes: vec![], tagged };
        t.build(s);
        t
    }

    fn build(&mut self, s: &Shape) -> u16 {
        let me = self.nodes.len();
        self.nodes.push(TNode::End(0));
        let n = match s {
            Shape::End(r) => TNode::End(*r),
            Shape::Pass(n) => TNode::Pass(self.build(n)),
            Shape::Stuck => TNode::Pass(me as u16),
            Shape::Shuttle(n) => {
                let to = self.build(n);
                TNode::Inner(vec![
                    Edge { label: ((me + 2) % 4) as u8, to: me as u16, keep: false, when: 0 },
                    Edge { label: (me % 4) as u8, to, keep: false, when: 0 },
                ])
            }
            Shape::Braid(0, end) => {
                self.nodes.pop();
                return self.build(end);
            }
            Shape::Braid(n, end) => {
                let to = self.build(&Shape::Braid(n - 1, end.clone()));
                match n % 7 {
                    3 => TNode::Pass(to),
                    k => TNode::Inner((0..3).map(|i| Edge { label: ((me + 3 * i) % 4) as u8, to, keep: k == 5 && i == 1, when: 0 }).collect()),
                }
            }
            Shape::Node(es) => {
                // labels are distinct, not sorted, and differ between nodes
                const PERM: [[u8; 4]; 4] = [[2, 0, 3, 1], [1, 3, 0, 2], [3, 2, 1, 0], [0, 1, 2, 3]];
                let p = PERM[me % 4];
                let edges = es
                    .iter()
                    .enumerate()
                    .map(|(i, (keep, when, c))| Edge { label: p[i], to: self.build(c), keep: *keep, when: *when })
                    .collect();
                TNode::Inner(edges)
            }
        };
        self.nodes[me] = n;
        me as u16
    }
}

static TABLE: AtomicPtr<Table> = AtomicPtr::new(std::ptr::null_mut());
static BIRTHS: AtomicU32 = AtomicU32::new(0);
static SPY: Mutex<Option<Vec<Event>>> = Mutex::new(None);
/// More events than this and the run is cut off: the code under test does not come to an end.
pub static CAP: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(3_000_000);
static WRONG: Mutex<Option<String>> = Mutex::new(None);

/// Makes this the game that is played (the old table is leaked: states may still refer to it).
pub fn set_table(t: Table) {
    TABLE.store(Box::into_raw(Box::new(t)), Ordering::SeqCst);
}

pub fn table() -> &'static Table {
    unsafe { &*TABLE.load(Ordering::SeqCst) }
}

/// What the real code did with a game state.
#[derive(Clone, Copy, Debug)]
pub enum What {
    Apply(u8),
    Skip,
    Decode(u32),
}

#[derive(Clone, Copy, Debug)]
pub struct Event {
    pub what: What,
    pub before: State,
    pub after: State,
}

/// Starts recording; also resets the birth counter.
pub fn spy_start() {
    BIRTHS.store(0, Ordering::SeqCst);
    *SPY.lock().unwrap_or_else(|e| e.into_inner()) = Some(vec![]);
    *WRONG.lock().unwrap_or_else(|e| e.into_inner()) = None;
}

pub fn spy_take() -> Vec<Event> {
    SPY.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default()
}

/// The first illegal use of the game interface since spy_start.
pub fn wrong() -> Option<String> {
    WRONG.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

fn log(what: What, before: State, after: State) {
    let mut over = false;
    if let Some(v) = SPY.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
        v.push(Event { what, before, after });
        over = v.len() > CAP.load(Ordering::SeqCst);
    }
    if over {
        std::panic::panic_any(crate::explore::HORIZON);
    }
}

fn blame(s: String) {
    let mut w = WRONG.lock().unwrap_or_else(|e| e.into_inner());
    if w.is_none() {
        *w = Some(s);
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct State {
    pub node: u16,
    pub player: i8,
    pub last: i8, // who moved last
    pub roll: u8,
    pub depth: u16,
    pub birth: u32,
    pub hist: u64, // base-8 digits, newest lowest: move label or PASS
    pub id: usize,
}

/// The game; DET: without dice.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Toy<const DET: bool>(pub State);

impl State {
    pub fn shift(&self) -> u32 {
        (self.node as u32 * 3 + 1) % A
    }

    pub fn tag(&self) -> u8 {
        if table().tagged {
            (self.birth % 4) as u8
        } else {
            0
        }
    }

    pub fn label(&self, e: &Edge) -> u8 {
        (e.label + self.tag()) % A as u8
    }

    pub fn edges(&self, det: bool) -> Vec<&'static Edge> {
        match &table().nodes[self.node as usize] {
            TNode::Inner(es) => es.iter().filter(|e| det || e.when == 0 || e.when >> self.roll & 1 == 1).collect(),
            _ => vec![],
        }
    }

    pub fn winner(&self) -> Option<i8> {
        match table().nodes[self.node as usize] {
            TNode::End(r) => Some(r * self.last),
            _ => None,
        }
    }

    fn push(&mut self, d: u8) {
        self.hist = (self.hist << 3) | d as u64;
        self.depth = self.depth.saturating_add(1);
    }

    /// The position after a move, before any dice are rolled.
    pub fn moved(&self, e: &Edge) -> State {
        let mut s = *self;
        s.push(self.label(e));
        s.node = e.to;
        s.last = self.player;
        if !e.keep {
            s.player = -self.player;
        }
        s
    }

    pub fn skipped(&self) -> State {
        let mut s = *self;
        s.push(PASS);
        s.last = self.player;
        s.player = -self.player;
        if let TNode::Pass(to) = table().nodes[self.node as usize] {
            s.node = to;
        }
        s
    }

    pub fn cells(&self) -> [f32; 8] {
        [
            self.node as f32 / 16.0,
            self.player as f32,
            self.roll as f32 / 4.0,
            self.birth as f32 / 1024.0,
            (self.hist & 0xff_ffff) as f32 / 16777216.0,
            self.depth as f32 / 64.0,
            self.last as f32,
            1.0,
        ]
    }

    /// What a network input says: (node, player, roll, birth, low history, depth, last).
    pub fn key(&self) -> (u16, i8, u8, u32, u32, u16, i8) {
        (self.node, self.player, self.roll, self.birth, (self.hist & 0xff_ffff) as u32, self.depth, self.last)
    }

    pub fn key_of_tensor(t: &Tensor) -> Option<(u16, i8, u8, u32, u32, u16, i8)> {
        let v: Vec<f32> = Vec::<f32>::try_from(&t.flatten(0, -1).to_kind(Kind::Float)).ok()?;
        if v.len() != 8 || v[7] != 1.0 {
            return None;
        }
        Some(((v[0] * 16.0) as u16, v[1] as i8, (v[2] * 4.0) as u8, (v[3] * 1024.0) as u32, (v[4] * 16777216.0) as u32, (v[5] * 64.0) as u16, v[6] as i8))
    }
}

impl<const DET: bool> Toy<DET> {
    /// The start of the game, not counted as a new game.
    pub fn start(player: i8, birth: u32) -> Self {
        Toy(State { node: 0, player, last: 0, roll: if DET { 0 } else { 1 }, depth: 0, birth, hist: 0, id: 0 })
    }

    fn roll(&mut self) {
        if !DET {
            self.0.roll = rand::thread_rng().gen_range(1..=2);
        }
    }
}

impl<const DET: bool> LearnableGame for Toy<DET> {
    type Move = u8;
    const EMPTY_MOVE: u8 = EMPTY;
    const IS_DETERMINISTIC: bool = DET;
    const ACTION_SPACE_SIZE: i64 = A as i64;
    const N_INPUT_CHANNELS: i64 = 2;
    const CONV_OUTPUT_SIZE: i64 = 4;
    const N_FILTERS: i64 = 2;
    const N_RES_BLOCKS: i64 = 1;

    fn new() -> Self {
        let b = BIRTHS.fetch_add(1, Ordering::SeqCst);
        let mut s = Self::start(-1, b);
        s.0.roll = 0;
        s
    }

    fn name() -> String {
        if DET { "toy".into() } else { "dicetoy".into() }
    }

    fn get_valid_moves(&self) -> Vec<u8> {
        rayon_core::ctl::yield_point();
        if !DET && self.0.roll == 0 && self.0.node == 0 && self.0.depth > 0 {
            blame(format!("moves asked for without a roll: {self:?}"));
        }
        self.0.edges(DET).iter().map(|e| self.0.label(e)).collect()
    }

    fn apply_move(&mut self, action: &u8) {
        rayon_core::ctl::yield_point();
        let before = self.0;
        match self.0.edges(DET).into_iter().find(|e| self.0.label(e) == *action) {
            Some(e) => self.0 = self.0.moved(e),
            None => {
                blame(format!("illegal move {action} applied to {before:?}"));
                panic!("toy: illegal move {action}");
            }
        }
        self.roll();
        log(What::Apply(*action), before, self.0);
    }

    fn roll_die(&mut self) -> (u8, u8) {
        if DET {
            blame("roll_die on a game without dice".into());
            panic!("roll_die on a game without dice");
        }
        self.roll();
        (self.0.roll, self.0.roll)
    }

    fn skip_turn(&mut self) {
        rayon_core::ctl::yield_point();
        let before = self.0;
        self.0 = self.0.skipped();
        self.roll();
        log(What::Skip, before, self.0);
    }

    fn get_player(&self) -> i8 {
        rayon_core::ctl::yield_point();
        self.0.player
    }

    fn check_winner(&self) -> Option<i8> {
        rayon_core::ctl::yield_point();
        self.0.winner()
    }

    fn as_tensor(&self) -> Tensor {
        Tensor::from_slice(&self.0.cells()).view([1, 2, 2, 2])
    }

    fn decode(&self, action: u32) -> u8 {
        log(What::Decode(action), self.0, self.0);
        ((action + A - self.0.shift()) % A) as u8
    }

    fn encode(&self, action: &u8) -> u32 {
        (*action as u32 + self.0.shift()) % A
    }

    fn get_id(&self) -> usize {
        self.0.id
    }

    fn set_id(&mut self, new_id: usize) {
        self.0.id = new_id
    }

    fn to_pretty_str(&self) -> String {
        // the text of a game need not tell its positions apart
        "a toy game".into()
    }
}

fn ends() -> Vec<Shape> {
    vec![Shape::End(1), Shape::End(-1), Shape::End(0)]
}

/// All ways to give a node between 1 and `max` children (as multisets) out of `subs`, each with
/// the turn kept or passed on.
pub fn nodes_over(subs: &[Shape], max: usize, keeps: bool) -> Vec<Shape> {
    let mut opts: Vec<(bool, u8, Shape)> = vec![];
    for s in subs {
        opts.push((false, 0, s.clone()));
        if keeps && !matches!(s, Shape::End(_)) {
            opts.push((true, 0, s.clone()));
        }
    }
    let mut out = vec![];
    fn rec(opts: &[(bool, u8, Shape)], from: usize, cur: &mut Vec<(bool, u8, Shape)>, max: usize, out: &mut Vec<Shape>) {
        if !cur.is_empty() {
            out.push(Shape::Node(cur.clone()));
        }
        if cur.len() == max {
            return;
        }
        for i in from..opts.len() {
            cur.push(opts[i].clone());
            rec(opts, i, cur, max, out);
            cur.pop();
        }
    }
    rec(&opts, 0, &mut vec![], max, &mut out);
    out
}

/// Games of at most one choice.
pub fn t1() -> Vec<Shape> {
    let mut v = ends();
    v.extend(nodes_over(&ends(), 2, false));
    v.extend(ends().into_iter().map(|e| Shape::Pass(Box::new(e))));
    v
}

/// Games of at most two choices in a row, `max` moves at the root.
pub fn t2(max: usize) -> Vec<Shape> {
    let mut v = nodes_over(&t1(), max, true);
    v.extend(t1().into_iter().map(|e| Shape::Pass(Box::new(e))));
    v
}

/// A smaller set of sub-games, for deeper trees.
fn small() -> Vec<Shape> {
    let mut v = ends();
    v.extend(nodes_over(&[Shape::End(1), Shape::End(-1)], 2, false));
    v.push(Shape::Pass(Box::new(Shape::End(1))));
    v.push(Shape::Node(vec![(true, 0, Shape::Node(vec![(false, 0, Shape::End(1)), (false, 0, Shape::End(0))])), (false, 0, Shape::End(-1))]));
    v
}

/// Games of up to three choices in a row.
pub fn t3(max: usize) -> Vec<Shape> {
    let mut mid = nodes_over(&small(), 2, true);
    mid.extend(small().into_iter().map(|e| Shape::Pass(Box::new(e))));
    nodes_over(&mid, max, false)
}

/// Games that need not end: stuck positions, shuttling, passes in a row.
pub fn endless() -> Vec<Shape> {
    use Shape::*;
    let mut v = vec![Stuck, Pass(Box::new(Stuck)), Shuttle(Box::new(End(1))), Shuttle(Box::new(Stuck)), Shuttle(Box::new(Shuttle(Box::new(End(0)))))];
    for e in ends() {
        v.push(Pass(Box::new(Pass(Box::new(e.clone())))));
        v.push(Pass(Box::new(Pass(Box::new(Pass(Box::new(e.clone())))))));
        v.push(Node(vec![(false, 0, Stuck), (false, 0, e.clone())]));
        v.push(Node(vec![(false, 0, Pass(Box::new(Stuck))), (false, 0, Pass(Box::new(e.clone())))]));
        v.push(Node(vec![(false, 0, Shuttle(Box::new(e.clone()))), (true, 0, e.clone())]));
    }
    v
}

/// Dice variants of a game: which of the root's moves are playable on which roll.
pub fn dice_variants(s: &Shape) -> Vec<Shape> {
    match s {
        Shape::Node(es) => {
            let n = es.len();
            // 0: always; 2: on roll 1; 4: on roll 2
            let opts = [0u8, 2, 4];
            let mut out = vec![];
            for m in 0..opts.len().pow(n as u32) {
                let mut k = m;
                let mut e2 = es.clone();
                for e in e2.iter_mut() {
                    e.1 = opts[k % 3];
                    k /= 3;
                }
                out.push(Shape::Node(e2));
            }
            out
        }
        s => vec![s.clone()],
    }
}

/// A game of `n` forced moves in a row; every `pass`-th turn (if not 0) is a forced pass instead.
pub fn chain(n: usize, pass: usize, end: Shape) -> Shape {
    let mut s = end;
    for i in (0..n).rev() {
        s = if pass > 0 && i % pass == pass - 1 { Shape::Pass(Box::new(s)) } else { Shape::Node(vec![(false, 0, s)]) };
    }
    s
}

/// A game of `n` turns, at each of which one move goes on and the other ends the game with `out`.
pub fn ladder(n: usize, out: i8, end: Shape) -> Shape {
    let mut s = end;
    for i in 0..n {
        let (go, stop) = ((false, 0, s), (false, 0, Shape::End(out)));
        s = Shape::Node(if i % 2 == 0 { vec![go, stop] } else { vec![stop, go] });
    }
    s
}

/// A short name of a game.
pub fn show(s: &Shape) -> String {
    let t = show_all(s);
    if t.len() <= 160 {
        return t;
    }
    format!("{}...{} ({} moves and ends)", &t[..60], &t[t.len() - 30..], Table::new(s, false).nodes.len())
}

fn show_all(s: &Shape) -> String {
    match s {
        Shape::End(1) => "W".into(),
        Shape::End(0) => "D".into(),
        Shape::End(_) => "L".into(),
        Shape::Pass(n) => format!("p{}", show_all(n)),
        Shape::Stuck => "stuck".into(),
        Shape::Shuttle(n) => format!("shuttle({})", show_all(n)),
        Shape::Braid(k, n) => format!("braid({k} {})", show_all(n)),
        Shape::Node(es) => {
            let v: Vec<String> = es
                .iter()
                .map(|(k, w, c)| format!("{}{}{}", if *k { "+" } else { "" }, match w { 2 => "1:", 4 => "2:", _ => "" }, show_all(c)))
                .collect();
            format!("({})", v.join(" "))
        }
    }
}

/// A game of many moves: `n` of them at the root, the `win`-th wins at once; any other is answered by one of `n`
/// moves, of which the next one wins and the others draw.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Wide {
    pub n: u8,
    pub win: u8,
    pub stage: u8,
    pub player: i8,
    pub end: Option<i8>,
    pub path: u16,
    pub id: usize,
}

impl Wide {
    pub fn of(n: u8, win: u8, player: i8) -> Wide {
        Wide { n, win, stage: 0, player, end: None, path: 0, id: 0 }
    }
    fn label(&self, i: u8) -> u8 {
        // a permutation of the 64 labels
        (i.wrapping_mul(27).wrapping_add(5 + self.stage)) % 64
    }
}

impl LearnableGame for Wide {
    type Move = u8;
    const EMPTY_MOVE: u8 = EMPTY;
    const IS_DETERMINISTIC: bool = true;
    const ACTION_SPACE_SIZE: i64 = 64;
    const N_INPUT_CHANNELS: i64 = 2;
    const CONV_OUTPUT_SIZE: i64 = 4;
    const N_FILTERS: i64 = 2;
    const N_RES_BLOCKS: i64 = 1;
    fn new() -> Self {
        Wide::of(20, 18, -1)
    }
    fn name() -> String {
        "wide".into()
    }
    fn get_valid_moves(&self) -> Vec<u8> {
        if self.stage > 1 || self.end.is_some() {
            return vec![];
        }
        (0..self.n).map(|i| self.label(i)).collect()
    }
    fn apply_move(&mut self, m: &u8) {
        let Some(i) = self.get_valid_moves().iter().position(|x| x == m) else {
            blame(format!("illegal move {m} applied to {self:?}"));
            panic!("wide: illegal move {m}");
        };
        let i = i as u8;
        if self.stage == 0 && i == self.win || self.stage == 1 && i == (self.win + 1) % self.n {
            self.end = Some(self.player);
        } else if self.stage == 1 {
            self.end = Some(0);
        }
        self.path = self.path * 64 + i as u16;
        self.stage += 1;
        self.player = -self.player;
    }
    fn skip_turn(&mut self) {
        self.player = -self.player;
    }
    fn get_player(&self) -> i8 {
        self.player
    }
    fn check_winner(&self) -> Option<i8> {
        self.end
    }
    fn as_tensor(&self) -> Tensor {
        Tensor::from_slice(&[self.player as f32, self.stage as f32, (self.path / 64) as f32 / 64.0, (self.path % 64) as f32 / 64.0, self.win as f32 / 64.0, self.end.unwrap_or(3) as f32, 0.5, 1.0]).view([1, 2, 2, 2])
    }
    fn decode(&self, action: u32) -> u8 {
        ((action + 61) % 64) as u8
    }
    fn encode(&self, action: &u8) -> u32 {
        (*action as u32 + 3) % 64
    }
    fn get_id(&self) -> usize {
        self.id
    }
    fn set_id(&mut self, new_id: usize) {
        self.id = new_id
    }
    fn to_pretty_str(&self) -> String {
        "a toy game".into()
    }
}
