//! Shared helpers: configurations, networks, tic-tac-toe positions.
use die_e::alphazero::nnet::ResNet;
use die_e::base::LearnableGame;
use die_e::constants::DEVICE;
use die_e::tictactoe::TicTacToe;
use die_e::MctsConfig;
use std::collections::HashSet;
use tch::nn::VarStore;

/// Set by C24: configurations are read from text in which every entry has a value of its own.
pub static AS_TEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// Values for entries a case does not speak about: all different, and different in the two backgrounds.
fn background(k: usize) -> [(&'static str, f64); 13] {
    let a = [("temperature", 1.375), ("learn_iterations", 13.0), ("self_play_iterations", 17.0), ("num_epochs", 19.0), ("training_batch_size", 23.0), ("num_self_play_batches", 29.0),
        ("iterations", 31.0), ("exploration_const", 3.75), ("simulate_round_limit", 37.0), ("dirichlet_alpha", 0.625), ("dirichlet_epsilon", 0.4375), ("wd", 0.0625), ("lr", 0.03125)];
    let b = [("temperature", 0.75), ("learn_iterations", 3.0), ("self_play_iterations", 5.0), ("num_epochs", 11.0), ("training_batch_size", 6.0), ("num_self_play_batches", 8.0),
        ("iterations", 9.0), ("exploration_const", 5.0), ("simulate_round_limit", 14.0), ("dirichlet_alpha", 2.0), ("dirichlet_epsilon", 0.125), ("wd", 0.0), ("lr", 0.25)];
    if k % 2 == 1 { a } else { b }
}

/// Reads a configuration from text, as the program reads its file.
pub fn conf_text(s: &str) -> Result<config::Config, String> {
    config::Config::builder().add_source(config::File::from_str(s, config::FileFormat::Toml)).build().map_err(|e| e.to_string())
}

pub fn conf(pairs: &[(&str, f64)]) -> config::Config {
    let k = AS_TEXT.load(std::sync::atomic::Ordering::SeqCst);
    if k > 0 {
        let mut all = background(k).to_vec();
        if k % 3 == 0 {
            all.reverse();
        }
        let text: String = all.iter().map(|(n, v)| format!("{n} = {}\n", pairs.iter().find(|p| p.0 == *n).map_or(*v, |p| p.1))).collect();
        return conf_text(&text).expect("configuration text");
    }
    let mut b = config::Config::builder();
    for (k, v) in pairs {
        b = if v.fract() == 0.0 && !matches!(*k, "exploration_const" | "dirichlet_alpha" | "dirichlet_epsilon" | "wd" | "lr" | "temperature") {
            b.set_override(*k, *v as i64).unwrap()
        } else {
            b.set_override(*k, *v).unwrap()
        };
    }
    b.build().unwrap()
}

pub fn mcts_config(iterations: usize, c: f64, limit: usize, alpha: f64, eps: f64) -> MctsConfig {
    MctsConfig::from_config(&conf(&[
        ("iterations", iterations as f64),
        ("exploration_const", c),
        ("simulate_round_limit", limit as f64),
        ("dirichlet_alpha", alpha),
        ("dirichlet_epsilon", eps),
    ]))
    .expect("configuration")
}

pub fn net<T: LearnableGame>(seed: i64) -> ResNet {
    tch::manual_seed(seed);
    let vs = VarStore::new(*DEVICE);
    ResNet::new::<T>(vs)
}

/// A network with strong opinions: the last layers are scaled, so some policies are tiny and some values near one.
pub fn sharp<T: LearnableGame>(seed: i64, gain: f64) -> ResNet {
    let n = net::<T>(seed);
    let _g = tch::no_grad_guard();
    for (_, mut v) in n.vs.variables() {
        let rows = v.size();
        if rows.len() == 2 && (rows[0] == T::ACTION_SPACE_SIZE || rows[0] == 1) {
            let _ = v.g_mul_scalar_(if rows[0] == 1 { gain / 4.0 } else { gain });
        }
    }
    n
}

/// All positions reachable from the empty board, either starter, finished ones included.
pub fn ttt_positions() -> Vec<TicTacToe> {
    let mut seen = HashSet::new();
    let mut out: Vec<TicTacToe> = vec![];
    let mut a = TicTacToe::new();
    let mut todo = vec![a];
    a.skip_turn();
    todo.push(a);
    while let Some(s) = todo.pop() {
        if !seen.insert((s.board, s.get_player())) {
            continue;
        }
        out.push(s);
        if crate::tttref::winner(&s.board).is_none() {
            for i in 0..9u8 {
                if s.board[i as usize] == 0 {
                    let mut n = s;
                    n.apply_move(&i);
                    todo.push(n);
                }
            }
        }
    }
    out.sort_by_key(|s| (s.board, s.get_player()));
    out
}

pub fn tensor_vec(t: &tch::Tensor) -> Vec<f64> {
    Vec::<f64>::try_from(&t.to_device(tch::Device::Cpu).to_kind(tch::Kind::Double).flatten(0, -1)).expect("tensor")
}

pub fn full_conf(iterations: usize, c: f64, limit: usize, alpha: f64, eps: f64, temp: f64, batches: usize, batch: usize) -> Vec<(&'static str, f64)> {
    vec![
        ("iterations", iterations as f64),
        ("exploration_const", c),
        ("simulate_round_limit", limit as f64),
        ("dirichlet_alpha", alpha),
        ("dirichlet_epsilon", eps),
        ("temperature", temp),
        ("learn_iterations", 1.0),
        ("self_play_iterations", 1.0),
        ("num_epochs", 1.0),
        ("training_batch_size", batch as f64),
        ("num_self_play_batches", batches as f64),
        ("wd", 0.0001),
        ("lr", 0.001),
    ]
}

/// Set from the case's name.
pub static BACKGROUND: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// A fresh learner. The worker's current directory is its own scratch directory.
#[allow(clippy::too_many_arguments)]
pub fn learner<T: LearnableGame>(iterations: usize, c: f64, limit: usize, alpha: f64, eps: f64, temp: f64, batches: usize, batch: usize) -> die_e::alphazero::alphazero::AlphaZero {
    let mut all = full_conf(iterations, c, limit, alpha, eps, temp, batches, batch);
    // what is not asked for differs from case to case
    let mut h = BACKGROUND.load(std::sync::atomic::Ordering::SeqCst);
    for p in all.iter_mut() {
        let k = (h % 4) as f64;
        match p.0 {
            "learn_iterations" => p.1 = 1.0 + k,
            "self_play_iterations" => p.1 = 1.0 + 3.0 * k,
            "num_epochs" => p.1 = 1.0 + 2.0 * k,
            _ => continue,
        }
        h /= 4;
    }
    die_e::alphazero::alphazero::AlphaZero::from_config::<T>(None, &conf(&all))
}
