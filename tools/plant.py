#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: builds seeded/<id>/ from bug descriptions and confirms each of them in scratch copies.

SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo=rust source, needs, breaks)].
Confirmed means: only lines of the original repository changed, it builds, the stable tests pass,
the demonstration passes on the unchanged tree and fails with the change."""
import concurrent.futures, json, os, re, runpy, shutil, subprocess, sys

BASE = "087ce0b"
PRELUDE = '''#![allow(unused, non_snake_case)]
use config::Config;
use die_e::{
    alphazero::{alphazero::{AlphaZero, AlphaZeroConfig, MemoryFragment, OptimizerParams}, nnet::ResNet},
    backgammon::backgammon_logic::{Actions, Backgammon, Board},
    base::LearnableGame,
    mcts::{alpha_mcts::*, node::Node, node_store::NodeStore, simple_mcts::*, utils::*},
    tictactoe::TicTacToe,
    versus::{self, Agent, Game, Player, PlayResult, Turn},
    MctsConfig,
};
use std::{collections::{HashMap, HashSet}, fs, path::{Path, PathBuf}};
use tch::{nn, Device, Kind, Tensor};

fn conf(over: &[(&str, f64)]) -> Config {
    let mut v: Vec<(&str, f64)> = vec![
        ("temperature", 1.0), ("learn_iterations", 1.0), ("num_epochs", 1.0), ("training_batch_size", 8.0), ("self_play_iterations", 1.0),
        ("num_self_play_batches", 2.0), ("iterations", 20.0), ("exploration_const", 2.0), ("simulate_round_limit", 50.0),
        ("dirichlet_alpha", 0.3), ("dirichlet_epsilon", 0.25), ("wd", 0.0001), ("lr", 0.001),
    ];
    v.extend(over);
    let mut b = Config::builder();
    for (k, x) in v {
        b = if x.fract() == 0.0 && !["temperature", "exploration_const", "dirichlet_alpha", "dirichlet_epsilon", "wd", "lr"].contains(&k) {
            b.set_override(k, x as i64).unwrap()
        } else {
            b.set_override(k, x).unwrap()
        };
    }
    b.build().unwrap()
}

fn mcts(over: &[(&str, f64)]) -> MctsConfig {
    MctsConfig::from_config(&conf(over)).unwrap()
}

/// A position: (point, checkers) of both sides, player -1 negative; the rest is borne off.
fn pos(points: &[(usize, i8)], bar: (u8, u8), player: i8, roll: (u8, u8)) -> Backgammon {
    let mut b = [0i8; 24];
    for &(p, n) in points {
        b[p] = n;
    }
    let a: i8 = -b.iter().filter(|n| **n < 0).sum::<i8>() + bar.0 as i8;
    let c: i8 = b.iter().filter(|n| **n > 0).sum::<i8>() + bar.1 as i8;
    let mut g = Backgammon::init_with_fields((b, bar, ((15 - a) as u8, (15 - c) as u8)), player, false);
    g.roll = roll;
    g
}

/// All boards the offered plays lead to.
fn boards(g: &Backgammon) -> HashSet<Board> {
    g.get_valid_moves().iter().map(|m| Backgammon::get_next_state(g.board, m, g.player)).collect()
}

/// A tic-tac-toe position after the given squares were played in turn.
fn ttt(moves: &[u8]) -> TicTacToe {
    let mut g = TicTacToe::new();
    for m in moves {
        g.apply_move(m);
    }
    g
}
'''
DEMO = '''#!/bin/bash
# cwd: the repository after its build. Works in a scratch copy only.
here=$(cd "$(dirname "$0")" && pwd)
src=$PWD
. /opt/vp/env.sh
rm -rf /tmp/die-e-demo-@ID@
trap 'rm -rf /tmp/die-e-demo-@ID@' EXIT
cp -a "$src" /tmp/die-e-demo-@ID@ || exit 2
cp "$here/demo.rs" /tmp/die-e-demo-@ID@/tests/demo_planted.rs || exit 2
cd /tmp/die-e-demo-@ID@ || exit 2
timeout 280 cargo test --offline --test demo_planted -- --test-threads 1
'''
SEEDED = "/verif/seeded"
ENV = ". /opt/vp/env.sh; cd "

def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout)

def digest(r):
    lines = (r.stdout + "\n" + r.stderr).splitlines()
    keep = [n for n, l in enumerate(lines) if l.startswith("error") or "panicked" in l]
    return "\n".join("\n".join(lines[n:n + 6]) for n in keep[:3])[:1200]

def original_lines():
    out = {}
    for f in sh("git ls-files src", "/repo").stdout.split():
        b = sh(f"git blame -l -s {f}", "/repo").stdout.splitlines()
        base = sh(f"git rev-parse {BASE}", "/repo").stdout.strip()
        out[f] = [re.match(r"\^?([0-9a-f]+)", l).group(1)[:30] == base[:30] or l.startswith("^") for l in b]
    return out

def plant(b, orig):
    i = b["id"]
    w = f"/tmp/plant-work/{i}"
    d = f"{SEEDED}/{i}"
    try:
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs("/tmp/plant-work", exist_ok=True)
        sh(f"cp -a /repo {w}")
        for f, old, new in b["edits"]:
            s = open(f"{w}/{f}").read()
            if s.count(old) != 1:
                return f"{i}: BAD EDIT {f}: {s.count(old)} matches of {old!r}"
            open(f"{w}/{f}", "w").write(s.replace(old, new))
        diff = sh("git diff", w).stdout
        f = None
        removed = 0
        for l in diff.splitlines():
            if l.startswith("--- "):
                f = l[6:]
            elif l.startswith("@@"):
                n = int(re.match(r"@@ -(\d+)", l).group(1))
            elif l.startswith("-"):
                removed += 1
                if not orig[f][n - 1]:
                    return f"{i}: NOT ORIGINAL {f}:{n} {l}"
                n += 1
            elif l.startswith(" "):
                n += 1
        if not removed:
            return f"{i}: NO ORIGINAL LINE CHANGED"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.rs", "w").write(PRELUDE + "\n" + b["demo"].strip() + "\n")
        open(f"{d}/demo.sh", "w").write(DEMO.replace("@ID@", i))
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        def no(why, r=None):
            os.rename(d, f"/tmp/plant/rejected-{i}") if not os.path.exists(f"/tmp/plant/rejected-{i}") else shutil.rmtree(d)
            return f"{i}: {why}" + ("\n" + digest(r) if r else "")
        # demo on the unchanged tree
        r = sh(f"bash {d}/demo.sh", "/repo")
        if r.returncode != 0:
            return no("DEMO FAILS ON THE UNCHANGED TREE", r)
        r = sh(ENV + w + "; cargo test --workspace --all-targets --no-run --offline")
        if r.returncode != 0:
            return no("DOES NOT BUILD", r)
        r = sh(ENV + w + f"; cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/plant-work/{i}.log 2>&1; python3 /opt/vp/results.py /tmp/plant-work/{i}.json cargo:/tmp/plant-work/{i}.log")
        got = json.load(open(f"/tmp/plant-work/{i}.json"))
        want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        bad = [t for t in want if t not in got["passed"]]
        if bad:
            return no(f"TESTS FAIL {bad[:4]}")
        r = sh(f"bash {d}/demo.sh", w)
        if r.returncode == 0 or r.returncode == 124:
            return no(f"DEMO DOES NOT FAIL ({r.returncode})", r)
        if "could not compile" in r.stderr:
            return no("DEMO DOES NOT COMPILE", r)
        why = [l for l in r.stdout.splitlines() if "panicked" in l or "assert" in l or "left" in l or "right" in l][:4]
        return f"{i}: ok   {why}"
    except Exception as e:
        return f"{i}: ERROR {e!r}"
    finally:
        shutil.rmtree(w, ignore_errors=True)

if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if sys.argv[2:]:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    orig = original_lines()
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda b: plant(b, orig), bugs):
            print(r, flush=True)
