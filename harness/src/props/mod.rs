use crate::cx::Cx;

pub struct Prop {
    pub id: &'static str,
    pub jobs: u64,
    pub run: fn(&mut Cx),
    pub meaning: &'static str,
    pub assumptions: &'static [&'static str],
}

pub mod cli;
pub mod learn;
pub mod matches;
pub mod probs;
pub mod rules;
pub mod search;
pub mod store;
pub mod train;

const TOOLS: &str = "rustc, libtorch on CPU and the standard library are trusted; random draws go through the rand crate";

const NET: &str = "the network is one fixed random initialisation per game; its forward pass is used as given";

pub static ALL: &[Prop] = &[
    Prop { id: "C01", jobs: 8, run: rules::c01, meaning: "states: distinct (position, roll, player); transitions: offered plays compared with the reference rules; traces: calls of the move generator", assumptions: &[TOOLS] },
    Prop { id: "C02", jobs: 8, run: rules::c02, meaning: "states: distinct (position, roll, player); transitions: legal plays applied and compared square by square; traces: plays applied", assumptions: &[TOOLS] },
    Prop { id: "C03", jobs: 8, run: rules::c03, meaning: "states: (position, roll, flag) configurations; transitions: dice outcomes enumerated; traces: executions", assumptions: &[TOOLS] },
    Prop { id: "C04", jobs: 8, run: rules::c04, meaning: "states: positions judged; transitions: plays followed; traces: game histories", assumptions: &[TOOLS] },
    Prop { id: "C05", jobs: 8, run: rules::c05, meaning: "states: distinct (board, player) reached; transitions: moves and skips; traces: complete games", assumptions: &[TOOLS] },
    Prop { id: "C06", jobs: 8, run: rules::c06, meaning: "states: distinct (position, roll, player); transitions: move codes round-tripped; traces: positions", assumptions: &[TOOLS] },
    Prop { id: "C07", jobs: 8, run: rules::c07, meaning: "states: distinct positions; transitions: input cells compared; traces: tensors", assumptions: &[TOOLS] },
    Prop { id: "C08", jobs: 8, run: rules::c08, meaning: "states: distinct positions rendered; transitions: points read back; traces: renderings", assumptions: &[TOOLS] },
    Prop { id: "C09", jobs: 8, run: search::c09, meaning: "states: (position, budget, constants, tape) configurations; transitions: random choices; traces: searches run", assumptions: &[TOOLS] },
    Prop { id: "C10", jobs: 8, run: search::c10, meaning: "states: distinct search statistics of the model (per game, budget, constants); transitions: iterations of the model and of the real parts; traces: real searches whose move or statistics were compared with the model", assumptions: &[TOOLS] },
    Prop { id: "C11", jobs: 8, run: search::c11, meaning: "states: (position, player, round limit); transitions: random choices; traces: playouts of the real rollout and of the reference", assumptions: &[TOOLS] },
    Prop { id: "C12", jobs: 8, run: search::c12, meaning: "states: search-tree nodes compared; transitions: simulations (tree before and after); traces: searches run", assumptions: &[TOOLS, NET] },
    Prop { id: "C13", jobs: 8, run: search::c13, meaning: "states: (game, batch) trees compared with the tree of the game searched alone; transitions: games in batches; traces: searches run", assumptions: &[TOOLS, NET] },
    Prop { id: "C14", jobs: 8, run: probs::c14, meaning: "states: (moves, weights) rows; transitions: rows compared in single and batched form; traces: calls and sampled outcomes", assumptions: &[TOOLS, "some legal move has a positive network weight"] },
    Prop { id: "C15", jobs: 8, run: matches::c15, meaning: "states: games played and compared with their record; transitions: moves, passes and search steps observed; traces: matches", assumptions: &[TOOLS] },
    Prop { id: "C16", jobs: 8, run: matches::c16, meaning: "states: games compared; transitions: game actions observed; traces: schedules of the worker tasks", assumptions: &[TOOLS, "rayon's parallel iterators are driven through its join primitive; tasks do not share memory (they get their game by reference and return their action)"] },
    Prop { id: "C17", jobs: 8, run: learn::c17, meaning: "states: samples compared with the position, result and search they come from; transitions: game actions observed; traces: self-play executions", assumptions: &[TOOLS, NET] },
    Prop { id: "C18", jobs: 8, run: store::c18, meaning: "states: samples saved and compared; transitions: torn, missing, mismatched and failing files tried; traces: save-load round trips", assumptions: &[TOOLS, "a torn file is a prefix of the written one"] },
    Prop { id: "C19", jobs: 8, run: store::c19, meaning: "states: game records saved and compared; transitions: torn files and failing writes tried; traces: save-load round trips", assumptions: &[TOOLS, "a torn file is a prefix of the written one"] },
    Prop { id: "C20", jobs: 8, run: store::c20, meaning: "states: (given path, best model on disk) combinations; transitions: model comparisons and unusable files tried; traces: starts", assumptions: &[TOOLS, "a torn file is a prefix of the written one"] },
    Prop { id: "C21", jobs: 8, run: train::c21, meaning: "states: games played in matches; transitions: unused; traces: matches with a given number of won games", assumptions: &[TOOLS] },
    Prop { id: "C22", jobs: 8, run: cli::c22, meaning: "states: samples in the requested scopes; transitions: runs of the program; traces: trained models compared with the reference", assumptions: &[TOOLS, "libtorch's gradients and running statistics are trusted"] },
    Prop { id: "C23", jobs: 8, run: train::c23, meaning: "states: reference divisions into batches; transitions: trained models compared; traces: shuffles enumerated", assumptions: &[TOOLS, "libtorch's gradients and its Adam step are trusted; entries with a vanishing gradient are left out of the comparison"] },
    Prop { id: "C24", jobs: 8, run: cli::c24, meaning: "states: positions, samples and games compared under a varied configuration; transitions: runs of the program refused, and game actions observed; traces: searches, trainings and runs of the program", assumptions: &[TOOLS] },
    Prop { id: "C25", jobs: 8, run: train::c25, meaning: "states: samples and models compared; transitions: game actions observed; traces: learning runs", assumptions: &[TOOLS, "libtorch's gradients and its Adam step are trusted; entries with a vanishing gradient are left out of the comparison"] },
    Prop { id: "C26", jobs: 8, run: cli::c26, meaning: "states: recorded turns looked for; transitions: unusable files and matches; traces: replays compared with the record", assumptions: &[TOOLS] },
];
