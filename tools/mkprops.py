#!/usr/bin/env python3
"""Generates properties.jsonl (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state, obs, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=s) for s in state], observe_at=obs, hook_needed=hook)))
BG='src/backgammon/backgammon_logic.rs'; ENC='src/backgammon/encoding.rs'; TTT='src/tictactoe/mod.rs'
AM='src/mcts/alpha_mcts.rs'; SM='src/mcts/simple_mcts.rs'; ND='src/mcts/node.rs'; NS='src/mcts/node_store.rs'; UT='src/mcts/utils.rs'; NO='src/mcts/noise.rs'
AZ='src/alphazero/alphazero.rs'; AP='src/alphazero/alpha_parallel.rs'; AS='src/alphazero/alpha_no_parallel.rs'; AV='src/alphazero/alpha_versus.rs'; NN='src/alphazero/nnet.rs'
VS='src/versus.rs'; MN='src/main.rs'; LB='src/lib.rs'

p('C01','The backgammon plays offered are exactly the legal ones',
 "For every position, roll and side to move, the plays offered are legal backgammon: checkers on the bar enter before anything else moves, a point held by two or more opposing checkers is never landed on, and bearing off needs every own checker home and uses the exact point or, for a larger die, the farthest occupied point. As many of the two dice as can be played are played (a double is played as two successive plays of two), and no play is offered only when none is possible. Every position that some legal play can reach is reached by exactly one offered play.",
 ['inputs'],'all positions, rolls and sides to move (bounded families: sparse positions, home-board and bear-off positions, bar-entry patterns, all positions reachable from the start within a few plays)',
 'The tests compare a few dozen hand-written positions with expected lists; legality is a claim about every position, and opposing checkers inside the home board, farthest-point bear-offs and blocked second dice are not sampled.',
 [BG],[('move generation','Backgammon::get_valid_moves, get_normal_moves, get_entry_moves, is_collectible'),('duplicate removal','remove_duplicate_states')],['board points','bar','borne-off trays','roll'],['list of offered plays'])
p('C02','Playing a move changes exactly the checkers it names',
 "Playing any legal move moves exactly the checkers it names: a hit sends the single opposing checker to its owner's bar, an entering checker leaves the bar, a borne-off checker goes to its owner's tray, and nothing else on the board changes. Each side has fifteen checkers on points, bar and tray after every play of every game.",
 ['inputs','histories'],'every legal play of every position in the explored families and every play sequence explored from the start',
 'Tests apply a few fixed moves; conservation and the frame condition must hold for every play in every position.',
 [BG],[('move application','Backgammon::get_next_state, LearnableGame::apply_move')],['board points','bar','trays'],['board after each play'])
p('C03','Turns and dice follow the rules',
 "After a play the turn passes to the opponent with freshly rolled dice, except that after the first of the two plays of a double the same player plays again with the same roll; skipping always passes the turn with fresh dice, also in the middle of a double. Every roll is two independent uniform dice from 1 to 6, and a skipped turn or a roll leaves the board as it was.",
 ['histories','inputs'],'all play/skip sequences up to the explored depth, all 36 dice outcomes at every roll',
 'Tests never control the dice, so the 36 outcomes, the double protocol and skips in the middle of a double are not exercised.',
 [BG],[('turn protocol','LearnableGame::apply_move, skip_turn, roll_die for Backgammon')],['player','roll','second-play flag'],['player, roll and board after each step'])
p('C04','A backgammon game ends exactly when a side has borne off all checkers',
 "A winner is reported exactly when one side has borne off all fifteen checkers, and it is that side; before that no winner is reported, whoever is to move. A new game starts from the standard opening position with nobody on the bar or borne off.",
 ['inputs','histories'],'all positions of the explored families including every tray count 0 to 15 on both sides, and all explored game histories',
 'Tests check a couple of boards for a win; the absence of premature or missed wins is a claim over all tray counts and histories.',
 [BG],[('win detection','check_winner, check_win, check_win_without_player')],['trays'],['reported winner'])
p('C05','Tic-tac-toe is played by the rules over the whole game tree',
 "From the empty board, whoever starts, the moves offered are exactly the empty squares, a move puts the mover's mark on that square and passes the turn, and skipping only passes the turn. A winner is reported exactly when three in a row are held by one side, a draw exactly when the board is full without one, and otherwise the game goes on.",
 ['histories'],'every sequence of legal moves of a full game, from both starting players, with skips',
 'Tests check individual boards; the whole tree (half a million games) is not walked.',
 [TTT],[('rules','get_valid_moves, apply_move, skip_turn, check_winner of TicTacToe')],['board','player'],['moves, board, winner'])
p('C06','Every legal move has its own code and decodes back to itself',
 "In both games, for every position and roll, encoding a legal move gives a code inside the game's action space, decoding that code in the same position gives the same move back, and two different legal moves never share a code. The pass code belongs to the empty backgammon play alone.",
 ['inputs'],'all legal plays of all positions, rolls and players in the explored families, for both the direct and the generic (game interface) encoder',
 'The tests encode selected moves through one of the two copies of the encoder; the copy used by search and learning is not tested at all.',
 [ENC,BG,TTT],[('encoder','encode/decode inherent and trait implementations')],['action code'],['encode, decode'])
p('C07','The network input describes the position faithfully',
 "The network input of a position contains, each in its fixed plane and cell, every point, both bars, both trays, the dice, the side to move and whether it is the second play of a double (for tic-tac-toe the first player's, empty and second player's squares), with the documented shape and float type. Positions differing in any of these give different inputs.",
 ['inputs'],'all positions, rolls, players and flags in the explored families',
 'No test looks at the network input at all.',
 [BG,TTT],[('input encoding','as_tensor')],['input planes'],['input tensor'])
p('C08','The printed board shows the actual position',
 "The text shown for a backgammon position gives for every point the number of checkers and their owner, both bars and trays, the side to move and the roll; the text for tic-tac-toe gives every square. Reading the text back recovers the position.",
 ['inputs'],'all explored positions; every checker count from 0 to 15 for both sides on every point',
 'No test reads the rendering; stacks above six, empty points and either owner must all be readable.',
 [BG,TTT],[('rendering','to_pretty_str')],['rendered text'],['text'])
p('C09','Search agents always return a legal move and never crash',
 "For every position and dice sequence, the tree-search agent, the random agent and the network agent return one of the offered moves when there is one, and pass only when there is none. Positions with forced passes, at the root or deeper in the search, finished games and single-move positions are handled without a crash.",
 ['inputs','histories','configurations'],'all explored positions (including forced passes in the tree), all dice outcomes during search, all toy games up to a size, search budgets and exploration constants in the configured sets',
 'The searches have no tests beyond two policy helpers.',
 [SM,AM,ND,VS,AZ],[('plain search','mct_search'),('network search','alpha_mcts, alpha_mcts_parallel'),('action selection','get_actions_for_player, get_next_move_for_state')],['search tree'],['returned move'])
p('C10','The plain tree search explores and decides by its statistics',
 "Each iteration adds exactly one evaluated simulation: it descends fully expanded nodes by the highest upper confidence bound of the configured exploration constant, and its result is credited once to every node on the path, from the view of the player who moved there. The move returned is a most visited one, and with an adequate budget a game-theoretically decisive move (an immediate win, or the only defence against one) is found.",
 ['programs','configurations','histories'],'all toy games up to a size (all outcomes, mover orders, passes), iteration budgets and exploration constants in the explored set, all tie-breaks',
 'No test runs the search; its choice depends on the whole interaction of selection, expansion, rollout and backup.',
 [SM,ND,NS],[('selection','select_leaf_node, select_ucb'),('backup','backpropagate'),('decision','select_most_visits')],['visits','values'],['returned move, tree statistics'])
p('C11','Rollouts play the game out and report its true outcome',
 "A rollout plays uniformly random legal moves, passing when there is none, until the game ends or the configured number of rounds is used up. It reports a win, loss or draw from the view of the given player exactly as the game it played ended, and a draw if it did not end.",
 ['histories','programs'],'every sequence of random choices of every rollout of all toy games up to a size, and of tic-tac-toe and backgammon endings, for every limit in the explored range',
 'Rollouts are random and untested; only enumerating the random choices settles what each playout must report.',
 [ND],[('rollout','Node::simulate')],['rollout state'],['rollout value'])
p('C12','The network-guided search keeps exact statistics',
 "After n simulations the search trees of a batch contain exactly n visits spread over each root's moves, every node's visits equal its own evaluations plus those of its children, every child is the position its move leads to with the normalised (at the root noise-mixed) network prior, and values are sums of network evaluations and true game results from the view of the player who moved. Every simulation descends by the highest sum of average value and prior-weighted exploration bonus.",
 ['programs','configurations','histories'],'all toy games up to a size, batch sizes, simulation counts, exploration constants, noise settings in the explored set; tic-tac-toe positions',
 'Only two tensor helpers are tested; the batched search loop is not.',
 [AM,ND,NS,UT,NO],[('batched search','alpha_mcts_parallel, alpha_select_leaf_node, select_alpha'),('expansion','alpha_expand_tensor'),('backup','backpropagate')],['visits','values','priors','children'],['search tree'])
p('C13','Games searched together do not influence each other',
 "Searching a batch of games gives every game the same tree, visit counts and move distribution as searching that game alone, whatever the other games are, in whatever order they are given, and even when some of them are finished or decided early.",
 ['programs','configurations'],'all batches of small games up to a size and batch length, including finished games, passes and early terminal lines',
 'Cross-game interference needs a batch where one game has reached a terminal line while others go on; no test builds a batch.',
 [AM,UT,NS],[('batched search','alpha_mcts_parallel')],['per-game trees'],['per-game visit distribution'])
p('C14','Move probabilities live on legal moves and sum to one',
 "Turning a network policy into move priors keeps the relative weights of the legal moves, gives every other code exactly zero and sums to one, and the single and the batched form agree. Turning visit counts into move probabilities gives each code exactly its share of the visits, and sampling from them only ever selects moves of positive probability.",
 ['inputs'],'all subsets of legal moves of a small action space with all small weight and visit vectors, batches of them, and the real games',
 'The existing tests check that two sums are one for one shape; they would accept a permuted, shifted or leaked distribution.',
 [UT,AZ],[('masking','turn_policy_to_probs, turn_policy_to_probs_tensor, turn_policy_to_probs_tensor_parallel'),('visit shares','get_prob_tensor, get_prob_tensor_parallel'),('sampling','weighted_select_tensor_idx')],['probability vectors'],['returned tensors'])
p('C15','A match counts every game once and for the right player',
 "A match plays its announced number of games, each player starting half of them; every game is played to its end by legal moves (or stopped as a draw at the round limit of 400 turns, also when the players only pass) and counted once. The reported wins, draws, win rate and the winner recorded with each game agree with how the games really ended.",
 ['programs','histories','configurations'],'all toy games up to a size with all agent pairings, random choices enumerated within a deviation bound; tic-tac-toe matches',
 'play() has no test; which player a win is credited to depends on who started and on the side that ends the game.',
 [VS],[('match loop','play'),('match result','PlayResult')],['win counters','game records'],['match result'])
p('C16','Parallel computation of actions never mixes up games',
 "However the worker threads are scheduled while the actions of a round are computed, every game receives the action computed for its own position, and the match result is the same function of the games' own choices. The number of worker threads does not change any game.",
 ['schedules','configurations'],'all work-splitting and completion orders of the worker tasks within a deviation bound, for every split granularity explored',
 'Tests never run a match, and a real thread pool shows one schedule per run.',
 [VS],[('parallel actions','get_actions_for_player (par_iter)'),('pairing','play: actions zipped with games')],['actions','games'],['moves applied to each game'])
p('C17','Self-play samples are complete, legal and labelled from the right side',
 "Every position in which a self-play game chose a move yields exactly one training sample, holding that position, the side-correct final result (+1 if the player to move there won, -1 if the opponent won, 0 for a draw or an unfinished game stopped at the round limit) and a policy target proportional to the search's temperature-adjusted visit shares, zero on illegal moves. Every move played is legal, games do not mix, every game of the batch ends, and no sample is lost or duplicated.",
 ['programs','histories','configurations'],'all toy games up to a size, batch sizes, round limits, and all move samplings within a deviation bound; both the serial and the batched self-play',
 'Self-play has no tests; the label depends on the game end, the mover and the round limit together.',
 [AP,AS,AZ],[('batched self-play','self_play_parallel'),('serial self-play','self_play')],['memory fragments'],['returned samples'])
p('C18','Training data written to disk comes back unchanged',
 "Loading training data returns exactly the saved samples, in order, each with its own outcome, policy and position, for any number of samples from one upwards. Missing, torn or mismatched files are reported rather than turned into samples.",
 ['inputs','crash_points','fault_sequences'],'all sample counts and outcome sequences up to a bound, both games and toy shapes; every truncation length of every file',
 'No test writes or reads training data.',
 [AZ],[('training data files','save_training_data, load_training_data')],['ps.ot','states.ot','outcomes.ot'],['loaded samples or reported failure'])
p('C19','A saved game is complete on disk or the save reports failure',
 "A successfully saved game loads back identical (players, turns, winner and initial position) under its own name, and loading a directory returns each saved game exactly once and ignores other files. A save that could not be written completely is reported as a failure, and a torn file is reported when loaded, never read as a game.",
 ['crash_points','fault_sequences','inputs'],'all agent/winner/turn combinations up to a size and positions of both games; a write failure after every possible byte count; every prefix of the file',
 'No test saves a game; write failures at particular byte counts are never injected.',
 [VS],[('game files','save_game, load_game, load_all_games')],['<id>.json'],['returned result, file contents'])
p('C20','A model asked for is the model used',
 "A checkpoint that is saved and loaded again evaluates every position exactly as before. Starting from a given model path uses that model, starting without one uses the best model on disk if there is one and fresh weights otherwise, and a missing, torn or incompatible file is reported instead of silently using other weights.",
 ['configurations','crash_points','inputs'],'all combinations of given path / best model present / neither, good / missing / truncated / wrong-shape files, both games and toy games',
 'No test constructs the learner or loads a checkpoint.',
 [AZ,NN],[('checkpoint loading','AlphaZero::new, ResNet::from_path, save_current_model')],['variables','*.ot'],['network outputs'])
p('C21','The best model is replaced exactly when the challenger is clearly better',
 "After a learning iteration the current model becomes the best model if none exists or if it wins at least 55 percent of its match against the best model; otherwise the best model on disk stays exactly as it was. The match is played between the current model and the stored best model, and a challenger that wins 45 percent or less is reported as worse, between the two as inconclusive.",
 ['histories','configurations'],'all match results from 0 to 400 wins around the thresholds for every split of wins, draws and losses explored; best model present or absent',
 'No test runs the promotion match; the thresholds and the direction are only visible for particular results.',
 [AV],[('promotion','play_vs_best_model, play_vs_model')],['best_model.ot'],['file contents, returned verdict'])
p('C22','Training uses exactly the data that was asked for',
 "The train command trains on exactly the samples recorded under the requested scope - all runs, one run, one learning iteration or one self-play iteration - each once, and writes the model to the requested place. It refuses incomplete scopes and missing directories, whatever characters the run id contains.",
 ['configurations','inputs'],'all scope argument combinations over generated data trees with several runs (ids with every relevant letter pattern), iterations and self-play directories',
 'The command-line program has no tests.',
 [MN],[('data selection','Commands::Train, get_all_paths_rec')],['data directories'],['reported sample count, exit status, trained model'])
p('C23','A training pass uses every sample once and learns from all parts of it',
 "One training pass splits the samples into batches of the configured size, with a smaller last one, using every sample exactly once whatever the shuffle, and takes one optimiser step per batch on policy cross-entropy plus squared value error against the sample's own policy and outcome. Only the model being trained changes, with the configured learning rate and weight decay.",
 ['inputs','configurations','histories'],'all sample counts and batch sizes up to a bound, all shuffles of small sets, learning rates and decays in the explored set',
 'No test trains; the pairing of samples with targets and the last partial batch need a reference step to be checked.',
 [AZ,NN],[('training','AlphaZero::train'),('network','ResNet::forward_train')],['variables','optimizer state'],['variables after training'])
p('C24','Every configuration parameter reaches what it names',
 "Every documented parameter is taken from the configuration entry of its own name and changes what it names, independently of the others, and a missing or malformed entry is reported at start-up. The command line selects the configuration file, the game and the agents it names and refuses unknown ones.",
 ['configurations'],'every single and pairwise combination of changed, missing and malformed entries; every command line of a generated family',
 'No test reads a configuration or runs the program.',
 [LB,AZ,MN],[('configuration','MctsConfig::from_config, AlphaZeroConfig::from_config, OptimizerParams::from_config'),('command line','main')],['configuration values'],['effect on search, self-play and training; exit status'])
p('C25','A learning run records, trains and checkpoints every iteration',
 "A learning run of n iterations performs n rounds of the configured self-play, stores each self-play round's own samples in its own directory, trains the configured number of passes on all samples of that iteration, and saves the resulting model of every iteration before comparing it with the best one. The stored data of a run, taken together, is every sample exactly once.",
 ['histories','configurations'],'all combinations of iteration, self-play, epoch and batch counts up to a bound on toy games, in a fresh or used working directory',
 'No test runs the learning loop.',
 [AP,AZ,AV],[('learning loop','learn_parallel')],['data directories','model files','variables'],['files written, model after the run'])
p('C26','Replay shows the saved game',
 "Replaying a saved game shows its id, agents, winner and initial position exactly as recorded and then every recorded turn in order; a missing, torn or foreign file is reported. The games a match saves record the turns that were played, so that they can be replayed move by move.",
 ['inputs','histories'],'all pairs of agents, winners, up to three recorded turns, positions of both games, every prefix of a record; games saved by matches',
 'No test reads a saved game back through the program or looks at what a match records.',
 [MN,VS],[('replay','Commands::Replay in handle_command, print_game, load_game'),('recording','play: Game::new and the games of PlayResult')],['game record'],['text shown by the replay command','records saved by a match'])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
