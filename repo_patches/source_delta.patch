From 0ec729af5a8abcc1c8bcd05dff55fc1f0987d8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:08 +0000
Subject: [PATCH 01/25] fix: bear off with a larger die only from the farthest
 own point

The check summed the signed points behind the checker, so opposing checkers
in the home board cancelled own ones and let a nearer checker be borne off.
---
 src/backgammon/backgammon_logic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/backgammon/backgammon_logic.rs b/src/backgammon/backgammon_logic.rs
index 51227fd..2bd7bfb 100644
--- a/src/backgammon/backgammon_logic.rs
+++ b/src/backgammon/backgammon_logic.rs
@@ -571,8 +571,8 @@ impl Backgammon {
                 for m_idx in (0..point).rev() {
                     let m_idx_usize = m_idx as usize;
                     let n_pieces_on_point = board[m_idx_usize];
-                    let left_sum: i8 = board[m_idx_usize + 1..6].iter().sum();
-                    if n_pieces_on_point < 0 && left_sum >= 0 {
+                    let no_pieces_behind = board[m_idx_usize + 1..6].iter().all(|&n| n >= 0);
+                    if n_pieces_on_point < 0 && no_pieces_behind {
                         possible_actions.push((m, (m_idx, -1)));
                         break;
                     }
@@ -588,8 +588,8 @@ impl Backgammon {
                 for m_idx in point..=23 {
                     let m_idx_usize = m_idx as usize;
                     let n_pieces_on_point = board[m_idx_usize];
-                    let left_sum: i8 = board[18..m_idx_usize].iter().sum();
-                    if n_pieces_on_point > 0 && left_sum <= 0 {
+                    let no_pieces_behind = board[18..m_idx_usize].iter().all(|&n| n <= 0);
+                    if n_pieces_on_point > 0 && no_pieces_behind {
                         possible_actions.push((m, (m_idx, -1)));
                         break;
                     }
-- 
2.43.0


From aa2ffe0b8960bc2c1bf27c82c6c46532ef27e841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:08 +0000
Subject: [PATCH 02/25] fix: offer only plays that use as many dice as possible

Plays that leave a playable die unused are illegal in backgammon when another
play uses both.
---
 src/backgammon/backgammon_logic.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backgammon/backgammon_logic.rs b/src/backgammon/backgammon_logic.rs
index 2bd7bfb..f7abed6 100644
--- a/src/backgammon/backgammon_logic.rs
+++ b/src/backgammon/backgammon_logic.rs
@@ -409,7 +409,10 @@ impl LearnableGame for Backgammon {
         };
         let action_trees = Self::_get_action_trees(&all_moves, self.board, self.player);
         // parse trees into actions here
-        let actions = Self::extract_sequences_list(action_trees);
+        let mut actions = Self::extract_sequences_list(action_trees);
+        // as many dice as possible must be played
+        let most_dice = actions.iter().map(|sequence| sequence.len()).max().unwrap_or(0);
+        actions.retain(|sequence| sequence.len() == most_dice);
         Self::remove_duplicate_states(self.board, actions, self.player)
     }
 }
-- 
2.43.0


From 2d177eba9954f7ae60c93138a3094824b8906f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:19 +0000
Subject: [PATCH 03/25] fix: stop a rollout when the played-out game ends

simulate() looked at the winner of the node's own state, so playouts always ran
to the round limit and were reported as draws.
---
 src/mcts/node.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mcts/node.rs b/src/mcts/node.rs
index e3d91a7..fbd17bb 100644
--- a/src/mcts/node.rs
+++ b/src/mcts/node.rs
@@ -178,10 +178,8 @@ impl <T: LearnableGame> Node<T>{
         let mut curr_state = self.state;
 
         for _ in 0..sim_limit {
-            if let Some(winner) = self.state.check_winner() {
-                return if winner == player {1.}
-                else if winner == -player {-1.}
-                else {0.};
+            if curr_state.check_winner().is_some() {
+                break;
             }
             let valid_moves = curr_state.get_valid_moves();
 
@@ -192,6 +190,10 @@ impl <T: LearnableGame> Node<T>{
                 curr_state.skip_turn();
             }
         }
-        0.
+        match curr_state.check_winner() {
+            Some(winner) if winner == player => 1.,
+            Some(winner) if winner == -player => -1.,
+            _ => 0.,
+        }
     }
 }
-- 
2.43.0


From 03f3989250767368a7dc1d32828246e5f288f209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:59 +0000
Subject: [PATCH 04/25] fix: do not crash the tree search on forced passes

A selected position without legal moves has nothing to expand; play on from it
instead of panicking.
---
 src/mcts/simple_mcts.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mcts/simple_mcts.rs b/src/mcts/simple_mcts.rs
index d8c2210..57d548a 100644
--- a/src/mcts/simple_mcts.rs
+++ b/src/mcts/simple_mcts.rs
@@ -27,6 +27,10 @@ pub fn mct_search<T: LearnableGame>(state: T, player: i8, mcts_config: &MctsConf
             else if winner == -player {-1.}
             else {0.};
             
+            backpropagate(selected_node_idx, value, &mut store)
+        } else if selected_node.is_fully_expanded() {
+            // No legal moves, the turn has to be passed: play on from the node itself
+            let value = selected_node.simulate(player, mcts_config.simulate_round_limit);
             backpropagate(selected_node_idx, value, &mut store)
         } else {
             let new_node_idx = selected_node.expand(&mut store);
-- 
2.43.0


From 4d43ababca3ea01f7975b7e2fb75fc5c60e033fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:57 +0000
Subject: [PATCH 05/25] fix: serial network search on batched policies and
 finished leaves

The network returns a [1, actions] policy, which the search indexed as a flat
one, and the value of a finished leaf was taken from the (unfinished) root.
---
 src/mcts/alpha_mcts.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mcts/alpha_mcts.rs b/src/mcts/alpha_mcts.rs
index 981da3c..64794f8 100644
--- a/src/mcts/alpha_mcts.rs
+++ b/src/mcts/alpha_mcts.rs
@@ -37,7 +37,7 @@ pub fn apply_dirichlet_to_root<T: LearnableGame>(root_idx: usize, store: &mut No
     
     let policy = net.forward_policy(&state.as_tensor().to_device(*DEVICE), false);
 
-    let policy_vec = turn_policy_to_probs(&policy, &root_node);
+    let policy_vec = turn_policy_to_probs(&policy.squeeze_dim(0), &root_node);
     root_node.alpha_expand(store, policy_vec);
     if root_node.children.len() < 2 {
         // Don't apply dirichlet on a node with a single child
@@ -69,14 +69,16 @@ pub fn alpha_mcts<T: LearnableGame>(state: &T, net: &ResNet, mcts_config: &MctsC
         let idx = alpha_select_leaf_node(root_node_idx, &store, mcts_config.c);
         let mut selected_node = store.get_node(idx);
 
-        let value = if !selected_node.is_terminal() {
+        let value = if let Some(winner) = selected_node.state.check_winner() {
+            if winner == state.get_player() {1.}
+            else if winner == -state.get_player() {-1.}
+            else {0.}
+        } else {
             let (policy, eval) = net.forward_t(&selected_node.state.as_tensor().to_device(*DEVICE), false);
 
-            let policy_vec = turn_policy_to_probs(&policy, &selected_node);
+            let policy_vec = turn_policy_to_probs(&policy.squeeze_dim(0), &selected_node);
             selected_node.alpha_expand(&mut store, policy_vec);
             eval.double_value(&[0]) as f32
-        } else {
-            ((state.check_winner().unwrap() + 1) / 2) as f32
         };
 
         backpropagate(idx, value, &mut store);
-- 
2.43.0


From b87784438ca62748e0eea92249bf8ad8a6b43689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:53 +0000
Subject: [PATCH 06/25] fix: credit search results from the view of the player
 who moved

All nodes were credited from the root player's view while every level picks the
child with the highest value, so the opponent was assumed to help: the search
missed immediate defences.
---
 src/mcts/simple_mcts.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/mcts/simple_mcts.rs b/src/mcts/simple_mcts.rs
index 57d548a..85c49a5 100644
--- a/src/mcts/simple_mcts.rs
+++ b/src/mcts/simple_mcts.rs
@@ -97,11 +97,28 @@ pub fn select_leaf_node<T: LearnableGame>(node_idx: usize, store: &NodeStore<T>,
     select_leaf_node(select_ucb(node_idx, store, c).idx, store, c)
 }
 
+/**
+ * Credits a result (from the perspective of the root's player) to every node on the path to the root
+ * A node's value is kept from the perspective of the player who moved there,
+ * as it is that player who picks between the node and its siblings
+ */
 pub fn backpropagate<T: LearnableGame>(node_idx: usize, result: f32, store: &mut NodeStore<T>) {
-    let node = store.get_node_as_mut(node_idx);
-    node.visits += 1.0;
-    node.value += result;
-    if let Some(parent) = node.parent {
-        backpropagate(parent, result, store)
+    let root_player = get_root_player(node_idx, store);
+    let mut curr_idx = Some(node_idx);
+    while let Some(idx) = curr_idx {
+        let parent = store.get_node_ref(idx).parent;
+        let moved_by = parent.map_or(root_player, |parent_idx| store.get_node_ref(parent_idx).state.get_player());
+        let node = store.get_node_as_mut(idx);
+        node.visits += 1.0;
+        node.value += if moved_by == root_player { result } else { -result };
+        curr_idx = parent;
+    }
+}
+
+fn get_root_player<T: LearnableGame>(node_idx: usize, store: &NodeStore<T>) -> i8 {
+    let node = store.get_node_ref(node_idx);
+    match node.parent {
+        Some(parent_idx) => get_root_player(parent_idx, store),
+        None => node.state.get_player(),
     }
 }
-- 
2.43.0


From a766bab1d2fabfe8c1910640d49bbc133d3a3b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:02 +0000
Subject: [PATCH 07/25] fix: evaluate only the nodes selected in this iteration

A game that had reached a finished position kept its last selected node in the
list, so that node was evaluated, expanded and credited again.
---
 src/mcts/alpha_mcts.rs | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/mcts/alpha_mcts.rs b/src/mcts/alpha_mcts.rs
index 64794f8..01d498a 100644
--- a/src/mcts/alpha_mcts.rs
+++ b/src/mcts/alpha_mcts.rs
@@ -129,28 +129,20 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
     }
     
     /*
-        Create two vectors:
-            - Games:
-                - values ranging from 0 to N_SELF_PLAY_BATCHES
-                - used to track how many games are still not completed
-            - Selected_nodes:
-                - N_SELF_PLAY_BATCHES node values
-                - selected_nodes[i] refers to the node that was last selected for game[i]
-
+        Games:
+            - values ranging from 0 to N_SELF_PLAY_BATCHES
+            - used to track how many games are still not completed
     */
     let games: HashSet<usize> = HashSet::from_iter(0..states.len());
 
-    // Game id to node idx mapping
-    let mut selected_nodes_idxs = vec![0; states.len()];
-
     let pb = match pb {
         Some(p) => p,
         None => ProgressBar::new(mcts_config.iterations as u64)
     };
 
     for _ in 0..mcts_config.iterations {
-        // Clear selected node indices
-        let mut node_selected = false;
+        // Nodes selected in this iteration that have to be evaluated, games that selected a terminal node have none
+        let mut selected_nodes_idxs = vec![];
         pb.inc(1);
         for &game_idx in games.iter() {
             let idx = alpha_select_leaf_node(game_idx, store, mcts_config.c);
@@ -164,12 +156,11 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
                     else {0.};
                 backpropagate(idx, value as f32, store);
             } else {
-                node_selected = true;
-                selected_nodes_idxs[game_idx] = selected_node.idx;
+                selected_nodes_idxs.push(selected_node.idx);
             }
         }
 
-        if !node_selected {
+        if selected_nodes_idxs.is_empty() {
             continue;
         }
             
-- 
2.43.0


From 5666fa5d4fdbe071c746de341ab03953c9d71999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:48 +0000
Subject: [PATCH 08/25] fix: take network evaluations from the view of the
 player they are for

The network values a position for the player to move in it; the searches added
it as if it were always the root player's.
---
 src/mcts/alpha_mcts.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/mcts/alpha_mcts.rs b/src/mcts/alpha_mcts.rs
index 01d498a..1e44660 100644
--- a/src/mcts/alpha_mcts.rs
+++ b/src/mcts/alpha_mcts.rs
@@ -32,6 +32,13 @@ fn select_alpha<T: LearnableGame>(node_idx: usize, store: &NodeStore<T>, c: f32)
         .expect("select_alpha called on node without children!")
 }
 
+/*
+    The network evaluates a state from the perspective of the player to move in it
+*/
+fn value_for_player<T: LearnableGame>(state: &T, eval: f32, player: i8) -> f32 {
+    if state.get_player() == player { eval } else { -eval }
+}
+
 pub fn apply_dirichlet_to_root<T: LearnableGame>(root_idx: usize, store: &mut NodeStore<T>, net: &ResNet, state: &impl LearnableGame, mcts_config: &MctsConfig) {
     let mut root_node = store.get_node(root_idx);
     
@@ -78,7 +85,7 @@ pub fn alpha_mcts<T: LearnableGame>(state: &T, net: &ResNet, mcts_config: &MctsC
 
             let policy_vec = turn_policy_to_probs(&policy.squeeze_dim(0), &selected_node);
             selected_node.alpha_expand(&mut store, policy_vec);
-            eval.double_value(&[0]) as f32
+            value_for_player(&selected_node.state, eval.double_value(&[0]) as f32, state.get_player())
         };
 
         backpropagate(idx, value, &mut store);
@@ -156,7 +163,7 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
                     else {0.};
                 backpropagate(idx, value as f32, store);
             } else {
-                selected_nodes_idxs.push(selected_node.idx);
+                selected_nodes_idxs.push((game_idx, selected_node.idx));
             }
         }
 
@@ -165,7 +172,7 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
         }
             
         // Convert ongoing (not terminal) games into a tensor vec
-        let selected_states_vec = selected_nodes_idxs.iter().map(|node_idx| {
+        let selected_states_vec = selected_nodes_idxs.iter().map(|(_, node_idx)| {
             let node = store.get_node(*node_idx);
             node.state.as_tensor()
         }).collect_vec();
@@ -182,13 +189,14 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
         let eval = eval.to_device(tch::Device::Cpu);
         let policy = policy.to_device(tch::Device::Cpu);
 
-        for (processed_idx, &node_idx) in selected_nodes_idxs.iter().enumerate() {
+        for (processed_idx, &(game_idx, node_idx)) in selected_nodes_idxs.iter().enumerate() {
             let mut node = store.get_node(node_idx);
             let (policy_i, eval_i) = (policy.get(processed_idx as i64), eval.get(processed_idx as i64));
             let prob_tensor = turn_policy_to_probs_tensor(&policy_i, &node);
             // Expand selected node
             node.alpha_expand_tensor(store, &prob_tensor);
-            let value = eval_i.double_value(&[0]) as f32;
+            let root_player = store.get_node_ref(game_idx).state.get_player();
+            let value = value_for_player(&node.state, eval_i.double_value(&[0]) as f32, root_player);
             backpropagate(node.idx, value, store);
         }
     }
-- 
2.43.0


From b9eb926d74d32e2b49ab8fbd0466160807438f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:42 +0000
Subject: [PATCH 09/25] fix: end a game at the round limit also when its
 players pass

---
 src/versus.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/versus.rs b/src/versus.rs
index 38edd1f..b80b0b9 100644
--- a/src/versus.rs
+++ b/src/versus.rs
@@ -222,11 +222,10 @@ pub fn play<T: LearnableGame>(player1: Player, player2: Player, mcts_config: &Mc
 
             if action.eq(&T::EMPTY_MOVE) {
                 game_mut.skip_turn();
-                continue;
+            } else {
+                assert!(game_mut.get_valid_moves().contains(action));
+                game_mut.apply_move(action);
             }
-            assert!(game_mut.get_valid_moves().contains(action));
-
-            game_mut.apply_move(action);
 
             let winner = match game_mut.check_winner() {
                 Some(winner) => Some(winner),
-- 
2.43.0


From 277100fd46b1fcef2c4fa6379acb69ddef3f9c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:47 +0000
Subject: [PATCH 10/25] fix: stop a self-play game at its round limit

---
 src/alphazero/alpha_parallel.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index b47783e..64e246c 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -177,6 +177,7 @@ impl AlphaZero {
                     });
                     all_memories.extend(curr_memory);
                     states_to_remove.push(*init_idx);
+                    continue;
                 }
 
                 // If prob tensor of the current state is all zeros then skip turn, has_children check just in case
-- 
2.43.0


From 3484b30edc2b2e82e717643c2a5aac692f232c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:47 +0000
Subject: [PATCH 11/25] fix: label drawn games of serial self-play as draws

---
 src/alphazero/alpha_no_parallel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/alphazero/alpha_no_parallel.rs b/src/alphazero/alpha_no_parallel.rs
index 5478b59..8fe8b8e 100644
--- a/src/alphazero/alpha_no_parallel.rs
+++ b/src/alphazero/alpha_no_parallel.rs
@@ -73,7 +73,7 @@ impl AlphaZero {
                 return memory
                     .iter()
                     .map(|mem| MemoryFragment {
-                        outcome: if mem.outcome == winner { 1 } else { -1 },
+                        outcome: if winner == mem.outcome {1} else if winner == -mem.outcome {-1} else {0},
                         ps: mem.ps.shallow_clone(),
                         state: mem.state.shallow_clone(),
                     })
-- 
2.43.0


From 10900f1bfdd010c80e56b2df6edbf3c8028484c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:04 +0000
Subject: [PATCH 12/25] fix: load training data of a single sample

---
 src/alphazero/alphazero.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index a49edcc..7cc02af 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -185,9 +185,9 @@ impl AlphaZero {
         if !path.exists() {
             panic!("path: {} does not exist!", path.to_str().unwrap())
         }
-        let ps = Tensor::load(path.join("ps.ot")).unwrap().squeeze();
-        let states = Tensor::load(path.join("states.ot")).unwrap().squeeze();
-        let outcomes = Tensor::load(path.join("outcomes.ot")).unwrap().squeeze();
+        let ps = Tensor::load(path.join("ps.ot")).unwrap();
+        let states = Tensor::load(path.join("states.ot")).unwrap();
+        let outcomes = Tensor::load(path.join("outcomes.ot")).unwrap();
 
         let data_size = ps.size()[0];
         (0..data_size).map(|data_idx| {
-- 
2.43.0


From 03546dc22cb03e5804210af254507eb5447f7d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:04 +0000
Subject: [PATCH 13/25] fix: report training data files of different lengths

---
 src/alphazero/alphazero.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index 7cc02af..e5bb5cd 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -190,6 +190,9 @@ impl AlphaZero {
         let outcomes = Tensor::load(path.join("outcomes.ot")).unwrap();
 
         let data_size = ps.size()[0];
+        if states.size()[0] != data_size || outcomes.size()[0] != data_size {
+            panic!("training data files in path: {} have different lengths!", path.to_str().unwrap())
+        }
         (0..data_size).map(|data_idx| {
             MemoryFragment {
                 outcome: outcomes.get(data_idx).int64_value(&[]) as i8,
-- 
2.43.0


From 27ea7c6f236afdb5e7e21fd63c6d355a83ab40bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:04 +0000
Subject: [PATCH 14/25] fix: report a game that could not be written completely

---
 src/versus.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/versus.rs b/src/versus.rs
index b80b0b9..558b8c2 100644
--- a/src/versus.rs
+++ b/src/versus.rs
@@ -58,6 +58,7 @@ pub fn save_game<T: LearnableGame>(game: &Game<T>, game_path: &str) -> Result<()
     let serialized = serde_json::to_string_pretty(game)?;
     let mut writer = std::io::BufWriter::new(file);
     writer.write_all(serialized.as_bytes())?;
+    writer.flush()?;
 
     Ok(())
 }
-- 
2.43.0


From 50083e874e3261d3e59cd7c87e0c167a6b0ab42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:04 +0000
Subject: [PATCH 15/25] fix: ignore files with non-UTF-8 names when loading
 games

---
 src/versus.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/versus.rs b/src/versus.rs
index 558b8c2..7755676 100644
--- a/src/versus.rs
+++ b/src/versus.rs
@@ -111,8 +111,7 @@ pub fn load_all_games<T: LearnableGame>(path: PathBuf) -> Result<Vec<Game<T>>, B
     for entry in fs::read_dir(path)? {
         let entry = entry?;
         if entry.path().is_file() {
-            let file_name = entry.file_name().into_string().unwrap();
-            if file_name.ends_with(".json") {
+            if entry.file_name().to_string_lossy().ends_with(".json") {
                 let game = load_game(entry.path())?;
                 games.push(game);
             }
-- 
2.43.0


From faf0716c53899af7a058ac1e25266cf4bac22cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:04 +0000
Subject: [PATCH 16/25] fix: load the given or best checkpoint into the model

---
 src/alphazero/alphazero.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index e5bb5cd..11d6d1c 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -79,19 +79,20 @@ torch.optim.Adam(params, lr=0.001, betas=(0.9, 0.999), eps=1e-08, weight_decay=0
 
 impl AlphaZero {
     pub fn new<T: LearnableGame>(model_path: Option<PathBuf>, config: AlphaZeroConfig, mcts_config: MctsConfig, op: OptimizerParams) -> Self {
-        let mut vs = nn::VarStore::new(*DEVICE);
+        // The variables have to exist before a checkpoint can be loaded into them
+        let mut model = ResNet::new::<T>(nn::VarStore::new(*DEVICE));
 
         println!("Initializing AlphaZero...\nDevice: {:?}\n{:?}\n{:?}", *DEVICE, &config, mcts_config);
 
         match model_path {
-            Some(m_path) => match vs.load(&m_path) {
+            Some(m_path) => match model.vs.load(&m_path) {
                 Ok(_) => println!("Successfully loaded model on path: {}", m_path.to_str().unwrap()),
                 Err(e) => panic!("failed to load model: (might be a large error log) \n{}", e),
             },
             None if Path::new(&format!("./models/{}/best_model.ot", T::name())).exists() => {
                 let m_path_str = format!("./models/{}/best_model.ot", T::name());
                 let bm_path = Path::new(&m_path_str);
-                match vs.load(bm_path) {
+                match model.vs.load(bm_path) {
                     Ok(_) => println!("Successfully loaded best model"),
                     Err(e) => panic!("failed to load best model: {}", e),
                 }
@@ -99,10 +100,10 @@ impl AlphaZero {
             None => println!("No best model found, initialized from scratch")
         }
 
-        let opt = Adam::default().wd(op.wd).build(&vs, op.lr).unwrap();
+        let opt = Adam::default().wd(op.wd).build(&model.vs, op.lr).unwrap();
 
         AlphaZero {
-            model: ResNet::new::<T>(vs),
+            model,
             optimizer: opt,
             config,
             mcts_config,
-- 
2.43.0


From 33ddb3f6cf4c4891182cbcaa212c7926de84d9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:47 +0000
Subject: [PATCH 17/25] fix: store each self-play round's own samples only once

---
 src/alphazero/alpha_parallel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index 64e246c..e81919c 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -50,7 +50,6 @@ impl AlphaZero {
                 pb_self_play.set_message(format!("Self-play iteration #{}", sp_i + 1));
 
                 let mut res = self.self_play_parallel::<T>();
-                memory.append(&mut res);
                 pb_self_play.set_message(format!(
                     "Saving training data... Self-play iteration #{}",
                     sp_i + 1
@@ -59,7 +58,8 @@ impl AlphaZero {
                 // Make self play dir
                 let sp_dir_path = format!("{}/sp-{}", &lrn_path, sp_i);
                 let _ = fs::create_dir(&sp_dir_path);
-                self.save_training_data(&memory, Path::new(&sp_dir_path));
+                self.save_training_data(&res, Path::new(&sp_dir_path));
+                memory.append(&mut res);
                 pb_self_play.set_message(format!(
                     "Self-play iteration #{} complete, saved training data",
                     sp_i + 1
-- 
2.43.0


From a119e2f981f43bb94a36d0fa13638637df3f0cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:47 +0000
Subject: [PATCH 18/25] fix: create the model directory before learning

---
 src/alphazero/alpha_no_parallel.rs | 1 +
 src/alphazero/alpha_parallel.rs    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/alphazero/alpha_no_parallel.rs b/src/alphazero/alpha_no_parallel.rs
index 8fe8b8e..0916b2c 100644
--- a/src/alphazero/alpha_no_parallel.rs
+++ b/src/alphazero/alpha_no_parallel.rs
@@ -6,6 +6,7 @@ use super::alphazero::{AlphaZero, MemoryFragment};
 
 impl AlphaZero {
     pub fn learn<T: LearnableGame>(&mut self) {
+        let _ = std::fs::create_dir_all(format!("./models/{}", T::name()));
         for i in 0..self.config.learn_iterations {
             let mut memory: Vec<MemoryFragment> = vec![];
             for _ in 0..self.config.self_play_iterations {
diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index e81919c..3ca5ccc 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -19,6 +19,7 @@ impl AlphaZero {
         let runpath_base = format!("./data/{}/run-{}", &T::name(), &run_id);
         println!("Staring up run with run_id: {}", &run_id);
         let _ = fs::create_dir_all(&runpath_base);
+        let _ = fs::create_dir_all(format!("./models/{}", &T::name()));
         let sty = ProgressStyle::with_template(
             "[{elapsed_precise}] {bar:40.cyan/blue} {pos:>7}/{len:7} {msg}",
         )
-- 
2.43.0


From 97b7d690e2befea8865ae5c431ed7a735c7ea29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:00 +0000
Subject: [PATCH 19/25] fix: find the requested training data whatever the run
 id

---
 src/main.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 66eda67..8d32a39 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -215,15 +215,14 @@ fn handle_command<T: LearnableGame>(command: Commands, conf: &Config) {
 
 }
 
+// Collects the self-play directories (sp-x) under the given directory, or the directory itself if it is one
 fn get_all_paths_rec(dir: &Path, res: &mut Vec<PathBuf>) -> io::Result<()> {
     if dir.is_dir() {
-        for entry in fs::read_dir(dir)? {
-            let entry = entry?;
-            let path = entry.path();
-            if path.file_name().unwrap().to_str().unwrap().contains("sp") {
-                res.push(path);
-            } else {
-                get_all_paths_rec(&path, res)?;
+        if dir.file_name().is_some_and(|name| name.to_string_lossy().starts_with("sp-")) {
+            res.push(dir.to_path_buf());
+        } else {
+            for entry in fs::read_dir(dir)? {
+                get_all_paths_rec(&entry?.path(), res)?;
             }
         }
     }
-- 
2.43.0


From 83e3f7b173ec13466de0f75eb2d92666adfeb5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:00 +0000
Subject: [PATCH 20/25] fix: create the model directory for a trained model

---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 8d32a39..b222893 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -199,7 +199,11 @@ fn handle_command<T: LearnableGame>(command: Commands, conf: &Config) {
             // Train and save model
             az.train(&mut training_data);
             let model_path_str = format!("./models/{}/trained_model.ot", T::name());
-            let final_out_path = out_path.unwrap_or(Path::new(&model_path_str).to_path_buf());
+            let final_out_path = out_path.unwrap_or_else(|| {
+                // the default directory does not exist before the first model is saved
+                let _ = fs::create_dir_all(format!("./models/{}", T::name()));
+                Path::new(&model_path_str).to_path_buf()
+            });
             match az.model.vs.save(&final_out_path) {
                 Ok(_) => println!("Trained model saved successfully, saved to {}", final_out_path.to_str().unwrap()),
                 Err(e) => panic!("unable to save trained model {}", e),
-- 
2.43.0


From 4040d0494594c5afa5d5ab57dace9e9cb945a234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:13 +0000
Subject: [PATCH 21/25] fix: small temperatures no longer turn all move
 probabilities into zeros

---
 src/alphazero/alpha_no_parallel.rs |  6 +++---
 src/alphazero/alpha_parallel.rs    |  3 +--
 src/alphazero/alphazero.rs         | 13 +++++++++++--
 src/versus.rs                      |  3 +--
 4 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/alphazero/alpha_no_parallel.rs b/src/alphazero/alpha_no_parallel.rs
index 0916b2c..2097539 100644
--- a/src/alphazero/alpha_no_parallel.rs
+++ b/src/alphazero/alpha_no_parallel.rs
@@ -45,7 +45,7 @@ impl AlphaZero {
         loop {
             println!("{}", state.to_pretty_str());
             // Get probabilities from mcts
-            let mut pi = match alpha_mcts(&state, &self.model, &self.mcts_config) {
+            let pi = match alpha_mcts(&state, &self.model, &self.mcts_config) {
                 Some(pi) => pi,
                 None => {
                     state.skip_turn();
@@ -54,14 +54,14 @@ impl AlphaZero {
             };
 
             // Apply temperature to pi
-            let temperatured_pi = pi.pow_(1.0 / self.config.temperature);
+            let temperatured_pi = Self::apply_temperature(&pi, self.config.temperature);
             // Select an action from probabilities
             let selected_action = Self::weighted_select_tensor_idx(&temperatured_pi);
 
             // Save results to memory
             memory.push(MemoryFragment {
                 outcome: state.get_player(),
-                ps: pi,
+                ps: temperatured_pi,
                 state: state.as_tensor(),
             });
 
diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index 3ca5ccc..fb1f5e4 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -162,8 +162,7 @@ impl AlphaZero {
             let roots = (0..states.len())
                 .map(|i| store.get_node_ref(i))
                 .collect_vec();
-            let prob_tensor = get_prob_tensor_parallel(&roots, &store)
-                .pow_(1.0 / self.config.temperature) // Apply temperature
+            let prob_tensor = Self::apply_temperature(&get_prob_tensor_parallel(&roots, &store), self.config.temperature)
                 .to_device(tch::Device::Cpu); // Move to CPU for faster access
 
             for (processed_idx, (init_idx, state)) in states.values_mut().enumerate() {
diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index 11d6d1c..03338a2 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -137,12 +137,21 @@ impl AlphaZero {
         dist.sample(&mut rng)
     }
 
+    /**
+     Raises each row of probabilities to 1 / temperature and normalises it
+     The largest value is scaled to one first, otherwise small temperatures turn all of them into zeros
+     */
+    pub fn apply_temperature(pi: &Tensor, temperature: f64) -> Tensor {
+        let weights = pi.divide(&pi.amax(-1, true)).pow_(1.0 / temperature);
+        weights.divide(&weights.sum_dim_intlist(-1, true, None))
+    }
+
     pub fn get_next_move_for_state<T: LearnableGame>(&self, current_state: &T) -> T::Move {
-        let mut pi = match alpha_mcts(current_state, &self.model, &self.mcts_config) {
+        let pi = match alpha_mcts(current_state, &self.model, &self.mcts_config) {
             Some(pi) => pi,
             None => return T::EMPTY_MOVE
         };
-        let temperatured_pi = pi.pow_(1.0 / self.config.temperature);
+        let temperatured_pi = AlphaZero::apply_temperature(&pi, self.config.temperature);
         let selected_action = AlphaZero::weighted_select_tensor_idx(&temperatured_pi);
         current_state.decode(selected_action as u32)
     }
diff --git a/src/versus.rs b/src/versus.rs
index 7755676..3ce3ee2 100644
--- a/src/versus.rs
+++ b/src/versus.rs
@@ -277,8 +277,7 @@ fn get_actions_for_player<T: LearnableGame>(player: &Player, games: &[T], mcts_c
             let mut store = NodeStore::new();
             alpha_mcts_parallel(&mut store, games, model, mcts_config, Some(ProgressBar::hidden()));
             let roots = store.get_root_nodes();
-            let prob_tensor = get_prob_tensor_parallel(&roots, &store)
-                .pow_(1.0 / temp)
+            let prob_tensor = AlphaZero::apply_temperature(&get_prob_tensor_parallel(&roots, &store), temp)
                 .to_device(tch::Device::Cpu);
 
             roots
-- 
2.43.0


From 02e3652ed91fd23544bfca714841f1d2efed82f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:52 +0000
Subject: [PATCH 22/25] fix: report training data that cannot be listed

An error while listing the data directories was ignored: train went on with
the samples found so far (possibly none), saved a model and ended well.
---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index b222893..97f1b71 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -186,7 +186,10 @@ fn handle_command<T: LearnableGame>(command: Commands, conf: &Config) {
             }
             println!("Loading all data under {}", data_path.to_str().unwrap());
             let mut paths_to_load = vec![];
-            let _ = get_all_paths_rec(data_path, &mut paths_to_load);
+            // a directory that cannot be read must not silently take its samples out of the training
+            if let Err(e) = get_all_paths_rec(data_path, &mut paths_to_load) {
+                panic!("[TRAIN] unable to list the training data under {}, error: {}", data_path.to_str().unwrap(), e);
+            }
             let mut training_data: Vec<MemoryFragment> = paths_to_load.par_iter().flat_map(|p| 
                 AlphaZero::load_training_data(p.as_path())
             ).collect();
-- 
2.43.0


From 1f102de35669e5d479f2f23a09f75a88a5e4fd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:19 +0000
Subject: [PATCH 23/25] fix: games that may not be looked at are no longer
 ignored

In a directory that may be listed but not searched, load_all_games took every
game for another kind of file and returned none of them without an error.
---
 src/versus.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/versus.rs b/src/versus.rs
index 3ce3ee2..b0b4ae5 100644
--- a/src/versus.rs
+++ b/src/versus.rs
@@ -110,7 +110,8 @@ pub fn load_all_games<T: LearnableGame>(path: PathBuf) -> Result<Vec<Game<T>>, B
 
     for entry in fs::read_dir(path)? {
         let entry = entry?;
-        if entry.path().is_file() {
+        // the kind is also known for files that may not be looked at, those are not ignored
+        if entry.file_type()?.is_file() || entry.path().is_file() {
             if entry.file_name().to_string_lossy().ends_with(".json") {
                 let game = load_game(entry.path())?;
                 games.push(game);
-- 
2.43.0


From 70f56a85b8994edfd3da30160b82437dab175176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:22 +0000
Subject: [PATCH 24/25] fix: training data that may not be looked at is no
 longer skipped

A directory that may be listed but not searched made its entries look like
other files: train went on without their samples and ended well.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 97f1b71..818bb29 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -224,7 +224,7 @@ fn handle_command<T: LearnableGame>(command: Commands, conf: &Config) {
 
 // Collects the self-play directories (sp-x) under the given directory, or the directory itself if it is one
 fn get_all_paths_rec(dir: &Path, res: &mut Vec<PathBuf>) -> io::Result<()> {
-    if dir.is_dir() {
+    if fs::metadata(dir)?.is_dir() {
         if dir.file_name().is_some_and(|name| name.to_string_lossy().starts_with("sp-")) {
             res.push(dir.to_path_buf());
         } else {
-- 
2.43.0


From 71b1ea1d26a5a27298ab9ac8fd84c64f470f3df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:29 +0000
Subject: [PATCH 25/25] fix: a best model that may not be looked at is reported

Without access to the model directory the learner silently started from
fresh weights although there was a best model.
---
 src/alphazero/alphazero.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index 03338a2..d9b9286 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -89,7 +89,8 @@ impl AlphaZero {
                 Ok(_) => println!("Successfully loaded model on path: {}", m_path.to_str().unwrap()),
                 Err(e) => panic!("failed to load model: (might be a large error log) \n{}", e),
             },
-            None if Path::new(&format!("./models/{}/best_model.ot", T::name())).exists() => {
+            // a best model that may not be looked at is reported by the attempt to load it
+            None if Path::new(&format!("./models/{}/best_model.ot", T::name())).try_exists().unwrap_or(true) => {
                 let m_path_str = format!("./models/{}/best_model.ot", T::name());
                 let bm_path = Path::new(&m_path_str);
                 match model.vs.load(bm_path) {
-- 
2.43.0

