From d10bc5a4e9592c4a0520b2d8bd716f64837da41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:05 +0000
Subject: [PATCH 01/19] fix: MCEvaluator rollouts never counted actions, so
 max_trial_length was ignored

---
 src/mc_eval.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mc_eval.cpp b/src/mc_eval.cpp
index 0433d40..4b63294 100644
--- a/src/mc_eval.cpp
+++ b/src/mc_eval.cpp
@@ -101,6 +101,7 @@ namespace thts {
 
             thread_policy.update_step(action, obsv);
             state = next_state;
+            num_actions_taken++;
         }
 
         // store
-- 
2.43.0


From 9f41223200504515e8e0137f92b7327a066930cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:05 +0000
Subject: [PATCH 02/19] fix: MCEvaluator rollouts used the sampled context
 after it was freed

---
 src/mc_eval.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mc_eval.cpp b/src/mc_eval.cpp
index 4b63294..0624d9d 100644
--- a/src/mc_eval.cpp
+++ b/src/mc_eval.cpp
@@ -87,7 +87,8 @@ namespace thts {
         int num_actions_taken = 0;
         double sample_return = 0.0;
         shared_ptr<const State> state = thts_env->get_initial_state_itfc();
-        ThtsEnvContext& context = *thts_env->sample_context_itfc(state);
+        shared_ptr<ThtsEnvContext> context_ptr = thts_env->sample_context_itfc(state);
+        ThtsEnvContext& context = *context_ptr;
 
         // Run trial
         while (num_actions_taken < max_trial_length && !thts_env->is_sink_state_itfc(state)) {
-- 
2.43.0


From eb1b7c83599a0acb5a9e2c998f63ac0a5cacf130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:05 +0000
Subject: [PATCH 03/19] fix: MCEvaluator::get_stddev_return returned the
 variance

---
 src/mc_eval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mc_eval.cpp b/src/mc_eval.cpp
index 0624d9d..1fa5333 100644
--- a/src/mc_eval.cpp
+++ b/src/mc_eval.cpp
@@ -170,6 +170,6 @@ namespace thts {
         for (double val : sampled_returns) {
             stddev += weight * pow(val - mean, 2.0);
         }
-        return stddev;
+        return sqrt(stddev);
     }
 }
\ No newline at end of file
-- 
2.43.0


From 851567d706e05d5e0f565df60606d29cee38a3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:05 +0000
Subject: [PATCH 04/19] fix: pseudo q value shift used the last prior weight
 instead of the mean over the prior

---
 src/algorithms/ments/ments_decision_node.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/algorithms/ments/ments_decision_node.cpp b/src/algorithms/ments/ments_decision_node.cpp
index dad6d88..ee2d936 100644
--- a/src/algorithms/ments/ments_decision_node.cpp
+++ b/src/algorithms/ments/ments_decision_node.cpp
@@ -55,6 +55,7 @@ namespace thts {
                     }
                     mean_log_weight *= (i-1.0) / i;
                     mean_log_weight += log_weight / i;
+                    i++;
                 }
                 psuedo_q_value_offset = thts_manager->psuedo_q_value_offset - mean_log_weight;
             }
-- 
2.43.0


From 7a361753621e5d9f78f55ca617a9a2dd96d9fa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:05 +0000
Subject: [PATCH 05/19] fix: sampling unnormalised weights summing to less than
 one raised a spurious error

---
 src/helper_templates.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helper_templates.cc b/src/helper_templates.cc
index 7e7a759..74cdb91 100644
--- a/src/helper_templates.cc
+++ b/src/helper_templates.cc
@@ -81,8 +81,8 @@ namespace thts::helper {
 
             // error checking
             i++;
-            bool too_much_mass = running_prob_mass > sum_weights + EPS;
-            bool complete_mass_too_early = running_prob_mass >= sum_weights && i < distr_size;
+            bool too_much_mass = normalised && running_prob_mass > 1.0 + EPS;
+            bool complete_mass_too_early = normalised && running_prob_mass >= 1.0 && i < distr_size;
             if (too_much_mass || complete_mass_too_early) {
                 stringstream error_msg_ss;
                 error_msg_ss 
-- 
2.43.0


From e5e7e7e93542e8c00cb0a3aaf989c855b6a84b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:05 +0000
Subject: [PATCH 06/19] fix: arg max over values that are all minus infinity
 divided by zero

---
 src/helper_templates.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/helper_templates.cc b/src/helper_templates.cc
index 74cdb91..928a15c 100644
--- a/src/helper_templates.cc
+++ b/src/helper_templates.cc
@@ -34,8 +34,9 @@ namespace thts::helper {
         vector<T> best_keys;
         for (pair<const T,NumericT>& pr : map) {
             NumericT val = pr.second;
-            if (val < best_val) continue;
-            if (val > best_val) {
+            bool first_key = best_keys.empty();
+            if (!first_key && val < best_val) continue;
+            if (first_key || val > best_val) {
                 best_keys = vector<T>();
                 best_val = val;
             }
-- 
2.43.0


From 851b7ef0b7f5a3e3110fa79ea088111cebb62909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:05 +0000
Subject: [PATCH 07/19] fix: alias table of CategoricalDistribution was not
 resized when the number of outcomes changed

---
 src/distributions/categorical_distribution.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/distributions/categorical_distribution.cc b/src/distributions/categorical_distribution.cc
index bbe572b..7d5fbfc 100644
--- a/src/distributions/categorical_distribution.cc
+++ b/src/distributions/categorical_distribution.cc
@@ -47,9 +47,13 @@ namespace thts {
 
     template <typename T>
     void CategoricalDistribution<T>::update(T key, double weight) {
-        distr->insert_or_assign(key, weight);
+        bool new_key = distr->insert_or_assign(key, weight).second;
         num_updates++;
-        if (use_alias_method && num_updates == reconstruct_alias_table_freq) {
+        if (use_alias_method && new_key) {
+            alias_table.clear();
+            construct_alias_table();
+            num_updates = 0;
+        } else if (use_alias_method && num_updates == reconstruct_alias_table_freq) {
             reconstruct_alias_table();
             num_updates = 0;
         }
@@ -65,7 +69,7 @@ namespace thts {
         distr = new_distr;
         num_updates = 0;
         if (use_alias_method) {
-            if (new_distr->size() == distr->size()) {
+            if (alias_table.size() == distr->size()) {
                 reconstruct_alias_table(false);
             } else {
                 alias_table.clear();
-- 
2.43.0


From 96595a854bf60b91784c74edf2b89cf77a3fe699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:25 +0000
Subject: [PATCH 08/19] fix: ThtsLogger counted trials from an uninitialised
 value

---
 src/thts_logger.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index 5ec046f..5604092 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -27,8 +27,12 @@ namespace thts {
 
     ThtsLogger::ThtsLogger() : 
         prior_runtime(chrono::duration<double>::zero()), 
+        start_time(chrono::system_clock::now()),
+        trials_completed(0),
         trials_delta(numeric_limits<int>::max()), 
-        runtime_delta(numeric_limits<double>::max()) {}
+        last_log_num_trials(0),
+        runtime_delta(numeric_limits<double>::max()),
+        next_log_runtime_threshold(runtime_delta) {}
 
     void ThtsLogger::set_trials_delta(int delta) {
         trials_delta = delta;
-- 
2.43.0


From 244ca5e6f30f5f5ee56d2f1d78ce00fa961f5b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:25 +0000
Subject: [PATCH 09/19] fix: second run_trials call logged as if no trials or
 time had passed before it

---
 src/thts_logger.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index 5604092..939a5de 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -54,8 +54,8 @@ namespace thts {
     
     void ThtsLogger::reset_start_time() {
         start_time = chrono::system_clock::now();
-        last_log_num_trials = 0;
-        next_log_runtime_threshold = runtime_delta;
+        last_log_num_trials = trials_completed;
+        next_log_runtime_threshold = prior_runtime + runtime_delta;
     }
     
     chrono::duration<double> ThtsLogger::get_current_total_runtime() {
@@ -69,7 +69,7 @@ namespace thts {
     
     bool ThtsLogger::should_log() {
         bool result = false;
-        if (trials_completed >= last_log_num_trials + trials_delta) {
+        if (trials_completed - last_log_num_trials >= trials_delta) {
             last_log_num_trials = trials_completed;
             result = true;
         }
-- 
2.43.0


From 188bbfb8d00360ca2f80ad795d7021246ad28d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:25 +0000
Subject: [PATCH 10/19] fix: loggers stored sliced entries, so algorithm
 specific columns were never written

---
 include/thts_logger.h                   |  2 +-
 src/algorithms/ments/dbments_logger.cpp |  4 ++--
 src/algorithms/ments/ments_logger.cpp   |  4 ++--
 src/algorithms/uct/uct_logger.cpp       |  4 ++--
 src/thts_logger.cpp                     | 10 +++++-----
 5 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/thts_logger.h b/include/thts_logger.h
index c9e714b..a4ab31e 100644
--- a/include/thts_logger.h
+++ b/include/thts_logger.h
@@ -70,7 +70,7 @@ namespace thts {
      */
     class ThtsLogger {
         protected:
-            std::vector<LoggerEntry> entries;
+            std::vector<std::shared_ptr<LoggerEntry>> entries;
             std::chrono::duration<double> prior_runtime;
             std::chrono::time_point<std::chrono::system_clock> start_time;
 
diff --git a/src/algorithms/ments/dbments_logger.cpp b/src/algorithms/ments/dbments_logger.cpp
index 0370a0a..c2d6b43 100644
--- a/src/algorithms/ments/dbments_logger.cpp
+++ b/src/algorithms/ments/dbments_logger.cpp
@@ -36,7 +36,7 @@ namespace thts {
         MentsLogger() {}
     
     void DBMentsLogger::add_origin_entry() {
-        entries.push_back(DBMentsLoggerEntry(
+        entries.push_back(make_shared<DBMentsLoggerEntry>(
             chrono::duration<double>::zero(), 
             0,
             0,
@@ -46,7 +46,7 @@ namespace thts {
     
     void DBMentsLogger::log(shared_ptr<ThtsDNode> node) {
         DBMentsDNode& dbments_node = (DBMentsDNode&) *node;
-        entries.push_back(DBMentsLoggerEntry(
+        entries.push_back(make_shared<DBMentsLoggerEntry>(
             get_current_total_runtime(), 
             dbments_node.num_visits,
             dbments_node.MentsDNode::num_backups,
diff --git a/src/algorithms/ments/ments_logger.cpp b/src/algorithms/ments/ments_logger.cpp
index 675489e..208c3f1 100644
--- a/src/algorithms/ments/ments_logger.cpp
+++ b/src/algorithms/ments/ments_logger.cpp
@@ -34,7 +34,7 @@ namespace thts {
         ThtsLogger() {}
     
     void MentsLogger::add_origin_entry() {
-        entries.push_back(MentsLoggerEntry(
+        entries.push_back(make_shared<MentsLoggerEntry>(
             chrono::duration<double>::zero(), 
             0,
             0,
@@ -43,7 +43,7 @@ namespace thts {
     
     void MentsLogger::log(shared_ptr<ThtsDNode> node) {
         MentsDNode& ments_node = (MentsDNode&) *node;
-        entries.push_back(MentsLoggerEntry(
+        entries.push_back(make_shared<MentsLoggerEntry>(
             get_current_total_runtime(), 
             ments_node.num_visits,
             ments_node.num_backups,
diff --git a/src/algorithms/uct/uct_logger.cpp b/src/algorithms/uct/uct_logger.cpp
index 5e9d747..b57ea7b 100644
--- a/src/algorithms/uct/uct_logger.cpp
+++ b/src/algorithms/uct/uct_logger.cpp
@@ -34,7 +34,7 @@ namespace thts {
         ThtsLogger() {}
     
     void UctLogger::add_origin_entry() {
-        entries.push_back(UctLoggerEntry(
+        entries.push_back(make_shared<UctLoggerEntry>(
             chrono::duration<double>::zero(), 
             0,
             0,
@@ -43,7 +43,7 @@ namespace thts {
     
     void UctLogger::log(shared_ptr<ThtsDNode> node) {
         UctDNode& uct_node = (UctDNode&) *node;
-        entries.push_back(UctLoggerEntry(
+        entries.push_back(make_shared<UctLoggerEntry>(
             get_current_total_runtime(), 
             uct_node.num_visits,
             uct_node.num_backups,
diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index 939a5de..a6a07fc 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -47,7 +47,7 @@ namespace thts {
     }
     
     void ThtsLogger::add_origin_entry() {
-        entries.push_back(LoggerEntry(
+        entries.push_back(make_shared<LoggerEntry>(
             chrono::duration<double>::zero(), 
             0));
     }
@@ -81,7 +81,7 @@ namespace thts {
     }
     
     void ThtsLogger::log(shared_ptr<ThtsDNode> node) {
-        entries.push_back(LoggerEntry(
+        entries.push_back(make_shared<LoggerEntry>(
             get_current_total_runtime(), 
             node->num_visits));
     }
@@ -94,12 +94,12 @@ namespace thts {
     void ThtsLogger::write_to_ostream(ostream& os) {
         if (entries.size() == 0) return;
         
-        LoggerEntry& first_entry = entries[0];
+        LoggerEntry& first_entry = *entries[0];
         first_entry.write_header_to_ostream(os);
         os << "\n";
 
-        for (LoggerEntry& logger_entry : entries) {
-            logger_entry.write_to_ostream(os);
+        for (shared_ptr<LoggerEntry>& logger_entry : entries) {
+            logger_entry->write_to_ostream(os);
             os << "\n";
         }
 
-- 
2.43.0


From c0d9a05adfd5ad6979528ef36154fa14f674587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:25 +0000
Subject: [PATCH 11/19] fix: ThtsPool::join could wait forever when a run ended
 by running out of time

---
 src/thts.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/thts.cpp b/src/thts.cpp
index e6cb9c9..3770927 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -327,8 +327,9 @@ namespace thts {
      */
     void ThtsPool::join() {
         lock_guard<mutex> lg(work_left_lock);
+        // N.B. work can run out because of max_run_time, which nobody notifies, so the wait needs to be bounded
         while (work_left() || num_threads_working > 0) {
-            work_left_cv.wait(work_left_lock);
+            work_left_cv.wait_for(work_left_lock, chrono::milliseconds(10));
         }
     }
 
-- 
2.43.0


From e54cf7d7a96965cd46231f041d8fa4cbd26e4b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:25 +0000
Subject: [PATCH 12/19] fix: ThtsPool::set_new_env replaced the tree under
 trials still in flight

---
 src/thts.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/thts.cpp b/src/thts.cpp
index 3770927..ac2aa92 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -78,9 +78,14 @@ namespace thts {
         shared_ptr<ThtsDNode> new_root_node,
         shared_ptr<ThtsLogger> new_logger) 
     {
+        lock_guard<mutex> lg(work_left_lock);
         if (work_left()) {
             throw runtime_error("Tried to change root node in thts pool while it was working.");
         }
+        // trials still in flight use the current manager, root node and logger
+        while (num_threads_working > 0) {
+            work_left_cv.wait_for(work_left_lock, chrono::milliseconds(10));
+        }
         thts_manager = new_thts_manager;
         root_node = new_root_node;
         logger = new_logger;
-- 
2.43.0


From ad64ee7dedd29ae2e01c037296707dfa1798f472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:25 +0000
Subject: [PATCH 13/19] fix: logger runtime was only accumulated for the first
 run_trials call of a pool

---
 src/thts.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/thts.cpp b/src/thts.cpp
index ac2aa92..ec7242e 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -365,8 +365,12 @@ namespace thts {
             logger->reset_start_time();
         }
 
-        work_left_lock.lock();
+        logging_lock.lock();
         num_trials = max_trials;
+        trials_completed = 0;
+        logging_lock.unlock();
+
+        work_left_lock.lock();
         trials_remaining = max_trials;
         start_time = std::chrono::system_clock::now();
         max_run_time =  std::chrono::duration<double>(max_time);
-- 
2.43.0


From 62316c8bf9334eb0c34293fdb99c6f4d6bbf29de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:25 +0000
Subject: [PATCH 14/19] fix: threads holding different transposition table
 mutexes modified one shared hash table

---
 include/thts_manager.h   | 12 ++++++------
 src/thts_chance_node.cpp |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/thts_manager.h b/include/thts_manager.h
index f791a73..49d9556 100644
--- a/include/thts_manager.h
+++ b/include/thts_manager.h
@@ -164,13 +164,13 @@ namespace thts {
      *      is_two_player_game:
      *          If we are planning for a two player game, rather than a reward maximisation environment
      * Member variables (transposition table):
-     *      dmap:
-     *          A transposition table for decision nodes. Note that a transposition table for chance nodes is 
+     *      dmaps:
+     *          A transposition table for decision nodes, split into one table per mutex in 'dmap_mutexes'. Note that a transposition table for chance nodes is 
      *          unnecessary, as an chance nodes that are transpositions, will be children of decision nodes that are 
      *          transpositions.
      *      dmap_mutexes:
-     *          A vector of mutexes to use for protection around the dmap. Accessing 'dmap[dnode_id]', should be 
-     *          protected by the 'dmap_mutexes[hash(dnode_id) % dmap_mutexes.size()]'.
+     *          A vector of mutexes to use for protection around the dmaps. The entry for 'dnode_id' is in 'dmaps[i]', 
+     *          protected by 'dmap_mutexes[i]', where i = hash(dnode_id) % dmap_mutexes.size().
      */
     class ThtsManager : public RandManager {
         public:
@@ -183,7 +183,7 @@ namespace thts {
             bool use_transposition_table;
             bool is_two_player_game;
 
-            DNodeTable dmap;
+            std::vector<DNodeTable> dmaps;
             std::vector<std::mutex> dmap_mutexes;
 
             /**
@@ -201,7 +201,7 @@ namespace thts {
                 mcts_mode(args.mcts_mode), 
                 use_transposition_table(args.use_transposition_table), 
                 is_two_player_game(args.is_two_player_game),
-                dmap(),
+                dmaps(args.num_transposition_table_mutexes),
                 dmap_mutexes(args.num_transposition_table_mutexes)
             {
             }
diff --git a/src/thts_chance_node.cpp b/src/thts_chance_node.cpp
index 2fc2c1b..0a0098d 100644
--- a/src/thts_chance_node.cpp
+++ b/src/thts_chance_node.cpp
@@ -91,8 +91,8 @@ namespace thts {
      * If using a transposition table, we first check the transposition table to try get it from there. If it's not in 
      * the table, we make the child and insert it in children and the transposition table.
      * 
-     * Additionally, we protect accessing 'dmap[dnode_id]' with the mutex 'thts_manager->dmap_mutexes[mutex_indx]' 
-     * where 'mutex_indx = hash(dnode_id) % thts_manager->dmap_mutexes.size()', by locking it using a lock_guard.
+     * Additionally, we protect accessing 'thts_manager->dmaps[mutex_indx]' with the mutex 
+     * 'thts_manager->dmap_mutexes[mutex_indx]' where 'mutex_indx = hash(dnode_id) % thts_manager->dmap_mutexes.size()', by locking it using a lock_guard.
      */
     shared_ptr<ThtsDNode> ThtsCNode::create_child_node_itfc(
         shared_ptr<const Observation> observation, shared_ptr<const State> next_state) 
@@ -105,7 +105,6 @@ namespace thts {
             return child_node;
         }
 
-        DNodeTable& dmap = thts_manager->dmap;
         DNodeIdTuple dnode_id = make_tuple(decision_timestep, observation);
 
         int mutex_indx = 0;
@@ -115,6 +114,7 @@ namespace thts {
         }
 
         lock_guard<mutex> lg(thts_manager->dmap_mutexes[mutex_indx]);
+        DNodeTable& dmap = thts_manager->dmaps[mutex_indx];
 
         auto iter = dmap.find(dnode_id);
         if (iter != dmap.end()) {
-- 
2.43.0


From 25fdecd53716fd2f2e26d082c5de96c086a99b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:25 +0000
Subject: [PATCH 15/19] fix: transposition table lookup threw bad_weak_ptr for
 entries of a destroyed tree

---
 src/thts_chance_node.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/thts_chance_node.cpp b/src/thts_chance_node.cpp
index 0a0098d..696e26b 100644
--- a/src/thts_chance_node.cpp
+++ b/src/thts_chance_node.cpp
@@ -117,8 +117,9 @@ namespace thts {
         DNodeTable& dmap = thts_manager->dmaps[mutex_indx];
 
         auto iter = dmap.find(dnode_id);
-        if (iter != dmap.end()) {
-            shared_ptr<ThtsDNode> child_node = shared_ptr<ThtsDNode>(dmap[dnode_id]);
+        shared_ptr<ThtsDNode> transposition = (iter != dmap.end()) ? iter->second.lock() : nullptr;
+        if (transposition != nullptr) {
+            shared_ptr<ThtsDNode> child_node = transposition;
             children[observation] = child_node;
             return child_node;
         }
-- 
2.43.0


From d33d56921cdd85124dd52634924432cfed42d0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:41 +0000
Subject: [PATCH 16/19] fix: chance nodes sharing children through the
 transposition table could deadlock locking them

---
 include/algorithms/common/dp_chance_node.h  |  2 +-
 include/algorithms/common/ent_chance_node.h |  2 +-
 include/thts_chance_node.h                  |  6 ++++++
 src/thts_chance_node.cpp                    | 20 +++++++++++++++++---
 4 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/algorithms/common/dp_chance_node.h b/include/algorithms/common/dp_chance_node.h
index 4d59ccb..f2eb2e7 100644
--- a/include/algorithms/common/dp_chance_node.h
+++ b/include/algorithms/common/dp_chance_node.h
@@ -97,7 +97,7 @@ namespace thts {
             template <typename T>
             void backup_dp(DNodeChildMap& children, double local_reward, bool is_opponent=false) {
                 std::shared_ptr<DPDNodeChildMap> dp_children = convert_child_map<T>(children);
-                for (auto pr : children) pr.second->lock();
+                ThtsCNode::lock_children_in_order(children);
                 backup_dp_impl(*dp_children, local_reward, is_opponent);
                 for (auto pr : children) pr.second->unlock();
             }
diff --git a/include/algorithms/common/ent_chance_node.h b/include/algorithms/common/ent_chance_node.h
index a92a5d5..b37311e 100644
--- a/include/algorithms/common/ent_chance_node.h
+++ b/include/algorithms/common/ent_chance_node.h
@@ -94,7 +94,7 @@ namespace thts {
             template <typename T>
             void backup_ent(DNodeChildMap& children) {
                 std::shared_ptr<EntDNodeChildMap> ent_children = convert_child_map<T>(children);
-                for (auto pr : children) pr.second->lock();
+                ThtsCNode::lock_children_in_order(children);
                 backup_ent_impl(*ent_children);
                 for (auto pr : children) pr.second->unlock();
             }
diff --git a/include/thts_chance_node.h b/include/thts_chance_node.h
index 0cc1540..dbea05f 100644
--- a/include/thts_chance_node.h
+++ b/include/thts_chance_node.h
@@ -97,6 +97,12 @@ namespace thts {
              */
             std::mutex& get_lock();
 
+            /**
+             * Locks all nodes of a children map, in address order. With a transposition table children can be shared 
+             * between chance nodes, so they always need to be locked in the same order to avoid deadlock.
+             */
+            static void lock_children_in_order(const DNodeChildMap& children);
+
             /**
              * Helper function to lock all children nodes.
              */
diff --git a/src/thts_chance_node.cpp b/src/thts_chance_node.cpp
index 696e26b..34c4e99 100644
--- a/src/thts_chance_node.cpp
+++ b/src/thts_chance_node.cpp
@@ -4,11 +4,13 @@
 #include "thts_manager.h"
 #include "thts_types.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <functional>
 #include <mutex>
 #include <tuple>
 #include <utility>
+#include <vector>
 
 using namespace std;
 using namespace thts;
@@ -57,13 +59,25 @@ namespace thts {
         return node_lock; 
     }
 
+    /**
+     * Helper function to lock the nodes of a children map, in address order.
+     */
+    void ThtsCNode::lock_children_in_order(const DNodeChildMap& children) {
+        vector<shared_ptr<ThtsDNode>> child_nodes;
+        for (auto observation_child_pair : children) {
+            child_nodes.push_back(observation_child_pair.second);
+        }
+        sort(child_nodes.begin(), child_nodes.end());
+        for (shared_ptr<ThtsDNode>& child_node : child_nodes) {
+            child_node->lock();
+        }
+    }
+
     /**
      * Helper function to lock all children nodes.
      */
     void ThtsCNode::lock_all_children() const {
-        for (auto action_child_pair : children) {
-            action_child_pair.second->lock();
-        }
+        lock_children_in_order(children);
     }
 
     /**
-- 
2.43.0


From 9f715eeec8db92226bcd2e2dbbf4bdb301e80cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:14 +0000
Subject: [PATCH 17/19] fix: DENTS with epsilon 0 computed NaN entropies for
 new nodes

---
 src/algorithms/ments/ments_decision_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/ments/ments_decision_node.cpp b/src/algorithms/ments/ments_decision_node.cpp
index ee2d936..5cb057e 100644
--- a/src/algorithms/ments/ments_decision_node.cpp
+++ b/src/algorithms/ments/ments_decision_node.cpp
@@ -203,7 +203,7 @@ namespace thts {
         MentsManager& manager = (MentsManager&) *thts_manager;
         double epsilon = manager.epsilon;
         if (is_root_node() && manager.root_node_epsilon > 0.0) epsilon = manager.root_node_epsilon;
-        double lambda = epsilon / log(num_visits+1);
+        double lambda = (epsilon > 0.0) ? epsilon / log(num_visits+1) : 0.0; // N.B. log(num_visits+1) can be zero
         if (lambda > manager.max_explore_prob) {
             lambda = manager.max_explore_prob;
         }
-- 
2.43.0


From 3c2b76c7b7fa3553ef755168217c951c2e9269d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:39 +0000
Subject: [PATCH 18/19] fix: printing a StringAction did not link, its
 operator<< was defined with another signature than declared

---
 src/thts_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thts_types.cpp b/src/thts_types.cpp
index 7af0801..f93000a 100644
--- a/src/thts_types.cpp
+++ b/src/thts_types.cpp
@@ -429,7 +429,7 @@ namespace std {
         return os;
     }
 
-    ostream& operator<<(ostream& os, const StringAction action) {
+    ostream& operator<<(ostream& os, const StringAction& action) {
         os << action.get_pretty_print_string();
         return os;
     }
-- 
2.43.0


From 3e0d27d58ed6d05fff7ee76f589c2b269e022b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:39 +0000
Subject: [PATCH 19/19] fix: printing a transposition table threw bad_weak_ptr
 for entries of a destroyed tree

---
 src/thts_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thts_types.cpp b/src/thts_types.cpp
index f93000a..085925e 100644
--- a/src/thts_types.cpp
+++ b/src/thts_types.cpp
@@ -511,7 +511,7 @@ namespace std {
     ostream& operator<<(ostream& os, const DNodeTable& tbl) {
         unordered_map<DNodeIdTuple,shared_ptr<ThtsDNode>> shared_tbl_for_print;
         for (auto pr : tbl) {
-            shared_tbl_for_print.insert_or_assign(pr.first, shared_ptr<ThtsDNode>(pr.second));
+            shared_tbl_for_print.insert_or_assign(pr.first, pr.second.lock());
         }
         os << helper::unordered_map_pretty_print_string(shared_tbl_for_print);
         return os;
-- 
2.43.0

