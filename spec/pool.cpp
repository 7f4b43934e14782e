// Reference transitions of the thread pool: trials, budget, logging.
#include "common.h"
#include "thts.h"
#include "thts_logger.h"
#include <chrono>
namespace vspec {
    typedef vector<pair<shared_ptr<ThtsDNode>,shared_ptr<ThtsCNode>>> Path;
    bool Pool_should_continue(ThtsPool& self, shared_ptr<ThtsDNode> n, bool added) {
        if (n->is_leaf()) return false;
        return !(self.thts_manager->mcts_mode && added);
    }
    // descend from the root: visit, select, visit, sample, and collect (node, child) pairs and rewards until the trial has to stop
    void Pool_selection(ThtsPool& self, Path& path, vector<double>& rewards, ThtsEnvContext& ctx) {
        shared_ptr<ThtsDNode> n = self.root_node;
        bool added = false;
        while (Pool_should_continue(self, n, added)) {
            n->visit_itfc(ctx);
            Act a = n->select_action_itfc(ctx);
            shared_ptr<ThtsCNode> c = n->get_child_node_itfc(a);
            int before = c->get_num_children();
            c->visit_itfc(ctx);
            Obs o = c->sample_observation_itfc(ctx);
            if (c->get_num_children() > before) added = true;
            shared_ptr<ThtsDNode> next = c->get_child_node_itfc(o);
            rewards.push_back(self.thts_manager->thts_env->get_reward_itfc(n->state, a, o));
            path.push_back(make_pair(n, c));
            n = next;
        }
        n->visit_itfc(ctx);
        rewards.push_back(n->heuristic_value);
    }
    // back up leaf to root, chance node before its decision node, with the rewards split at the node
    void Pool_backup(ThtsPool& self, Path& path, vector<double>& rewards, ThtsEnvContext& ctx) {
        double total = 0.0;
        for (double r : rewards) total += r;
        vector<double> before(rewards);
        vector<double> after;
        double ret = before.back();
        after.push_back(ret);
        before.pop_back();
        while (path.size() > 0) {
            double r = before.back();
            before.pop_back();
            after.push_back(r);
            ret += r;
            shared_ptr<ThtsCNode> c = path.back().second;
            shared_ptr<ThtsDNode> d = path.back().first;
            path.pop_back();
            c->backup_itfc(before, after, ret, total, ctx);
            d->backup_itfc(before, after, ret, total, ctx);
        }
    }
    void Pool_try_log(ThtsPool& self) {
        if (self.logger == nullptr) return;
        self.trials_completed = self.trials_completed + 1;
        self.logger->trial_completed();
        if (self.logger->should_log()) self.logger->log(self.root_node);
        if (self.trials_completed == self.num_trials) self.logger->update_prior_runtime();
    }
    void Pool_trial(ThtsPool& self, int remaining) {
        Path path;
        vector<double> rewards;
        shared_ptr<ThtsEnvContext> ctx = self.thts_manager->thts_env->sample_context_itfc(self.root_node->state);
        Pool_selection(self, path, rewards, *ctx);
        Pool_backup(self, path, rewards, *ctx);
        Pool_try_log(self);
    }
    bool Pool_work_left(ThtsPool& self) {
        if (self.trials_remaining <= 0) return false;
        chrono::duration<double> elapsed = chrono::system_clock::now() - self.start_time;
        return elapsed < self.max_run_time;
    }
    // a run resets the accounting, publishes the new budget and, when asked to, waits for its end
    void Pool_run_trials(ThtsPool& self, int max_trials, double max_time, bool blocking) {
        if (self.logger != nullptr) {
            if (self.logger->size() == 0) self.logger->add_origin_entry();
            self.logger->reset_start_time();
        }
        self.num_trials = max_trials;
        self.trials_completed = 0;
        self.start_time = chrono::system_clock::now();
        self.max_run_time = chrono::duration<double>(max_time);
        self.trials_remaining = max_trials;
        if (blocking) self.join();
    }
    // workers: claim one trial of the budget at a time, never beyond it, and count themselves busy exactly while they run one
    void Pool_worker(ThtsPool& self) {
        lock_guard<mutex> lg(self.work_left_lock);
        while (self.thread_pool_alive) {
            self.num_threads_working = self.num_threads_working - 1;
            while (!Pool_work_left(self)) {
                self.work_left_cv.wait(self.work_left_lock);
                if (!self.thread_pool_alive) return;
            }
            self.trials_remaining = self.trials_remaining - 1;
            self.num_threads_working = self.num_threads_working + 1;
            int left = self.trials_remaining;
            self.work_left_lock.unlock();
            self.run_thts_trial(left);
            self.work_left_lock.lock();
        }
    }
    void Pool_join(ThtsPool& self) {
        self.work_left_lock.lock();
        while (Pool_work_left(self) || self.num_threads_working > 0) self.work_left_cv.wait(self.work_left_lock);
        self.work_left_lock.unlock();
    }
    // nothing is replaced before every trial has finished; refused while work is left
    void Pool_set_new_env(ThtsPool& self, shared_ptr<ThtsManager> m, shared_ptr<ThtsDNode> root, shared_ptr<ThtsLogger> logger) {
        self.work_left_lock.lock();
        if (Pool_work_left(self)) {
            self.work_left_lock.unlock();
            throw runtime_error("busy");
        }
        while (self.num_threads_working > 0) self.work_left_cv.wait(self.work_left_lock);
        self.thts_manager = m;
        self.root_node = root;
        self.logger = logger;
        self.work_left_lock.unlock();
    }
    void Pool_init(ThtsPool& self, shared_ptr<ThtsManager> m, shared_ptr<ThtsDNode> root, int n, shared_ptr<ThtsLogger> logger) {
        if (m == nullptr || root == nullptr) throw runtime_error("no manager or root");
        self.thread_pool_alive = true;
        self.num_threads = n;
        self.num_trials = 0;
        self.max_run_time = chrono::duration<double>(0.0);
        self.trials_remaining = 0;
        self.num_threads_working = n;
        self.trials_completed = 0;
        self.logger = logger;
        self.thts_manager = m;
        self.root_node = root;
    }
    // a run without arguments: unlimited trials and time, and blocking; a replacement environment without a logger logs nothing
    void Pool_defaults(ThtsPool& self) { self.run_trials(); }
    void Pool_defaults_ref(ThtsPool& self) { self.run_trials(numeric_limits<int>::max(), numeric_limits<double>::max(), true); }
    void Pool_env_defaults(ThtsPool& self, shared_ptr<ThtsManager> m, shared_ptr<ThtsDNode> root) { self.set_new_env(m, root); }
    void Pool_env_defaults_ref(ThtsPool& self, shared_ptr<ThtsManager> m, shared_ptr<ThtsDNode> root) { self.set_new_env(m, root, nullptr); }
}
