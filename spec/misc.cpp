// Reference transitions of the parts around the nodes: managers, types, contexts, evaluator, loggers, environment defaults, distributions, helpers.
#include "common.h"
#include "mc_eval.h"
#include "thts_logger.h"
#include "algorithms/common/decaying_temp.h"
#include "algorithms/uct/uct_manager.h"
#include "algorithms/uct/puct_manager.h"
#include "algorithms/uct/uct_logger.h"
#include "algorithms/ments/ments_manager.h"
#include "algorithms/ments/dents/dents_manager.h"
#include "algorithms/ments/ments_logger.h"
#include "algorithms/ments/dbments_logger.h"
#include "distributions/categorical_distribution.h"
#include "distributions/discrete_uniform_distribution.h"
#include "distributions/mixed_distribution.h"
#include <cmath>
#include <limits>
#include <thread>

namespace vspec {
    typedef shared_ptr<const State> St;
    // ---- temperature schedules
    double decay_compute(TempDecayFnPtr f, double init, double lo, int visits, double scale) {
        double t = init * f(scale * visits);
        return t < lo ? lo : t;
    }
    double decay_inv_sqrt(double x) { return 1.0 / sqrt(1.0 + x); }
    double decay_inv_log(double x) { return 1.0 / log(exp(1.0) + x); }
    double decay_sigmoid(double x) { return (1.0 + exp(-5.0)) / (1.0 + exp(x - 5.0)); }
    double zero_heuristic(St s, shared_ptr<ThtsEnv> env) { return 0.0; }

    // ---- options
    void ThtsManagerArgs_init(ThtsManagerArgs& self, shared_ptr<ThtsEnv> env) {
        self.thts_env = env;
        self.max_depth = numeric_limits<int>::max();
        self.heuristic_fn = helper::zero_heuristic_fn;
        self.prior_fn = nullptr;
        self.mcts_mode = true;
        self.is_two_player_game = false;
        self.use_transposition_table = false;
        self.num_transposition_table_mutexes = 1;
        self.seed = 0;
    }
    void UctManagerArgs_init(UctManagerArgs& self, shared_ptr<ThtsEnv> env) {
        ThtsManagerArgs_init(self, env);
        self.bias = -1.0;
        self.heuristic_psuedo_trials = 0;
        self.recommend_most_visited = true;
        self.epsilon_exploration = 0.0;
    }
    void PuctManagerArgs_init(PuctManagerArgs& self, shared_ptr<ThtsEnv> env) {
        UctManagerArgs_init(self, env);
        self.puct_power = 0.5;
    }
    void MentsManagerArgs_init(MentsManagerArgs& self, shared_ptr<ThtsEnv> env) {
        ThtsManagerArgs_init(self, env);
        self.temp = 1.0;
        self.prior_policy_search_weight = 0.0;
        self.epsilon = 0.5;
        self.root_node_epsilon = -1.0;
        self.max_explore_prob = 1.0;
        self.temp_decay_fn = nullptr;
        self.temp_decay_min_temp = 1.0e-6;
        self.temp_decay_visits_scale = 1.0;
        self.temp_decay_root_node_visits_scale = -1.0;
        self.default_q_value = 0.0;
        self.shift_pseudo_q_values = false;
        self.psuedo_q_value_offset = 0.0;
        self.recommend_visit_threshold = 0;
        self.recommend_most_visited = false;
    }
    void DentsManagerArgs_init(DentsManagerArgs& self, shared_ptr<ThtsEnv> env) {
        MentsManagerArgs_init(self, env);
        self.value_temp_decay_fn = decayed_temp_inv_sqrt;
        self.value_temp_init = 1.0;
        self.value_temp_decay_min_temp = 1.0e-6;
        self.value_temp_decay_visits_scale = 1.0;
        self.value_temp_decay_root_node_visits_scale = -1.0;
        self.use_dp_value = true;
    }
    void manager(ThtsManager& self, const ThtsManagerArgs& args) {
        self.thts_env = args.thts_env;
        self.max_depth = args.max_depth;
        self.heuristic_fn = args.heuristic_fn;
        self.prior_fn = args.prior_fn;
        self.mcts_mode = args.mcts_mode;
        self.use_transposition_table = args.use_transposition_table;
        self.is_two_player_game = args.is_two_player_game;
        // one transposition table stripe per mutex
        self.dmaps = vector<DNodeTable>(args.num_transposition_table_mutexes);
        self.dmap_mutexes = vector<mutex>(args.num_transposition_table_mutexes);
    }
    void ThtsManager_init(ThtsManager& self, const ThtsManagerArgs& args) { manager(self, args); }
    void uct_manager(UctManager& self, const UctManagerArgs& args) {
        manager(self, args);
        self.bias = args.bias;
        self.heuristic_psuedo_trials = args.heuristic_psuedo_trials;
        self.recommend_most_visited = args.recommend_most_visited;
        self.epsilon_exploration = args.epsilon_exploration;
    }
    void UctManager_init(UctManager& self, const UctManagerArgs& args) { uct_manager(self, args); }
    void PuctManager_init(PuctManager& self, const PuctManagerArgs& args) {
        uct_manager(self, args);
        self.puct_power = args.puct_power;
    }
    void ments_manager(MentsManager& self, const MentsManagerArgs& args) {
        manager(self, args);
        self.temp = args.temp;
        self.prior_policy_search_weight = args.prior_policy_search_weight;
        self.epsilon = args.epsilon;
        self.root_node_epsilon = args.root_node_epsilon;
        self.max_explore_prob = args.max_explore_prob;
        self.temp_decay_fn = args.temp_decay_fn;
        self.temp_decay_min_temp = args.temp_decay_min_temp;
        self.temp_decay_visits_scale = args.temp_decay_visits_scale;
        self.temp_decay_root_node_visits_scale = args.temp_decay_root_node_visits_scale;
        self.default_q_value = args.default_q_value;
        self.shift_pseudo_q_values = args.shift_pseudo_q_values;
        self.psuedo_q_value_offset = args.psuedo_q_value_offset;
        self.recommend_visit_threshold = args.recommend_visit_threshold;
        self.recommend_most_visited = args.recommend_most_visited;
    }
    void MentsManager_init(MentsManager& self, const MentsManagerArgs& args) { ments_manager(self, args); }
    void DentsManager_init(DentsManager& self, const DentsManagerArgs& args) {
        ments_manager(self, args);
        self.value_temp_decay_fn = args.value_temp_decay_fn;
        self.value_temp_init = args.value_temp_init;
        self.value_temp_decay_min_temp = args.value_temp_decay_min_temp;
        self.value_temp_decay_visits_scale = args.value_temp_decay_visits_scale;
        self.value_temp_decay_root_node_visits_scale = args.value_temp_decay_root_node_visits_scale;
        self.use_dp_value = args.use_dp_value;
    }

    // ---- values: equality
    bool IntState_equals(const IntState& self, const IntState& other) { return self.state == other.state; }
    bool IntPairState_equals(const IntPairState& self, const IntPairState& other) { return self.state.first == other.state.first && self.state.second == other.state.second; }
    bool Int3TupleState_equals(const Int3TupleState& self, const Int3TupleState& other) {
        return get<0>(self.state) == get<0>(other.state) && get<1>(self.state) == get<1>(other.state) && get<2>(self.state) == get<2>(other.state);
    }
    bool IntAction_equals(const IntAction& self, const IntAction& other) { return self.action == other.action; }
    bool StringAction_equals(const StringAction& self, const StringAction& other) { return self.action == other.action; }
    bool IntState_equals_itfc(const IntState& self, const Observation& other) {
        const IntState* o = dynamic_cast<const IntState*>(&other);
        return o != nullptr && IntState_equals(self, *o);
    }
    bool IntPairState_equals_itfc(const IntPairState& self, const Observation& other) {
        const IntPairState* o = dynamic_cast<const IntPairState*>(&other);
        return o != nullptr && IntPairState_equals(self, *o);
    }
    bool Int3TupleState_equals_itfc(const Int3TupleState& self, const Observation& other) {
        const Int3TupleState* o = dynamic_cast<const Int3TupleState*>(&other);
        return o != nullptr && Int3TupleState_equals(self, *o);
    }
    bool IntAction_equals_itfc(const IntAction& self, const Action& other) {
        const IntAction* o = dynamic_cast<const IntAction*>(&other);
        return o != nullptr && IntAction_equals(self, *o);
    }
    bool StringAction_equals_itfc(const StringAction& self, const Action& other) {
        const StringAction* o = dynamic_cast<const StringAction*>(&other);
        return o != nullptr && StringAction_equals(self, *o);
    }
    // keys of hash tables are compared and hashed by the value they stand for, also behind pointers
    size_t obs_hash(const Observation& o) { return o.hash(); }
    size_t obs_hash_p(const shared_ptr<const Observation>& o) { return o->hash(); }
    size_t state_hash(const State& o) { return o.hash(); }
    size_t state_hash_p(const shared_ptr<const State>& o) { return o->hash(); }
    size_t act_hash(const Action& o) { return o.hash(); }
    size_t act_hash_p(const shared_ptr<const Action>& o) { return o->hash(); }
    bool obs_eq(const Observation& a, const Observation& b) { return a.equals_itfc(b); }
    bool obs_eq_p(const shared_ptr<const Observation>& a, const shared_ptr<const Observation>& b) { return a->equals_itfc(*b); }
    bool state_eq(const State& a, const State& b) { return a.equals_itfc(b); }
    bool state_eq_p(const shared_ptr<const State>& a, const shared_ptr<const State>& b) { return a->equals_itfc(*b); }
    bool act_eq(const Action& a, const Action& b) { return a.equals_itfc(b); }
    bool act_eq_p(const shared_ptr<const Action>& a, const shared_ptr<const Action>& b) { return a->equals_itfc(*b); }
    bool id_eq(const DNodeIdTuple& a, const DNodeIdTuple& b) { return get<0>(a) == get<0>(b) && get<1>(a)->equals_itfc(*get<1>(b)); }

    // ---- trial contexts
    shared_ptr<void> ctx_get(const ThtsEnvContext& self, const string& key) { return self.context.at(key); }
    shared_ptr<const void> ctx_get_const(const ThtsEnvContext& self, const string& key) { return self.context_const.at(key); }
    shared_ptr<int> ctx_get_ptr(const ThtsEnvContext& self, const string& key) { return static_pointer_cast<int>(self.context.at(key)); }
    shared_ptr<const int> ctx_get_ptr_const(const ThtsEnvContext& self, const string& key) { return static_pointer_cast<const int>(self.context_const.at(key)); }
    void ctx_put(ThtsEnvContext& self, const string& key, shared_ptr<void> v) { self.context[key] = v; }
    void ctx_put_const(ThtsEnvContext& self, const string& key, shared_ptr<const void> v) { self.context_const[key] = v; }
    void ctx_erase(ThtsEnvContext& self, const string& key) { self.context.erase(key); }
    void ctx_erase_const(ThtsEnvContext& self, const string& key) { self.context_const.erase(key); }

    // ---- environment defaults
    bool env_fully_observable(ThtsEnv& self) { return self._is_fully_observable; }
    shared_ptr<ObservationDistr> env_obs_distr(const ThtsEnv& self, Act a, St s) {
        if (!self._is_fully_observable) throw runtime_error("no default");
        shared_ptr<ObservationDistr> d = make_shared<ObservationDistr>();
        (*d)[s] = 1.0;
        return d;
    }
    Obs env_sample_obs(const ThtsEnv& self, Act a, St s, RandManager& rm) {
        if (self._is_fully_observable) return s;
        return helper::sample_from_distribution(*self.get_observation_distribution_itfc(a, s), rm);
    }
    shared_ptr<ThtsEnvContext> env_context(const ThtsEnv& self, St s) { return make_shared<ThtsEnvContext>(); }

    // ---- evaluation policy
    void EvalPolicy_reset(EvalPolicy& self) { self.cur_node = self.root_node; }
    Act EvalPolicy_random(EvalPolicy& self, St s) {
        shared_ptr<ActionVector> acts = self.thts_env->get_valid_actions_itfc(s);
        return acts->at(self.rand_manager.get_rand_int(0, acts->size()));
    }
    Act EvalPolicy_action(EvalPolicy& self, St s, ThtsEnvContext& ctx) {
        if (self.cur_node != nullptr) return self.cur_node->recommend_action_itfc(ctx);
        return EvalPolicy_random(self, s);
    }
    void EvalPolicy_step(EvalPolicy& self, Act a, Obs o) {
        if (self.cur_node == nullptr) return;
        shared_ptr<const ThtsDNode> next = nullptr;
        if (self.cur_node->has_child_node_itfc(a)) {
            shared_ptr<ThtsCNode> c = self.cur_node->get_child_node_itfc(a);
            if (c->has_child_node_itfc(o)) next = c->get_child_node_itfc(o);
        }
        self.cur_node = next;
    }

    // ---- Monte Carlo evaluation
    void MC_rollout(MCEvaluator& self, EvalPolicy& pol) {
        pol.cur_node = pol.root_node;
        double total = 0.0;
        int steps = 0;
        St s = self.thts_env->get_initial_state_itfc();
        shared_ptr<ThtsEnvContext> ctx = self.thts_env->sample_context_itfc(s);
        while (!self.thts_env->is_sink_state_itfc(s) && steps < self.max_trial_length) {
            Act a = pol.get_action(s, *ctx);
            St s2 = self.thts_env->sample_transition_distribution_itfc(s, a, self.rand_manager);
            Obs o = self.thts_env->sample_observation_distribution_itfc(a, s2, self.rand_manager);
            total += self.thts_env->get_reward_itfc(s, a, o);
            pol.update_step(a, o);
            s = s2;
            steps++;
        }
        self.sampled_returns.push_back(total);
    }
    void MC_thread(MCEvaluator& self, int total, int id, int n, unique_ptr<EvalPolicy> pol) {
        for (int i = id; i < total; i += n) self.run_rollout(*pol);
    }
    void MC_init(MCEvaluator& self, shared_ptr<const ThtsEnv> env, EvalPolicy& p, int len, RandManager& rm) {
        self.thts_env = env;
        self.max_trial_length = len;
        self.sampled_returns = vector<double>();
    }
    double MC_mean(MCEvaluator& self) {
        double s = 0.0;
        for (double x : self.sampled_returns) s += x;
        return s / self.sampled_returns.size();
    }
    double MC_stddev(MCEvaluator& self) {
        double m = MC_mean(self);
        double s = 0.0;
        for (double x : self.sampled_returns) s += (x - m) * (x - m);
        return sqrt(s / (self.sampled_returns.size() - 1.0));
    }
    void EvalPolicy_init(EvalPolicy& self, shared_ptr<const ThtsDNode> root, shared_ptr<const ThtsEnv> env, RandManager& rm) {
        self.root_node = root;
        self.cur_node = root;
        self.thts_env = env;
    }

    // ---- loggers
    void Logger_init(ThtsLogger& self) {
        self.prior_runtime = chrono::duration<double>::zero();
        self.start_time = chrono::system_clock::now();
        self.trials_completed = 0;
        self.trials_delta = numeric_limits<int>::max();
        self.last_log_num_trials = 0;
        self.runtime_delta = chrono::duration<double>(numeric_limits<double>::max());
        self.next_log_runtime_threshold = chrono::duration<double>(numeric_limits<double>::max());
    }
    void Logger_set_trials_delta(ThtsLogger& self, int d) { self.trials_delta = d; }
    void Logger_set_runtime_delta(ThtsLogger& self, double d) { self.runtime_delta = chrono::duration<double>(d); }
    int Logger_size(const ThtsLogger& self) { return self.entries.size(); }
    void Logger_reset(ThtsLogger& self) {
        self.start_time = chrono::system_clock::now();
        self.last_log_num_trials = self.trials_completed;
        self.next_log_runtime_threshold = self.prior_runtime + self.runtime_delta;
    }
    chrono::duration<double> Logger_runtime(ThtsLogger& self) {
        chrono::duration<double> d = chrono::system_clock::now() - self.start_time;
        return self.prior_runtime + d;
    }
    void Logger_trial(ThtsLogger& self) { self.trials_completed = self.trials_completed + 1; }
    bool Logger_should(ThtsLogger& self) {
        bool by_trials = self.trials_completed - self.last_log_num_trials >= self.trials_delta;
        bool by_time = Logger_runtime(self) >= self.next_log_runtime_threshold;
        if (by_trials) self.last_log_num_trials = self.trials_completed;
        if (by_time) self.next_log_runtime_threshold = self.next_log_runtime_threshold + self.runtime_delta;
        return by_trials || by_time;
    }
    void Logger_prior(ThtsLogger& self) {
        chrono::duration<double> d = chrono::system_clock::now() - self.start_time;
        self.prior_runtime = self.prior_runtime + d;
    }
    void Logger_origin(ThtsLogger& self) { self.entries.push_back(make_shared<LoggerEntry>(chrono::duration<double>::zero(), 0)); }
    void Logger_log(ThtsLogger& self, shared_ptr<ThtsDNode> n) { self.entries.push_back(make_shared<LoggerEntry>(Logger_runtime(self), n->num_visits)); }
    void UctLogger_origin(ThtsLogger& self) { self.entries.push_back(make_shared<UctLoggerEntry>(chrono::duration<double>::zero(), 0, 0, 0.0)); }
    void UctLogger_log(ThtsLogger& self, shared_ptr<ThtsDNode> n) {
        UctDNode& d = (UctDNode&) *n;
        self.entries.push_back(make_shared<UctLoggerEntry>(Logger_runtime(self), d.num_visits, d.num_backups, d.avg_return));
    }
    void MentsLogger_origin(ThtsLogger& self) { self.entries.push_back(make_shared<MentsLoggerEntry>(chrono::duration<double>::zero(), 0, 0, 0.0)); }
    void MentsLogger_log(ThtsLogger& self, shared_ptr<ThtsDNode> n) {
        MentsDNode& d = (MentsDNode&) *n;
        self.entries.push_back(make_shared<MentsLoggerEntry>(Logger_runtime(self), d.num_visits, d.num_backups, d.soft_value));
    }
    void DBMentsLogger_origin(ThtsLogger& self) { self.entries.push_back(make_shared<DBMentsLoggerEntry>(chrono::duration<double>::zero(), 0, 0, 0.0, 0.0)); }
    void DBMentsLogger_log(ThtsLogger& self, shared_ptr<ThtsDNode> n) {
        DBMentsDNode& d = (DBMentsDNode&) *n;
        self.entries.push_back(make_shared<DBMentsLoggerEntry>(Logger_runtime(self), d.num_visits, d.MentsDNode::num_backups, d.soft_value, d.dp_value));
    }
    void Entry_init(LoggerEntry& self, chrono::duration<double> t, int visits) { self.runtime = t; self.num_visits = visits; }
    void UctEntry_init(UctLoggerEntry& self, chrono::duration<double> t, int visits, int backups, double v) {
        Entry_init(self, t, visits); self.num_backups = backups; self.avg_return = v;
    }
    void MentsEntry_init(MentsLoggerEntry& self, chrono::duration<double> t, int visits, int backups, double v) {
        Entry_init(self, t, visits); self.num_backups = backups; self.soft_value = v;
    }
    void DBMentsEntry_init(DBMentsLoggerEntry& self, chrono::duration<double> t, int visits, int backups, double v, double dp) {
        MentsEntry_init(self, t, visits, backups, v); self.dp_value = dp;
    }
    void Entry_header(LoggerEntry& self, ostream& os) { os << "runtime,num_visits"; }
    void Entry_row(LoggerEntry& self, ostream& os) { os << self.runtime.count() << "," << self.num_visits; }
    void UctEntry_header(UctLoggerEntry& self, ostream& os) { os << "runtime,num_visits,num_backups,avg_return"; }
    void UctEntry_row(UctLoggerEntry& self, ostream& os) { os << self.runtime.count() << "," << self.num_visits << "," << self.num_backups << "," << self.avg_return; }
    void MentsEntry_header(MentsLoggerEntry& self, ostream& os) { os << "runtime,num_visits,num_backups,soft_value"; }
    void MentsEntry_row(MentsLoggerEntry& self, ostream& os) { os << self.runtime.count() << "," << self.num_visits << "," << self.num_backups << "," << self.soft_value; }
    void DBMentsEntry_header(DBMentsLoggerEntry& self, ostream& os) { os << "runtime,num_visits,num_backups,soft_value,dp_value"; }
    void DBMentsEntry_row(DBMentsLoggerEntry& self, ostream& os) {
        os << self.runtime.count() << "," << self.num_visits << "," << self.num_backups << "," << self.soft_value << "," << self.dp_value;
    }
    void Logger_write(ThtsLogger& self, ostream& os) {
        if (self.entries.size() == 0) return;
        self.entries[0]->write_header_to_ostream(os);
        os << "\n";
        for (shared_ptr<LoggerEntry> e : self.entries) {
            e->write_to_ostream(os);
            os << "\n";
        }
    }
    // ---- randomness
    int Rand_int(RandManager& self, int lo, int hi) { return lo + self.int_distr(self.int_gen) % (hi - lo); }
    double Rand_uniform(RandManager& self) { return self.real_distr(self.real_gen); }
    void Rand_init(RandManager& self, const int seed) {
        self.int_distr = uniform_int_distribution<int>(0, RAND_MAX);
        self.real_distr = uniform_real_distribution<double>(0.0, 1.0);
        if (seed == 0) {
            self.int_gen = mt19937(self.rd());
            self.real_gen = mt19937(self.rd());
        } else {
            self.int_gen = mt19937(seed);
            self.real_gen = mt19937(seed);
        }
    }

    // ---- helpers
    int arg_max(unordered_map<int,double>& m, RandManager& rm) {
        double best = -numeric_limits<double>::infinity();
        for (auto& pr : m) if (pr.second > best) best = pr.second;
        vector<int> keys;
        for (auto& pr : m) if (pr.second == best) keys.push_back(pr.first);
        if (keys.size() == 1) return keys[0];
        return keys[rm.get_rand_int(0, keys.size())];
    }
    int sample(unordered_map<int,double>& d, RandManager& rm, bool normalised) {
        double total = 0.0;
        for (auto& pr : d) total += pr.second;
        if (normalised) total = 1.0;
        double u = rm.get_rand_uniform();
        double mass = 0.0;
        for (auto& pr : d) {
            mass += pr.second / total;
            if (u < mass) return pr.first;
        }
        throw runtime_error("mass");
    }
    // weights are normalised unless said otherwise; a random manager without a seed is the same as one with seed zero
    int sample_default(unordered_map<int,double>& d, RandManager& rm) { return helper::sample_from_distribution(d, rm); }
    int sample_default_ref(unordered_map<int,double>& d, RandManager& rm) { return helper::sample_from_distribution(d, rm, true); }

    // ---- distributions
    int Cat_sample(CategoricalDistribution<int>& self, RandManager& rm) {
        if (!self.use_alias_method) return helper::sample_from_distribution(*self.distr, rm, false);
        auto& e = self.alias_table[rm.get_rand_int(0, self.distr->size())];
        if (e.threshold < 1.0 && rm.get_rand_uniform() < e.threshold) return e.first;
        return e.second;
    }
    int Uniform_sample(DiscreteUniformDistribution<int>& self, RandManager& rm) { return self.keys->at(rm.get_rand_int(0, self.keys->size())); }
    int Mixed_sample(MixedDistribution<int>& self, RandManager& rm) {
        shared_ptr<Distribution<int>> d = helper::sample_from_distribution(*self.distr, rm);
        return d->sample(rm);
    }
    // alias table: one entry per outcome, its scaled weight first, then large entries give their excess to small ones
    void alias_fill(CategoricalDistribution<int>& self) {
        double total = 0.0;
        for (auto& pr : *self.distr) total += pr.second;
        double n = self.distr->size();
        vector<CategoricalDistribution<int>::AliasTableEntry> fresh;
        for (auto& pr : *self.distr) fresh.push_back(CategoricalDistribution<int>::AliasTableEntry(pr.second * n / total, pr.first, pr.first));
        self.alias_table = fresh;
    }
    void alias_settle(CategoricalDistribution<int>& self) {
        vector<int> large;
        vector<int> small;
        for (size_t i = 0; i < self.alias_table.size(); i++) {
            if (self.alias_table[i].threshold > 1.0) large.push_back(i);
            else if (self.alias_table[i].threshold < 1.0) small.push_back(i);
        }
        while (large.size() > 0 && small.size() > 0) {
            int l = large.back();
            int s = small.back();
            large.pop_back();
            small.pop_back();
            self.alias_table[s].second = self.alias_table[l].first;
            self.alias_table[l].threshold = self.alias_table[l].threshold - (1.0 - self.alias_table[s].threshold);
            if (self.alias_table[l].threshold > 1.0) large.push_back(l);
            else if (self.alias_table[l].threshold < 1.0) small.push_back(l);
        }
        for (int l : large) self.alias_table[l].threshold = 1.0;
        for (int s : small) self.alias_table[s].threshold = 1.0;
    }
    void Cat_alias(CategoricalDistribution<int>& self) { alias_fill(self); alias_settle(self); }
    void Cat_new(CategoricalDistribution<int>& self, shared_ptr<unordered_map<int,double>> d, bool alias, int freq) {
        self.distr = d;
        self.use_alias_method = alias;
        self.reconstruct_alias_table_freq = freq;
        self.num_updates = 0;
        if (alias) Cat_alias(self);
    }
    // established by the constructor and kept by both updates
    bool alias_sized(CategoricalDistribution<int>& self) { return self.alias_table.size() == self.distr->size() && (!self.use_alias_method || self.num_updates < self.reconstruct_alias_table_freq); }
    bool alias_entry_wf(CategoricalDistribution<int>& self, RandManager& rm) {
        auto& e = self.alias_table[rm.get_rand_int(0, self.distr->size())];
        return e.threshold < 1.0 || (e.threshold == 1.0 && e.first == e.second);
    }
    // setting one weight takes effect at once when not using a table, and at the latest every 'freq' updates otherwise; a new outcome always at once
    void Cat_update(CategoricalDistribution<int>& self, int key, double w) {
        bool added = self.distr->count(key) == 0;
        (*self.distr)[key] = w;
        self.num_updates = self.num_updates + 1;
        if (self.use_alias_method && (added || self.num_updates == self.reconstruct_alias_table_freq)) {
            Cat_alias(self);
            self.num_updates = 0;
        }
    }
    void Cat_replace(CategoricalDistribution<int>& self, shared_ptr<unordered_map<int,double>> d) {
        self.distr = d;
        self.num_updates = 0;
        if (self.use_alias_method) Cat_alias(self);
    }
}

// ---- printing: every node shows its value estimate, then (recursively, to the requested number of decisions) its children
#include "algorithms/est/est_decision_node.h"
#include "algorithms/est/est_chance_node.h"
#include "algorithms/ments/dents/dents_decision_node.h"
#include "algorithms/ments/dents/dents_chance_node.h"
#include "algorithms/ments/dbments_decision_node.h"
#include "algorithms/ments/dbments_chance_node.h"
#include "algorithms/uct/uct_decision_node.h"
#include "algorithms/uct/uct_chance_node.h"
#include "algorithms/common/decaying_temp.h"
namespace vspec {
    string UctDNode_print(const UctDNode& self) { stringstream s; s << self.avg_return; return s.str(); }
    string UctCNode_print(const UctCNode& self) { stringstream s; s << self.avg_return; return s.str(); }
    string MentsDNode_print(const MentsDNode& self) { stringstream s; s << self.soft_value << "(temp:" << self.get_temp() << ")"; return s.str(); }
    string MentsCNode_print(const MentsCNode& self) { stringstream s; s << self.soft_value; return s.str(); }
    string DBMentsDNode_print(const DBMentsDNode& self) { stringstream s; s << self.dp_value << "(temp:" << self.get_temp() << ",soft_val:" << self.soft_value << ")"; return s.str(); }
    string DBMentsCNode_print(const DBMentsCNode& self) { stringstream s; s << self.dp_value << "(soft_val:" << self.soft_value << ")"; return s.str(); }
    string DentsDNode_print(const DentsDNode& self) {
        double v = ((DentsManager&) *self.thts_manager).use_dp_value ? self.dp_value : self.avg_return;
        stringstream s;
        s << v << "(temp:" << self.get_temp() << ",entrpy:" << self.subtree_entropy << ",val_temp:" << self.get_value_temp() << ",soft_val:" << self.soft_value << ")";
        return s.str();
    }
    string DentsCNode_print(const DentsCNode& self) {
        double v = ((DentsManager&) *self.thts_manager).use_dp_value ? self.dp_value : self.avg_return;
        stringstream s;
        s << v << "(entrpy:" << self.subtree_entropy << ",val_temp:" << self.get_value_temp() << ",soft_val:" << self.soft_value << ")";
        return s.str();
    }
    string EstDNode_print(const EstDNode& self) { stringstream s; s << (((DentsManager&) *self.thts_manager).use_dp_value ? self.dp_value : self.avg_return); return s.str(); }
    string EstCNode_print(const EstCNode& self) { stringstream s; s << (((DentsManager&) *self.thts_manager).use_dp_value ? self.dp_value : self.avg_return); return s.str(); }

    string ThtsDNode_tree(const ThtsDNode& self, int decisions) { stringstream s; self.get_pretty_print_string_helper(s, 2 * decisions, 0); return s.str(); }
    string ThtsCNode_tree(const ThtsCNode& self, int decisions) { stringstream s; self.get_pretty_print_string_helper(s, 2 * decisions + 1, 0); return s.str(); }
    void ThtsDNode_subtree(const ThtsDNode& self, stringstream& s, int levels, int indent) {
        s << "D(vl=" << self.get_pretty_print_val() << ",#v=" << self.num_visits << ")[";
        if (levels == 0) {
            if (!self.is_leaf()) s << "...";
            s << "],";
            return;
        }
        for (auto& kv : self.children) {
            s << "\n";
            for (int i = 0; i < indent + 1; i++) s << "|\t";
            s << "\"" << *kv.first << "\"->";
            kv.second->get_pretty_print_string_helper(s, levels - 1, indent + 1);
        }
        s << "\n";
        for (int i = 0; i < indent; i++) s << "|\t";
        s << "],";
    }
    void ThtsCNode_subtree(const ThtsCNode& self, stringstream& s, int levels, int indent) {
        s << "C(vl=" << self.get_pretty_print_val() << ",#v=" << self.num_visits << ")[";
        for (auto& kv : self.children) {
            s << "\n";
            for (int i = 0; i < indent + 1; i++) s << "|\t";
            s << "{" << *kv.first << "}->";
            kv.second->get_pretty_print_string_helper(s, levels - 1, indent + 1);
        }
        s << "\n";
        for (int i = 0; i < indent; i++) s << "|\t";
        s << "],";
    }
    string IntState_print(const IntState& self) { stringstream s; s << "(" << self.state << ")"; return s.str(); }
    string IntPairState_print(const IntPairState& self) { stringstream s; s << "(" << get<0>(self.state) << "," << get<1>(self.state) << ")"; return s.str(); }
    string Int3TupleState_print(const Int3TupleState& self) { stringstream s; s << "(" << get<0>(self.state) << "," << get<1>(self.state) << "," << get<2>(self.state) << ")"; return s.str(); }
    string IntAction_print(const IntAction& self) { stringstream s; s << self.action; return s.str(); }
    string StringAction_print(const StringAction& self) { return self.action; }
    template <typename T> static string list_text(const vector<T>& v) {
        stringstream s;
        s << "[";
        bool first = true;
        for (const T& x : v) { if (!first) s << ","; first = false; s << x; }
        s << "]";
        return s.str();
    }
    template <typename K, typename V> static string table_text(const unordered_map<K,V>& m, string sep) {
        stringstream s;
        s << "{";
        bool first = true;
        for (auto& kv : m) { if (!first) s << ","; first = false; s << kv.first << sep << kv.second; }
        s << "}";
        return s.str();
    }
    string print_list(const vector<int>& v) { return list_text(v); }
    string print_table(const unordered_map<int,double>& m, string sep) { return table_text(m, sep); }
}
namespace vspec {
#define SHOW(N, T) \
    ostream& show_##N(ostream& os, const T& x) { os << x.get_pretty_print_string(); return os; } \
    ostream& show_##N##_p(ostream& os, const shared_ptr<const T>& x) { os << x->get_pretty_print_string(); return os; }
    SHOW(Observation, Observation)
    SHOW(State, State)
    SHOW(Action, Action)
    SHOW(IntState, IntState)
    SHOW(IntPairState, IntPairState)
    SHOW(Int3TupleState, Int3TupleState)
    SHOW(IntAction, IntAction)
    SHOW(StringAction, StringAction)
    ostream& show_id(ostream& os, const DNodeIdTuple& x) { os << "DNodeId(" << get<0>(x) << "," << get<1>(x) << ")"; return os; }
    ostream& show_DNodeTable(ostream& os, const DNodeTable& x) {
        unordered_map<DNodeIdTuple,shared_ptr<ThtsDNode>> live;
        for (auto& kv : x) live[kv.first] = kv.second.lock();
        os << helper::unordered_map_pretty_print_string(live);
        return os;
    }
    ostream& show_ActionVector(ostream& os, const ActionVector& x) { os << helper::vector_pretty_print_string(x); return os; }
    ostream& show_StringActionVector(ostream& os, const StringActionVector& x) { os << helper::vector_pretty_print_string(x); return os; }
    ostream& show_StateDistr(ostream& os, const StateDistr& x) { os << helper::unordered_map_pretty_print_string(x); return os; }
    ostream& show_ObservationDistr(ostream& os, const ObservationDistr& x) { os << helper::unordered_map_pretty_print_string(x); return os; }
    ostream& show_IntPairStateDistr(ostream& os, const IntPairStateDistr& x) { os << helper::unordered_map_pretty_print_string(x); return os; }
    ostream& show_Int3TupleStateDistr(ostream& os, const Int3TupleStateDistr& x) { os << helper::unordered_map_pretty_print_string(x); return os; }
}
