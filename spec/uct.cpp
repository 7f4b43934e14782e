// Required transitions of the UCT / PUCT nodes, written from the published algorithm over the nodes' own state.
// Never executed: it is evaluated by the same value-flow analysis as the library and compared with it.
#include "algorithms/uct/uct_decision_node.h"
#include "algorithms/uct/uct_chance_node.h"
#include "algorithms/uct/puct_decision_node.h"
#include "algorithms/uct/puct_chance_node.h"
#include "helper_templates.h"
#include <cmath>
using namespace std;
using namespace thts;

namespace vspec {
    typedef shared_ptr<const Action> Act;

    // ---- running means and counters
    void UctDNode_visit(UctDNode& self, ThtsEnvContext& ctx) { self.num_visits = self.num_visits + 1; }
    void UctCNode_visit(UctCNode& self, ThtsEnvContext& ctx) { self.num_visits = self.num_visits + 1; }

    void UctDNode_backup(UctDNode& self, const vector<double>& before, const vector<double>& after, const double ret_after,
        const double ret_total, ThtsEnvContext& ctx)
    {
        self.avg_return = (self.avg_return * self.num_backups + ret_after) / (self.num_backups + 1);
        self.num_backups = self.num_backups + 1;
    }
    void UctCNode_backup(UctCNode& self, const vector<double>& before, const vector<double>& after, const double ret_after,
        const double ret_total, ThtsEnvContext& ctx)
    {
        self.avg_return = (self.avg_return * self.num_backups + ret_after) / (self.num_backups + 1);
        self.num_backups = self.num_backups + 1;
    }

    // ---- scores
    static double sign(const ThtsDNode& self) {
        return (self.thts_manager->is_two_player_game && (self.decision_timestep % 2) != 0) ? -1.0 : 1.0;
    }
    double uct_term(int n, int c) {
        double nn = n > 0 ? n : 1;
        double cc = c > 0 ? c : 1;
        return sqrt(log(nn) / cc);
    }
    double puct_term(int n, int c, double power) {
        double nn = n > 0 ? n : 1;
        double cc = c > 0 ? c : 1;
        return (power == 0.5) ? sqrt(nn) / cc : pow(nn, power) / cc;
    }
    double UctDNode_compute_ucb_term(const UctDNode& self, int n, int c) { return uct_term(n, c); }
    double PuctDNode_compute_ucb_term(const PuctDNode& self, int n, int c) {
        return puct_term(n, c, ((PuctManager&) *self.thts_manager).puct_power);
    }
    UctCNode& child(const UctDNode& self, Act a) { return (UctCNode&) *self.children.at(a); }

    void ucb(const UctDNode& self, unordered_map<Act,double>& scores, bool puct) {
        UctManager& m = (UctManager&) *self.thts_manager;
        double bias = m.bias;
        if (bias == -1.0) {
            bias = 0.001;
            for (Act a : *self.actions) {
                if (self.children.count(a) > 0 && fabs(child(self,a).avg_return) > bias) bias = fabs(child(self,a).avg_return);
            }
        }
        for (Act a : *self.actions) {
            bool in_tree = self.children.count(a) > 0;
            int c = in_tree ? child(self,a).num_visits : 0;
            double t = puct ? puct_term(self.num_visits, c, ((PuctManager&) m).puct_power) : uct_term(self.num_visits, c);
            double prior = (m.prior_fn != nullptr) ? self.policy_prior->at(a) : 1.0;
            double q = in_tree ? sign(self) * child(self,a).avg_return : 0.0;
            scores[a] = q + bias * prior * t;
        }
    }
    void UctDNode_fill_ucb_values(const UctDNode& self, unordered_map<Act,double>& scores, ThtsEnvContext& ctx) { ucb(self, scores, false); }
    void PuctDNode_fill_ucb_values(const UctDNode& self, unordered_map<Act,double>& scores, ThtsEnvContext& ctx) { ucb(self, scores, true); }

    Act choose(UctDNode& self, bool puct) {
        UctManager& m = (UctManager&) *self.thts_manager;
        if (m.epsilon_exploration > 0.0 && m.get_rand_uniform() < m.epsilon_exploration) {
            return (*self.actions)[m.get_rand_int(0, self.actions->size())];
        }
        if (m.prior_fn == nullptr) {
            vector<Act> untried;
            for (Act a : *self.actions) if (self.children.count(a) == 0) untried.push_back(a);
            if (untried.size() > 0) return untried[m.get_rand_int(0, untried.size())];
        }
        unordered_map<Act,double> scores;
        ucb(self, scores, puct);
        return helper::get_max_key_break_ties_randomly(scores, m);
    }
    Act UctDNode_select_action(UctDNode& self, ThtsEnvContext& ctx) {
        Act a = choose(self, false);
        if (self.children.count(a) == 0) self.create_child_node_itfc(a);
        return a;
    }
    Act PuctDNode_select_action(UctDNode& self, ThtsEnvContext& ctx) {
        Act a = choose(self, true);
        if (self.children.count(a) == 0) self.create_child_node_itfc(a);
        return a;
    }
    shared_ptr<const Observation> UctCNode_sample_observation(UctCNode& self, ThtsEnvContext& ctx) {
        shared_ptr<const State> s = helper::sample_from_distribution(*self.next_state_distr, *self.thts_manager);
        if (self.children.count(s) == 0) self.create_child_node_itfc(s);
        return s;
    }

    // ---- recommendation
    Act UctDNode_recommend_action(const UctDNode& self, ThtsEnvContext& ctx) {
        UctManager& m = (UctManager&) *self.thts_manager;
        unordered_map<Act,int> visits;
        unordered_map<Act,double> values;
        for (Act a : *self.actions) {
            if (self.children.count(a) == 0) continue;
            visits[a] = child(self,a).num_visits;
            values[a] = sign(self) * child(self,a).avg_return;
        }
        if (values.size() == 0) return (*self.actions)[m.get_rand_int(0, self.actions->size())];
        if (m.recommend_most_visited) return helper::get_max_key_break_ties_randomly(visits, m);
        return helper::get_max_key_break_ties_randomly(values, m);
    }
}
