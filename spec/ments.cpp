#include "algorithms/common/decaying_temp.h"
#include "common.h"
#include "algorithms/ments/ments_decision_node.h"
#include "algorithms/ments/ments_chance_node.h"
#include "algorithms/ments/dbments_decision_node.h"
#include "algorithms/ments/dbments_chance_node.h"
#include "algorithms/ments/dents/dents_decision_node.h"
#include "algorithms/ments/dents/dents_chance_node.h"
#include "algorithms/est/est_decision_node.h"
#include "algorithms/est/est_chance_node.h"
#include "algorithms/ments/rents/rents_decision_node.h"
#include "algorithms/ments/rents/rents_chance_node.h"
#include "algorithms/ments/tents/tents_decision_node.h"
#include "algorithms/ments/tents/tents_chance_node.h"

namespace vspec {
    enum Kind { MENTS, DENTS, EST, RENTS, TENTS };
    typedef unordered_map<Act,double> Distr;

    double ments_temp(const MentsDNode& self) {
        MentsManager& m = (MentsManager&) *self.thts_manager;
        if (m.temp_decay_fn == nullptr) return m.temp;
        bool root_scale = self.decision_depth == 0 && m.temp_decay_root_node_visits_scale > 0.0;
        return decayed(m.temp_decay_fn, m.temp, m.temp_decay_min_temp, self.num_visits,
            root_scale ? m.temp_decay_root_node_visits_scale : m.temp_decay_visits_scale);
    }
    double MentsDNode_get_temp(const MentsDNode& self) { return ments_temp(self); }
    double dents_value_temp(const DentsDNode& self) {
        DentsManager& m = (DentsManager&) *self.thts_manager;
        if (m.value_temp_decay_fn == nullptr) return m.value_temp_init;
        bool root_scale = self.decision_depth == 0 && m.value_temp_decay_root_node_visits_scale > 0.0;
        return decayed(m.value_temp_decay_fn, m.value_temp_init, m.value_temp_decay_min_temp, self.num_visits,
            root_scale ? m.value_temp_decay_root_node_visits_scale : m.value_temp_decay_visits_scale);
    }
    double DentsDNode_get_value_temp(const DentsDNode& self) { return dents_value_temp(self); }
    double dents_cvalue_temp(const DentsCNode& self) {
        DentsManager& m = (DentsManager&) *self.thts_manager;
        if (m.value_temp_decay_fn == nullptr) return m.value_temp_init;
        return decayed(m.value_temp_decay_fn, m.value_temp_init, m.value_temp_decay_min_temp, self.num_visits, m.value_temp_decay_visits_scale);
    }
    double DentsCNode_get_value_temp(const DentsCNode& self) { return dents_cvalue_temp(self); }

    // log of a prior weight, clamped to [-32,32]
    double log_weight(double w) {
        if (w >= 1e32) return 32.0;
        if (w <= 1e-32) return -32.0;
        return log(w);
    }
    double estimate(const DentsCNode& c, const DentsManager& m) { return m.use_dp_value ? c.dp_value : c.avg_return; }

    // value of an action from the point of view of the player to move
    double soft_q(const MentsDNode& self, Act a, double sgn, Kind k) {
        MentsManager& m = (MentsManager&) *self.thts_manager;
        if (has(self, a)) {
            if (k == DENTS) {
                DentsCNode& c = (DentsCNode&) *self.children.at(a);
                return sgn * (estimate(c, (DentsManager&) m) + dents_value_temp((const DentsDNode&) self) * c.subtree_entropy);
            }
            if (k == EST) return sgn * estimate((DentsCNode&) *self.children.at(a), (DentsManager&) m);
            return sgn * ((MentsCNode&) *self.children.at(a)).soft_value;
        }
        if (m.prior_fn != nullptr) return log_weight(self.policy_prior->at(a)) + self.psuedo_q_value_offset;
        return sgn * m.default_q_value;
    }
    double MentsDNode_get_soft_q_value(const MentsDNode& self, Act a, double sgn) { return soft_q(self, a, sgn, MENTS); }
    double DentsDNode_get_soft_q_value(const MentsDNode& self, Act a, double sgn) { return soft_q(self, a, sgn, DENTS); }
    double EstDNode_get_soft_q_value(const MentsDNode& self, Act a, double sgn) { return soft_q(self, a, sgn, EST); }

    // weights exp(q/temp - max q/temp)
    void weights(const MentsDNode& self, Distr& w, double& sum, double& norm, Kind k) {
        double t = ments_temp(self);
        norm = numeric_limits<double>::lowest();
        for (Act a : *self.actions) {
            double v = soft_q(self, a, sign(self), k) / t;
            if (v > norm) norm = v;
        }
        sum = 0.0;
        for (Act a : *self.actions) {
            w[a] = exp(soft_q(self, a, sign(self), k) / t - norm);
            sum = sum + w[a];
        }
    }
    // RENTS: relative entropy to the policy of the parent's trial step
    void rents_weights(const RentsDNode& self, Distr& w, double& sum, double& norm, ThtsEnvContext& ctx) {
        double t = ments_temp(self);
        norm = numeric_limits<double>::lowest();
        for (Act a : *self.actions) {
            double v = soft_q(self, a, sign(self), MENTS) / t;
            if (v > norm) norm = v;
        }
        shared_ptr<ActionDistr> parent = nullptr;
        if (self.decision_depth > 0) parent = ctx.get_value_ptr<ActionDistr>(self._parent_distr_key);
        sum = 0.0;
        for (Act a : *self.actions) {
            double pp = 1.0;
            if (parent != nullptr) pp = (parent->count(a) > 0) ? parent->at(a) : 0.0;
            double x = exp(soft_q(self, a, sign(self), MENTS) / t - norm) * pp;
            w[a] = x;
            sum += x;
        }
        if (sum < 1e-16) {
            for (Act a : *self.actions) w[a] = 1.0 / self.actions->size();
            sum = 1.0;
        }
    }
    void MentsDNode_compute_action_weights(const MentsDNode& self, ActionDistr& w, double& sum, double& norm, ThtsEnvContext& ctx) { weights(self, w, sum, norm, MENTS); }
    void DentsDNode_compute_action_weights(const MentsDNode& self, ActionDistr& w, double& sum, double& norm, ThtsEnvContext& ctx) { weights(self, w, sum, norm, DENTS); }
    void EstDNode_compute_action_weights(const MentsDNode& self, ActionDistr& w, double& sum, double& norm, ThtsEnvContext& ctx) { weights(self, w, sum, norm, EST); }
    void RentsDNode_compute_action_weights(const RentsDNode& self, ActionDistr& w, double& sum, double& norm, ThtsEnvContext& ctx) { rents_weights(self, w, sum, norm, ctx); }

    // TENTS: sparse support, in decreasing order of q/temp, and the weights max(0, q/temp - (sum over support - 1) / |support|)
    void sparse_set(const TentsDNode& self, vector<Act>& out) {
        double i = 0, s = 0.0;
        for (auto it = self.qval_to_act.rbegin(); it != self.qval_to_act.rend(); it++) {
            s += it->first;
            if (s < 1.0 + (i + 1) * it->first) out.push_back(it->second);
            i = i + 1;
        }
    }
    void tents_weights(const TentsDNode& self, Distr& w, double& sum, double& norm) {
        double t = ments_temp(self);
        norm = 0.0;
        vector<Act> sparse;
        sparse_set(self, sparse);
        double s = 0.0;
        for (Act a : sparse) s += soft_q(self, a, sign(self), MENTS) / t;
        double c = (s - 1.0) / sparse.size();
        sum = 0.0;
        for (Act a : *self.actions) {
            double x = soft_q(self, a, sign(self), MENTS) / t - c;
            w[a] = x > 0.0 ? x : 0.0;
            if (x > 0.0) sum += x;
        }
        if (sum < 1e-16) {
            for (Act a : *self.actions) w[a] = 1.0 / self.actions->size();
            sum = 1.0;
        }
    }
    void TentsDNode_compute_action_weights(const TentsDNode& self, ActionDistr& w, double& sum, double& norm, ThtsEnvContext& ctx) { tents_weights(self, w, sum, norm); }

    // search policy: (1-lambda) * [ (1-lambda~) softmax + lambda~ prior ] + lambda * uniform
    double policy_prob(const MentsDNode& self, Act a, double w, double sum) {
        MentsManager& m = (MentsManager&) *self.thts_manager;
        double eps = (self.decision_depth == 0 && m.root_node_epsilon > 0.0) ? m.root_node_epsilon : m.epsilon;
        double lambda = eps > 0.0 ? eps / log(self.num_visits + 1) : 0.0;
        if (lambda > m.max_explore_prob) lambda = m.max_explore_prob;
        double p = w / sum;
        if (m.prior_policy_search_weight > 0.0) {
            double lt = m.prior_policy_search_weight / log(self.num_visits + 3);
            p = (1.0 - lt) * p + lt * self.policy_prior->at(a);
        }
        return (1.0 - lambda) * p + lambda / self.actions->size();
    }
    void policy(const MentsDNode& self, ActionDistr& d, ThtsEnvContext& ctx, Kind k) {
        ActionDistr w;
        double sum, norm;
        if (k == RENTS) rents_weights((const RentsDNode&) self, w, sum, norm, ctx);
        else if (k == TENTS) tents_weights((const TentsDNode&) self, w, sum, norm);
        else weights(self, w, sum, norm, k);
        for (Act a : *self.actions) {
            double p = policy_prob(self, a, w.at(a), sum);
            if (!(p < 1e-16)) d[a] = p;
        }
    }
    void MentsDNode_compute_action_distribution(const MentsDNode& self, ActionDistr& d, ThtsEnvContext& ctx) { ActionDistr x; policy(self, x, ctx, MENTS); d = x; }
    void DentsDNode_compute_action_distribution(const MentsDNode& self, ActionDistr& d, ThtsEnvContext& ctx) { ActionDistr x; policy(self, x, ctx, DENTS); d = x; }
    void EstDNode_compute_action_distribution(const MentsDNode& self, ActionDistr& d, ThtsEnvContext& ctx) { ActionDistr x; policy(self, x, ctx, EST); d = x; }
    void RentsDNode_compute_action_distribution(const MentsDNode& self, ActionDistr& d, ThtsEnvContext& ctx) { ActionDistr x; policy(self, x, ctx, RENTS); d = x; }

    Act sample_action(MentsDNode& self, ThtsEnvContext& ctx, Kind k) {
        ActionDistr d;
        policy(self, d, ctx, k);
        Act a = helper::sample_from_distribution(d, *self.thts_manager);
        if (!has(self, a)) self.create_child_node_itfc(a);
        return a;
    }
    Act MentsDNode_select_action(MentsDNode& self, ThtsEnvContext& ctx) { return sample_action(self, ctx, MENTS); }
    Act DentsDNode_select_action(MentsDNode& self, ThtsEnvContext& ctx) { return sample_action(self, ctx, DENTS); }
    Act EstDNode_select_action(MentsDNode& self, ThtsEnvContext& ctx) { return sample_action(self, ctx, EST); }
    Act RentsDNode_select_action(RentsDNode& self, ThtsEnvContext& ctx) {
        shared_ptr<ActionDistr> d = make_shared<ActionDistr>();
        policy(self, *d, ctx, RENTS);
        ctx.put_value<ActionDistr>(self._node_distr_key, d);
        Act a = helper::sample_from_distribution(*d, *self.thts_manager);
        if (!has(self, a)) self.create_child_node_itfc(a);
        return a;
    }
    Act TentsDNode_select_action(TentsDNode& self, ThtsEnvContext& ctx) {
        Act a = sample_action(self, ctx, TENTS);
        ctx.put_value_const<Action>(self._selected_action_key, a);
        return a;
    }
    Obs MentsCNode_sample_observation(MentsCNode& self, ThtsEnvContext& ctx) {
        shared_ptr<const State> s = helper::sample_from_distribution(*self.next_state_distr, *self.thts_manager);
        if (!has(self, s)) self.create_child_node_itfc(s);
        return s;
    }

    // ---- visits
    void MentsDNode_visit(MentsDNode& self, ThtsEnvContext& ctx) {
        self.num_visits = self.num_visits + 1;
        if (leaf(self)) self.num_backups = self.num_backups + 1;
    }
    void DBMentsDNode_visit(DBMentsDNode& self, ThtsEnvContext& ctx) {
        self.num_visits = self.num_visits + 1;
        if (leaf(self)) {
            self.MentsDNode::num_backups = self.MentsDNode::num_backups + 1;
            self.DPDNode::num_backups = self.DPDNode::num_backups + 1;
        }
    }
    void MentsCNode_visit(MentsCNode& self, ThtsEnvContext& ctx) { self.num_visits = self.num_visits + 1; }

    // ---- soft backups
    void soft_backup(MentsDNode& self, ThtsEnvContext& ctx, bool rents) {
        ActionDistr w;
        double sum, norm;
        if (rents) rents_weights((RentsDNode&) self, w, sum, norm, ctx);
        else weights(self, w, sum, norm, MENTS);
        self.soft_value = sign(self) * ments_temp(self) * (log(sum) + norm);
    }
    void MentsDNode_backup(MentsDNode& self, const vector<double>& before, const vector<double>& after, const double ret_after, const double ret_total, ThtsEnvContext& ctx) {
        self.num_backups = self.num_backups + 1;
        soft_backup(self, ctx, false);
    }
    void RentsDNode_backup(RentsDNode& self, const vector<double>& before, const vector<double>& after, const double ret_after, const double ret_total, ThtsEnvContext& ctx) {
        self.num_backups = self.num_backups + 1;
        soft_backup(self, ctx, true);
    }
    // TENTS: the two maps always describe the same function action -> q/temp; a backup refreshes the selected action only
    double spmax(const TentsDNode& self) {
        vector<Act> sparse;
        sparse_set(self, sparse);
        double s = 0.0, s2 = 0.0;
        for (Act a : sparse) {
            double q = self.act_to_qval.at(a);
            s += q; s2 += q * q;
        }
        double n = sparse.size();
        return 0.5 + 0.5 * s2 - n * 0.5 * (s - 1.0) * (s - 1.0) / (n * n);
    }
    void TentsDNode_backup(TentsDNode& self, const vector<double>& before, const vector<double>& after, const double ret_after, const double ret_total, ThtsEnvContext& ctx) {
        self.num_backups = self.num_backups + 1;
        Act sel = ctx.get_value_ptr_const<Action>(self._selected_action_key);
        self.act_to_qval[sel] = soft_q(self, sel, sign(self), MENTS) / ments_temp(self);
        self.qval_to_act.clear();
        for (Act a : *self.actions) self.qval_to_act.insert(make_pair(self.act_to_qval.at(a), a));
        self.soft_value = sign(self) * ments_temp(self) * spmax(self);
    }
    void soft_cbackup(MentsCNode& self) {
        double total = 0.0, n = 0.0;
        for (auto& pr : self.children) {
            MentsDNode& c = (MentsDNode&) *pr.second;
            total += c.num_backups * c.soft_value;
            n += c.num_backups;
        }
        self.soft_value = self.local_reward + (n == 0.0 ? 0.0 : total / n);
    }
    void MentsCNode_backup(MentsCNode& self, const vector<double>& before, const vector<double>& after, const double ret_after, const double ret_total, ThtsEnvContext& ctx) {
        self.num_backups = self.num_backups + 1;
        soft_cbackup(self);
    }

    // ---- dynamic programming backups
    void dp_backup(DBMentsDNode& self) {
        self.DPDNode::num_backups = self.DPDNode::num_backups + 1;
        if (opponent(self)) {
            double best = numeric_limits<double>::infinity();
            for (auto& pr : self.children) {
                DBMentsCNode& c = (DBMentsCNode&) *pr.second;
                if (c.DPCNode::num_backups != 0 && c.dp_value < best) best = c.dp_value;
            }
            self.dp_value = best;
        } else {
            double best = -numeric_limits<double>::infinity();
            for (auto& pr : self.children) {
                DBMentsCNode& c = (DBMentsCNode&) *pr.second;
                if (c.DPCNode::num_backups != 0 && c.dp_value > best) best = c.dp_value;
            }
            self.dp_value = best;
        }
    }
    void dp_cbackup(DBMentsCNode& self) {
        self.DPCNode::num_backups = self.DPCNode::num_backups + 1;
        double total = 0.0, n = 0.0;
        for (auto& pr : self.children) {
            DBMentsDNode& c = (DBMentsDNode&) *pr.second;
            total += c.DPDNode::num_backups * c.dp_value;
            n += c.DPDNode::num_backups;
        }
        self.dp_value = self.local_reward + (n == 0.0 ? 0.0 : total / n);
    }
    void DBMentsDNode_backup(DBMentsDNode& self, const vector<double>& before, const vector<double>& after, const double ret_after, const double ret_total, ThtsEnvContext& ctx) {
        self.MentsDNode::num_backups = self.MentsDNode::num_backups + 1;
        soft_backup(self, ctx, false);
        dp_backup(self);
    }
    void DBMentsCNode_backup(DBMentsCNode& self, const vector<double>& before, const vector<double>& after, const double ret_after, const double ret_total, ThtsEnvContext& ctx) {
        self.MentsCNode::num_backups = self.MentsCNode::num_backups + 1;
        soft_cbackup(self);
        dp_cbackup(self);
    }
    // ---- empirical averages
    void emp_backup(EmpNode& self, double ret) {
        self.avg_return = (self.avg_return * self.num_backups + ret) / (self.num_backups + 1);
        self.num_backups = self.num_backups + 1;
    }
    // ---- entropy backups
    void ent_backup(DentsDNode& self, ActionDistr& pi) {
        self.EntDNode::num_backups = self.EntDNode::num_backups + 1;
        double local = 0.0;
        for (auto& pr : pi) if (pr.second != 0.0) local += -pr.second * log(pr.second);
        self.local_entropy = local;
        double sub = opponent(self) ? -local : local;
        for (auto& pr : self.children) {
            if (pi.count(pr.first) > 0) sub += pi.at(pr.first) * ((DentsCNode&) *pr.second).EntCNode::subtree_entropy;
        }
        self.subtree_entropy = sub;
    }
    void initial_entropy(DentsDNode& self) {
        ActionDistr pi;
        ThtsEnvContext ctx;
        policy(self, pi, ctx, DENTS);
        self.EntDNode::num_backups = 0;
        ent_backup(self, pi);
    }
    void ent_cbackup(DentsCNode& self) {
        self.EntCNode::num_backups = self.EntCNode::num_backups + 1;
        double total = 0.0, n = 0.0;
        for (auto& pr : self.children) {
            DentsDNode& c = (DentsDNode&) *pr.second;
            total += c.EntDNode::num_backups * c.EntDNode::subtree_entropy;
            n += c.EntDNode::num_backups;
        }
        self.subtree_entropy = (n == 0.0 ? 0.0 : total / n);
    }
    void DentsDNode_backup(DentsDNode& self, const vector<double>& before, const vector<double>& after, const double ret_after, const double ret_total, ThtsEnvContext& ctx) {
        DentsManager& m = (DentsManager&) *self.thts_manager;
        self.MentsDNode::num_backups = self.MentsDNode::num_backups + 1;
        ActionDistr pi;
        policy(self, pi, ctx, DENTS);
        ent_backup(self, pi);
        if (m.use_dp_value) dp_backup(self);
        else emp_backup(self, ret_after);
        self.soft_value = (m.use_dp_value ? self.dp_value : self.avg_return) + dents_value_temp(self) * self.subtree_entropy;
    }
    void DentsCNode_backup(DentsCNode& self, const vector<double>& before, const vector<double>& after, const double ret_after, const double ret_total, ThtsEnvContext& ctx) {
        DentsManager& m = (DentsManager&) *self.thts_manager;
        self.MentsCNode::num_backups = self.MentsCNode::num_backups + 1;
        ent_cbackup(self);
        if (m.use_dp_value) dp_cbackup(self);
        else emp_backup(self, ret_after);
        self.soft_value = (m.use_dp_value ? self.dp_value : self.avg_return) + dents_cvalue_temp(self) * self.subtree_entropy;
    }
    void EstDNode_backup(DentsDNode& self, const vector<double>& before, const vector<double>& after, const double ret_after, const double ret_total, ThtsEnvContext& ctx) {
        self.MentsDNode::num_backups = self.MentsDNode::num_backups + 1;
        if (((DentsManager&) *self.thts_manager).use_dp_value) dp_backup(self);
        else emp_backup(self, ret_after);
    }
    void EstCNode_backup(DentsCNode& self, const vector<double>& before, const vector<double>& after, const double ret_after, const double ret_total, ThtsEnvContext& ctx) {
        self.MentsCNode::num_backups = self.MentsCNode::num_backups + 1;
        if (((DentsManager&) *self.thts_manager).use_dp_value) dp_cbackup(self);
        else emp_backup(self, ret_after);
    }

    // ---- recommendations
    Act most_visited(const MentsDNode& self) {
        unordered_map<Act,int> visits;
        for (Act a : *self.actions) if (has(self, a)) visits[a] = self.children.at(a)->num_visits;
        if (visits.size() == 0) return (*self.actions)[self.thts_manager->get_rand_int(0, self.actions->size())];
        return helper::get_max_key_break_ties_randomly(visits, *self.thts_manager);
    }
    Act MentsDNode_recommend_action(const MentsDNode& self, ThtsEnvContext& ctx) {
        MentsManager& m = (MentsManager&) *self.thts_manager;
        if (m.recommend_most_visited) return most_visited(self);
        unordered_map<Act,double> enough, rest;
        for (Act a : *self.actions) {
            double q = soft_q(self, a, sign(self), MENTS);
            if (has(self, a) && self.children.at(a)->num_visits >= m.recommend_visit_threshold) enough[a] = q;
            else rest[a] = q;
        }
        if (enough.size() > 0) return helper::get_max_key_break_ties_randomly(enough, m);
        return helper::get_max_key_break_ties_randomly(rest, m);
    }
    Act best_child(const DBMentsDNode& self, bool dp) {
        MentsManager& m = (MentsManager&) *self.thts_manager;
        if (self.children.size() == 0) return (*self.actions)[m.get_rand_int(0, self.actions->size())];
        unordered_map<Act,double> enough, rest;
        for (auto& pr : self.children) {
            double v, n;
            if (dp) {
                v = sign(self) * ((DBMentsCNode&) *pr.second).DPCNode::dp_value; n = ((DBMentsCNode&) *pr.second).DPCNode::num_backups;
            } else {
                v = sign(self) * ((DentsCNode&) *pr.second).EmpNode::avg_return; n = ((DentsCNode&) *pr.second).EmpNode::num_backups;
            }
            if (n >= m.recommend_visit_threshold) enough[pr.first] = v;
            else rest[pr.first] = v;
        }
        if (enough.size() > 0) return helper::get_max_key_break_ties_randomly(enough, m);
        return helper::get_max_key_break_ties_randomly(rest, m);
    }
    Act DBMentsDNode_recommend_action(const DBMentsDNode& self, ThtsEnvContext& ctx) {
        if (((MentsManager&) *self.thts_manager).recommend_most_visited) return most_visited(self);
        return best_child(self, true);
    }
    Act DentsDNode_recommend_action(const DentsDNode& self, ThtsEnvContext& ctx) {
        DentsManager& m = (DentsManager&) *self.thts_manager;
        if (m.recommend_most_visited) return most_visited(self);
        return best_child(self, m.use_dp_value);
    }
}
