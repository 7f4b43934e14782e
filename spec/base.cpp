// Reference transitions for the node base classes and for how nodes are created.
#include "common.h"
#include "algorithms/uct/uct_decision_node.h"
#include "algorithms/uct/uct_chance_node.h"
#include "algorithms/uct/puct_decision_node.h"
#include "algorithms/uct/puct_chance_node.h"
#include "algorithms/ments/ments_decision_node.h"
#include "algorithms/ments/ments_chance_node.h"
#include "algorithms/ments/dbments_decision_node.h"
#include "algorithms/ments/dbments_chance_node.h"
#include "algorithms/ments/dents/dents_decision_node.h"
#include "algorithms/ments/dents/dents_chance_node.h"
#include "algorithms/est/est_decision_node.h"
#include "algorithms/est/est_chance_node.h"
#include "algorithms/ments/rents/rents_decision_node.h"
#include "algorithms/ments/rents/rents_chance_node.h"
#include "algorithms/ments/tents/tents_decision_node.h"
#include "algorithms/ments/tents/tents_chance_node.h"
#include <sstream>

namespace vspec {
    typedef shared_ptr<const State> St;
    // ---- leaf, player to move, children
    bool ThtsDNode_is_leaf(const ThtsDNode& self) { return leaf(self); }
    bool ThtsDNode_is_sink(const ThtsDNode& self) { return self.thts_manager->thts_env->is_sink_state_itfc(self.state); }
    bool ThtsDNode_is_opponent(const ThtsDNode& self) { return opponent(self); }
    bool ThtsCNode_is_opponent(const ThtsCNode& self) { return self.thts_manager->is_two_player_game && (self.decision_timestep % 2) != 0; }
    bool ThtsDNode_is_root_node(const ThtsDNode& self) { return self.decision_depth == 0; }
    bool ThtsDNode_is_two_player_game(const ThtsDNode& self) { return self.thts_manager->is_two_player_game; }
    bool ThtsCNode_is_two_player_game(const ThtsCNode& self) { return self.thts_manager->is_two_player_game; }
    int ThtsDNode_get_num_visits(const ThtsDNode& self) { return self.num_visits; }
    int ThtsDNode_get_num_children(const ThtsDNode& self) { return self.children.size(); }
    int ThtsCNode_get_num_children(const ThtsCNode& self) { return self.children.size(); }
    bool ThtsDNode_has_child_node_itfc(const ThtsDNode& self, Act a) { return has(self, a); }
    bool ThtsCNode_has_child_node_itfc(const ThtsCNode& self, Obs o) { return has(self, o); }
    shared_ptr<ThtsCNode> ThtsDNode_get_child_node_itfc(const ThtsDNode& self, Act a) { return self.children.at(a); }
    shared_ptr<ThtsDNode> ThtsCNode_get_child_node_itfc(const ThtsCNode& self, Obs o) { return self.children.at(o); }

    // ---- construction: the part common to all nodes
    void dinit(ThtsDNode& self, shared_ptr<ThtsManager> m, St s, int depth, int t, shared_ptr<const ThtsCNode> parent) {
        self.thts_manager = m;
        self.state = s;
        self.decision_depth = depth;
        self.decision_timestep = t;
        self.parent = parent;
        self.num_visits = 0;
        self.heuristic_value = 0.0;
        // sink states are worth zero, whatever the heuristic says
        if (m->heuristic_fn != nullptr && !m->thts_env->is_sink_state_itfc(s)) self.heuristic_value = m->heuristic_fn(s, m->thts_env);
    }
    void cinit(ThtsCNode& self, shared_ptr<ThtsManager> m, St s, Act a, int depth, int t, shared_ptr<const ThtsDNode> parent) {
        self.thts_manager = m;
        self.state = s;
        self.action = a;
        self.decision_depth = depth;
        self.decision_timestep = t;
        self.parent = parent;
        self.num_visits = 0;
    }
    void uct_dinit(UctDNode& self, shared_ptr<UctManager> m, St s, int depth, int t, shared_ptr<const ThtsCNode> parent) {
        dinit(self, m, s, depth, t, parent);
        self.num_backups = 0;
        self.avg_return = 0.0;
        self.actions = m->thts_env->get_valid_actions_itfc(s);
        self.policy_prior = nullptr;
        if (m->heuristic_fn != nullptr) {
            self.num_visits = m->heuristic_psuedo_trials;
            self.num_backups = m->heuristic_psuedo_trials;
            self.avg_return = self.heuristic_value;
        }
        if (m->prior_fn != nullptr) self.policy_prior = m->prior_fn(s, m->thts_env);
    }
    void uct_cinit(UctCNode& self, shared_ptr<UctManager> m, St s, Act a, int depth, int t, shared_ptr<const ThtsDNode> parent) {
        cinit(self, m, s, a, depth, t, parent);
        self.num_backups = 0;
        self.avg_return = 0.0;
        self.next_state_distr = m->thts_env->get_transition_distribution_itfc(s, a);
    }
    void UctDNode_init(UctDNode& self, shared_ptr<UctManager> m, St s, int depth, int t, shared_ptr<const UctCNode> parent) { uct_dinit(self, m, s, depth, t, parent); }
    void UctCNode_init(UctCNode& self, shared_ptr<UctManager> m, St s, Act a, int depth, int t, shared_ptr<const UctDNode> parent) { uct_cinit(self, m, s, a, depth, t, parent); }
    void PuctDNode_init(PuctDNode& self, shared_ptr<PuctManager> m, St s, int depth, int t, shared_ptr<const PuctCNode> parent) { uct_dinit(self, m, s, depth, t, parent); }
    void PuctCNode_init(PuctCNode& self, shared_ptr<PuctManager> m, St s, Act a, int depth, int t, shared_ptr<const PuctDNode> parent) { uct_cinit(self, m, s, a, depth, t, parent); }

    double clamped_log(double w) { return w >= 1e32 ? 32.0 : (w <= 1e-32 ? -32.0 : log(w)); }
    void ments_dinit(MentsDNode& self, shared_ptr<MentsManager> m, St s, int depth, int t, shared_ptr<const ThtsCNode> parent) {
        dinit(self, m, s, depth, t, parent);
        self.num_backups = 0;
        self.soft_value = m->heuristic_fn != nullptr ? self.heuristic_value : 0.0;
        self.actions = m->thts_env->get_valid_actions_itfc(s);
        self.policy_prior = nullptr;
        self.psuedo_q_value_offset = 0.0;
        if (m->prior_fn != nullptr) {
            self.policy_prior = m->prior_fn(s, m->thts_env);
            if (m->shift_pseudo_q_values) {
                // pseudo q values are shifted so that their mean is the configured offset
                double total = 0.0;
                for (auto& pr : *self.policy_prior) total += clamped_log(pr.second);
                double n = self.policy_prior->size();
                self.psuedo_q_value_offset = m->psuedo_q_value_offset - (n > 0 ? total / n : 0.0);
            }
        }
    }
    void ments_cinit(MentsCNode& self, shared_ptr<MentsManager> m, St s, Act a, int depth, int t, shared_ptr<const ThtsDNode> parent) {
        cinit(self, m, s, a, depth, t, parent);
        self.num_backups = 0;
        self.soft_value = m->default_q_value;
        self.local_reward = m->thts_env->get_reward_itfc(s, a);
        self.next_state_distr = m->thts_env->get_transition_distribution_itfc(s, a);
    }
    void MentsDNode_init(MentsDNode& self, shared_ptr<MentsManager> m, St s, int depth, int t, shared_ptr<const MentsCNode> parent) { ments_dinit(self, m, s, depth, t, parent); }
    void MentsCNode_init(MentsCNode& self, shared_ptr<MentsManager> m, St s, Act a, int depth, int t, shared_ptr<const MentsDNode> parent) { ments_cinit(self, m, s, a, depth, t, parent); }
    void RentsDNode_init(RentsDNode& self, shared_ptr<MentsManager> m, St s, int depth, int t, shared_ptr<const RentsCNode> parent) {
        ments_dinit(self, m, s, depth, t, parent);
        stringstream mine;
        mine << "d_" << depth;
        self._node_distr_key = mine.str();
        self._parent_distr_key = "";
        if (depth > 0) {
            stringstream theirs;
            theirs << "d_" << depth - 1;
            self._parent_distr_key = theirs.str();
        }
    }
    void RentsCNode_init(RentsCNode& self, shared_ptr<MentsManager> m, St s, Act a, int depth, int t, shared_ptr<const RentsDNode> parent) { ments_cinit(self, m, s, a, depth, t, parent); }
    void TentsCNode_init(TentsCNode& self, shared_ptr<MentsManager> m, St s, Act a, int depth, int t, shared_ptr<const TentsDNode> parent) { ments_cinit(self, m, s, a, depth, t, parent); }
    void TentsDNode_init(TentsDNode& self, shared_ptr<MentsManager> m, St s, int depth, int t, shared_ptr<const TentsCNode> parent) {
        ments_dinit(self, m, s, depth, t, parent);
        double temp = m->temp;
        if (m->temp_decay_fn != nullptr) {
            bool root_scale = depth == 0 && m->temp_decay_root_node_visits_scale > 0.0;
            temp = decayed(m->temp_decay_fn, m->temp, m->temp_decay_min_temp, 0, root_scale ? m->temp_decay_root_node_visits_scale : m->temp_decay_visits_scale);
        }
        for (Act a : *self.actions) {
            double q = m->prior_fn != nullptr ? clamped_log(self.policy_prior->at(a)) + self.psuedo_q_value_offset : sign(self) * m->default_q_value;
            self.act_to_qval[a] = q / temp;
            self.qval_to_act.insert(make_pair(q / temp, a));
        }
        stringstream key;
        key << depth;
        self._selected_action_key = key.str();
    }
    void db_dinit(DBMentsDNode& self, shared_ptr<MentsManager> m, St s, int depth, int t, shared_ptr<const ThtsCNode> parent) {
        ments_dinit(self, m, s, depth, t, parent);
        self.DPDNode::num_backups = 1;
        self.DPDNode::dp_value = self.heuristic_value;
    }
    void db_cinit(DBMentsCNode& self, shared_ptr<MentsManager> m, St s, Act a, int depth, int t, shared_ptr<const ThtsDNode> parent) {
        ments_cinit(self, m, s, a, depth, t, parent);
        self.DPCNode::num_backups = 0;
        self.DPCNode::dp_value = 0.0;
    }
    void DBMentsDNode_init(DBMentsDNode& self, shared_ptr<MentsManager> m, St s, int depth, int t, shared_ptr<const DBMentsCNode> parent) { db_dinit(self, m, s, depth, t, parent); }
    void DBMentsCNode_init(DBMentsCNode& self, shared_ptr<MentsManager> m, St s, Act a, int depth, int t, shared_ptr<const DBMentsDNode> parent) { db_cinit(self, m, s, a, depth, t, parent); }
    void initial_entropy(DentsDNode& self);
    void dents_dinit(DentsDNode& self, shared_ptr<DentsManager> m, St s, int depth, int t, shared_ptr<const ThtsCNode> parent) {
        db_dinit(self, m, s, depth, t, parent);
        self.EmpNode::num_backups = 1;
        self.EmpNode::avg_return = self.heuristic_value;
        initial_entropy(self);
    }
    void dents_cinit(DentsCNode& self, shared_ptr<DentsManager> m, St s, Act a, int depth, int t, shared_ptr<const ThtsDNode> parent) {
        db_cinit(self, m, s, a, depth, t, parent);
        self.EmpNode::num_backups = 0;
        self.EmpNode::avg_return = 0.0;
        self.EntCNode::num_backups = 0;
        self.EntCNode::subtree_entropy = 0.0;
    }
    void DentsDNode_init(DentsDNode& self, shared_ptr<DentsManager> m, St s, int depth, int t, shared_ptr<const DentsCNode> parent) { dents_dinit(self, m, s, depth, t, parent); }
    void DentsCNode_init(DentsCNode& self, shared_ptr<DentsManager> m, St s, Act a, int depth, int t, shared_ptr<const DentsDNode> parent) { dents_cinit(self, m, s, a, depth, t, parent); }
    void EstDNode_init(EstDNode& self, shared_ptr<DentsManager> m, St s, int depth, int t, shared_ptr<const EstCNode> parent) { dents_dinit(self, m, s, depth, t, parent); }
    void EstCNode_init(EstCNode& self, shared_ptr<DentsManager> m, St s, Act a, int depth, int t, shared_ptr<const EstDNode> parent) { dents_cinit(self, m, s, a, depth, t, parent); }

    // ---- child creation: chance children share depth and timestep, decision children are one step deeper
#define CREATE(F, M) \
    shared_ptr<ThtsCNode> F##DNode_create_child(F##DNode& self, Act a) { \
        if (has(self, a)) return self.children.at(a); \
        shared_ptr<F##CNode> c = make_shared<F##CNode>(static_pointer_cast<M>(self.thts_manager), self.state, a, self.decision_depth, self.decision_timestep, static_pointer_cast<const F##DNode>(self.ThtsDNode::shared_from_this())); \
        self.children[a] = c; \
        return c; \
    } \
    shared_ptr<ThtsDNode> F##CNode_create_child(F##CNode& self, Obs o, St next) { \
        if (has(self, o)) return self.children.at(o); \
        if (self.thts_manager->use_transposition_table) { \
            ThtsManager& m = *self.thts_manager; \
            DNodeIdTuple id = make_tuple(self.decision_timestep, o); \
            int i = m.dmap_mutexes.size() > 1 ? hash<DNodeIdTuple>()(id) % m.dmap_mutexes.size() : 0; \
            auto it = m.dmaps[i].find(id); \
            if (it != m.dmaps[i].end()) { \
                shared_ptr<ThtsDNode> known = it->second.lock(); \
                if (known != nullptr) { self.children[o] = known; return known; } \
            } \
            shared_ptr<F##DNode> d = make_shared<F##DNode>(static_pointer_cast<M>(self.thts_manager), static_pointer_cast<const State>(o), self.decision_depth + 1, self.decision_timestep + 1, static_pointer_cast<const F##CNode>(self.ThtsCNode::shared_from_this())); \
            m.dmaps[i][id] = d; \
            self.children[o] = d; \
            return d; \
        } \
        shared_ptr<F##DNode> d = make_shared<F##DNode>(static_pointer_cast<M>(self.thts_manager), static_pointer_cast<const State>(o), self.decision_depth + 1, self.decision_timestep + 1, static_pointer_cast<const F##CNode>(self.ThtsCNode::shared_from_this())); \
        self.children[o] = d; \
        return d; \
    }
    CREATE(Uct, UctManager)
    CREATE(Puct, PuctManager)
    CREATE(Ments, MentsManager)
    CREATE(DBMents, MentsManager)
    CREATE(Dents, DentsManager)
    CREATE(Est, DentsManager)
    CREATE(Rents, MentsManager)
    CREATE(Tents, MentsManager)
}
