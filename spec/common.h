// Shared pieces of the reference transitions (see uct.cpp for what they are).
#pragma once
#include "thts_manager.h"
#include "thts_decision_node.h"
#include "thts_chance_node.h"
#include "helper_templates.h"
#include "algorithms/common/decaying_temp.h"
#include <cmath>
#include <limits>
namespace vspec {
    using namespace std;
    using namespace thts;
    typedef shared_ptr<const Action> Act;
    typedef shared_ptr<const Observation> Obs;
    // two player games: the opponent moves at odd timesteps
    inline bool opponent(const ThtsDNode& self) { return self.thts_manager->is_two_player_game && (self.decision_timestep % 2) != 0; }
    inline double sign(const ThtsDNode& self) { return opponent(self) ? -1.0 : 1.0; }
    inline bool transposition(const ThtsCNode& self) { return self.thts_manager->use_transposition_table && self.thts_manager->dmaps.size() == self.thts_manager->dmap_mutexes.size() && self.thts_manager->dmaps.size() > 0; }
    inline bool no_transposition(const ThtsCNode& self) { return !self.thts_manager->use_transposition_table; }
    inline bool leaf(const ThtsDNode& self) {
        if (self.thts_manager->thts_env->is_sink_state_itfc(self.state)) return true;
        return self.decision_depth >= self.thts_manager->max_depth;
    }
    inline bool has(const ThtsDNode& self, Act a) { return self.children.count(a) > 0; }
    inline bool has(const ThtsCNode& self, Obs o) { return self.children.count(o) > 0; }
    // decayed temperature: f applied to the scaled visit count, never below the minimum
    inline double decayed(TempDecayFnPtr f, double init, double lo, int visits, double scale) {
        double t = init * f(scale * visits);
        return t < lo ? lo : t;
    }
}
