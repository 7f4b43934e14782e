// Explicit instantiations of the library's header templates, so that their bodies are analysed as
// resolved programs. Nothing here is ever executed.
#include "distributions/categorical_distribution.h"
#include "distributions/discrete_uniform_distribution.h"
#include "distributions/mixed_distribution.h"
#include "helper_templates.h"
#include "thts_env_context.h"
#include "thts_types.h"
#include <memory>
#include <string>
#include <unordered_map>

template class thts::CategoricalDistribution<int>;
template class thts::DiscreteUniformDistribution<int>;
template class thts::MixedDistribution<int>;
namespace verif_inst {
    struct Any { int x; };
    int use_arg_max(std::unordered_map<int, double>& m, thts::RandManager& r) { return thts::helper::get_max_key_break_ties_randomly(m, r); }
    int use_sample(std::unordered_map<int, double>& m, thts::RandManager& r, bool b) { return thts::helper::sample_from_distribution(m, r, b); }
    std::string use_list(const std::vector<int>& v) { return thts::helper::vector_pretty_print_string(v); }
    std::string use_table(const std::unordered_map<int, double>& m, std::string d) { return thts::helper::unordered_map_pretty_print_string(m, d); }
    void use_put(thts::ThtsEnvContext& ctx, const std::string& key, std::shared_ptr<Any> v) { ctx.put_value<Any>(key, v); }
    void use_put_const(thts::ThtsEnvContext& ctx, const std::string& key, std::shared_ptr<const Any> v) { ctx.put_value_const<Any>(key, v); }
    void use_get(thts::ThtsEnvContext& ctx, const std::string& key) { ctx.get_value<Any>(key); }
    void use_get_ptr(thts::ThtsEnvContext& ctx, const std::string& key) { ctx.get_value_ptr<Any>(key); }
    void use_get_const(thts::ThtsEnvContext& ctx, const std::string& key) { ctx.get_value_const<Any>(key); }
    void use_get_ptr_const(thts::ThtsEnvContext& ctx, const std::string& key) { ctx.get_value_ptr_const<Any>(key); }
}
