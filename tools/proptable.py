UCTF = ['src/algorithms/uct/uct_decision_node.cpp', 'src/algorithms/uct/uct_chance_node.cpp', 'src/algorithms/uct/puct_decision_node.cpp', 'src/algorithms/uct/puct_chance_node.cpp']
MF = ['src/algorithms/ments/ments_decision_node.cpp', 'src/algorithms/ments/ments_chance_node.cpp']
DBF = ['src/algorithms/ments/dbments_decision_node.cpp', 'src/algorithms/ments/dbments_chance_node.cpp']
DF = ['src/algorithms/ments/dents/dents_decision_node.cpp', 'src/algorithms/ments/dents/dents_chance_node.cpp']
EF = ['src/algorithms/est/est_decision_node.cpp', 'src/algorithms/est/est_chance_node.cpp']
RF = ['src/algorithms/ments/rents/rents_decision_node.cpp', 'src/algorithms/ments/rents/rents_chance_node.cpp']
TF = ['src/algorithms/ments/tents/tents_decision_node.cpp', 'src/algorithms/ments/tents/tents_chance_node.cpp']
CF = ['src/algorithms/common/' + f for f in ('dp_decision_node.cpp', 'dp_chance_node.cpp', 'emp_node.cpp', 'ent_decision_node.cpp', 'ent_chance_node.cpp', 'decaying_temp.cpp')]
BASE = ['src/thts_decision_node.cpp', 'src/thts_chance_node.cpp']
ALLN = UCTF + MF + DBF + DF + EF + RF + TF
RUNT = 'Tests exercise a few small grid worlds with one or two parameter settings and compare loosely (most only run trials and print); they sample a handful of node states, while this must hold for every reachable node state, action set, value and option.'

PF = ['src/thts.cpp', 'include/thts.h']
LKT = 'static lockset / typestate / lock-order dataflow on the clang AST of /repo: a context-sensitive value-flow analysis records every access, lock, unlock, wait, notify, spawn and join with the lock set held, and the rules are decided on that event structure (no execution)'
LKN = 'Sound for accesses reached from the analysed entry points (pool workers, pool API, node interface, evaluator threads) under the stated aliasing model of nodes (parent, child, transposed child).'
SCHED = 'The tests run short multi-threaded searches on a few schedules of one machine; a missing lock, a lock cycle or a lost wake-up only shows in particular interleavings.'
prop('C01', 'Node state is only touched while that node\'s lock is held',
 'While a search runs, every read and write of a node\'s mutable state (visit and backup counts, value estimates, children, per-algorithm maps, and the children\'s estimates read during backup or selection) happens with that node\'s own lock held, by every algorithm, including reads of the root by the pool and loggers. (Recommending and printing are meant for between runs.) So no update is lost and no torn or half-updated estimate is used, whatever the interleaving.',
 ['schedules', 'histories', 'configurations'], 'every interleaving of any number of worker threads, all 8 algorithms', SCHED, BASE + ALLN + PF, [('node locking', 'lock/unlock, lock_all_children and the guards in each *_itfc caller'), ('pool', 'ThtsPool::run_selection_phase, run_backup_phase, try_log')], technique=LKT, note=LKN)
prop('C02', 'Every lock taken is released on every path, and never taken twice',
 'Each pool, node, random-generator, evaluator and transposition operation returns (also when it throws, returns early or leaves a loop) with exactly the locks it was entered with: nothing stays locked, nothing is unlocked that was not locked, and no thread locks a non-recursive mutex it already holds.',
 ['schedules', 'inputs', 'histories'], 'every path through every public operation, including exceptional ones', SCHED, BASE + ALLN + PF + ['src/mc_eval.cpp', 'include/thts_manager.h'], [('lock pairs', 'lock_guard/unique_lock/lock()/unlock() uses, lock_all_children / unlock_all_children')], technique=LKT, note=LKN)
prop('C03', 'Locks are always taken in one global order, so threads cannot deadlock',
 'No two threads can wait for each other\'s locks: whenever a lock is requested while others are held, it lies later in one fixed order of lock classes (parent before child, children in one agreed order, tables and random generators after nodes), and nothing blocks on a condition variable or on another thread while holding a lock others need.',
 ['schedules', 'configurations'], 'every interleaving, including trees whose chance nodes share children through the transposition table', SCHED, BASE + ALLN + PF + ['src/mc_eval.cpp', 'include/thts_manager.h'], [('nested locking', 'lock_all_children, get_child under lock, create_child_node_itfc, RandManager')], technique=LKT, note=LKN)
prop('C04', 'State shared by worker threads is protected by a common lock',
 'The pool\'s budget and bookkeeping (remaining trials, busy threads, alive flag, run start and limit, logger, tree and manager), the random generators, the evaluator\'s results and each stripe of the transposition table are only accessed, once threads run, under one mutex common to all accesses of that state, so concurrent trials, logging, joins, new runs and environment changes never race.',
 ['schedules', 'histories'], 'every interleaving of workers with callers of the pool and evaluator API', SCHED, PF + ['include/thts_manager.h', 'src/mc_eval.cpp', 'src/thts_chance_node.cpp'], [('common lock', 'work_left_lock, logging lock, random generator locks, evaluator lock, dmap_mutexes')], technique=LKT, note=LKN)
prop('C05', 'No wake-up is lost: waiting workers and joins always get notified',
 'Whenever a change can make a waiting thread\'s condition true (new trials, shutdown, the last trial finishing, a worker going idle), the waiters are notified after the change, waits re-check their condition under its lock, and a wait that depends on elapsing time is bounded. Destroying the pool wakes and joins every worker thread, and an evaluator run joins all its threads before results are used.',
 ['schedules', 'histories'], 'every interleaving of run_trials, join, timeouts, set_new_env and destruction', SCHED, PF + ['src/mc_eval.cpp'], [('wait/notify pairs', 'work_left_cv in worker_fn, run_trials, join, set_new_env, ~ThtsPool'), ('thread joins', '~ThtsPool, MCEvaluator::run_rollouts')], technique=LKT, note=LKN)
prop('C06', 'A run performs exactly its trial budget unless it runs out of time',
 'Each run publishes a fresh budget of trials and time; each trial claimed by a worker takes exactly one from it, none is claimed once the trials or the time are used up, and a blocking run, join or environment change returns only when no work is left and no trial is in flight. Replacing the environment is refused while work is left. Completed trials are counted and logged once each. Left out, a run\'s limits default to an unlimited number of trials and time, and runs and environment changes block.',
 ['schedules', 'histories', 'configurations'], 'any number of threads, runs, budgets and time limits', 'Tests run a few budgets to completion and never look at the moment of claiming; exceeding or losing trials depends on threads racing at the end of the budget or on the time limit.', PF, [('claiming', 'ThtsPool::worker_fn, work_left'), ('publishing', 'ThtsPool::run_trials'), ('completion', 'ThtsPool::join, set_new_env, try_log')])
prop('C07', 'The selection phase is one walk from the root that stops where configured',
 'A trial walks from the root, at each step visiting the decision node, letting it select an action, visiting that action\'s node, sampling an outcome there and moving to that outcome\'s node, recording each (decision node, action node) pair and the environment\'s reward for exactly that step in order. It stops only at a leaf or, in MCTS mode, right after a new outcome node was added; the last node is visited and its heuristic value closes the list of rewards.',
 ['inputs', 'histories', 'configurations'], 'every tree, environment, depth limit and mode', RUNT, PF, [('walk', 'ThtsPool::run_selection_phase'), ('stop rule', 'ThtsPool::should_continue_selection_phase')])
prop('C08', 'The backup phase hands every visited node its own return, leaf to root',
 'After the walk every visited action node and decision node is backed up exactly once, deepest first and the action node before its decision node; each gets the rewards before it, the rewards from it onwards, the return from it onwards (including its own reward and the final heuristic value) and the total return of the trial. Each trial uses a fresh context, shared by its selection and backup phases.',
 ['inputs', 'histories'], 'every trial length, every sequence of rewards', RUNT, PF, [('splitting rewards', 'ThtsPool::run_backup_phase'), ('trial', 'ThtsPool::run_thts_trial')])

prop('C09', 'New nodes start in the defined initial state, one step deeper than the parent',
 'Whenever the search adds a node, the node has the same manager as its parent, the state/action it stands for, the parent it hangs from, and the depth and timestep of its place in the tree (an action node shares its parent\'s, an outcome\'s decision node is exactly one deeper and one later). Its counters and value estimates start at the values its algorithm defines from the heuristic, prior and default-value options (including pseudo trials, shifted pseudo values and initial entropies), and its action list, policy prior, reward and outcome distribution are those of the environment for exactly that state and action.',
 ['inputs', 'configurations', 'histories'], 'every node of every tree, every environment, every manager configuration, all 8 algorithms',
 'The tests build nodes for a few states of one toy environment and check a few fields; they never vary heuristic, prior and shift options together.',
 BASE + ALLN, [('node constructors', 'each *DNode::*DNode / *CNode::*CNode'), ('child creation', 'ThtsDNode::create_child_node_itfc, ThtsCNode::create_child_node_itfc and each create_child_node_helper')],
 observe=('decision_depth', 'decision_timestep', 'state', 'num_visits'))
prop('C10', 'Each action or outcome chosen in a trial has exactly one, never replaced, child',
 'After a decision node selects an action, or an action node samples an outcome, that action/outcome is present among the node\'s children, children that already existed are still the same objects, and at most one child (the chosen one) was added. Asking a node to create a child that already exists returns the existing child and changes nothing. Membership, lookup and number-of-children queries agree with the actual children.',
 ['inputs', 'histories', 'configurations'], 'every node state, every selected action or sampled outcome, all 8 algorithms',
 RUNT, BASE + ALLN, [('guarded creation', 'select_action / sample_observation of each node class'), ('create-if-absent', 'create_child_node_itfc')])
prop('C11', 'With transpositions on, equal (timestep, outcome) pairs share one node',
 'When the transposition table is enabled, a newly needed decision node is looked up by its timestep and outcome: if a live node for that pair exists that very node becomes the child, otherwise exactly one new node is created, registered under that pair and used as the child. Nodes for different pairs are never confused, and the lock striping never changes which node is found.',
 ['inputs', 'histories', 'configurations'], 'every table content, every number of table mutexes, all 8 algorithms',
 'One test enables the table on one grid and only counts nodes; expiry of entries, striping and collisions of buckets are not sampled.',
 ['src/thts_chance_node.cpp', 'include/thts_manager.h'], [('lookup and registration under the stripe lock', 'ThtsCNode::create_child_node_itfc')], state=[('dmaps', 'transposition table stripes', 'ThtsManager')])
prop('C12', 'Visits and backups are counted exactly once each',
 'Each time a trial visits a node its visit count grows by exactly one, and each time a trial backs a node up every backup count that the algorithm keeps for the estimate it just updated grows by exactly one; a leaf visited by a trial counts as backed up in the soft-value and dynamic-programming algorithms. No other count changes, and no count ever decreases.',
 ['inputs', 'histories', 'configurations'], 'every node state, every return, all 8 algorithms and their options', RUNT, BASE + ALLN + CF, [('visit', 'visit of every node class'), ('backup', 'backup of every node class')])
prop('C13', 'Stored average returns are the running mean of the returns backed up',
 'In UCT, PUCT and in DENTS/EST when they use empirical values, after a backup with a return the stored average equals (old average times old count plus that return) divided by (old count plus one), using only the part of the return from the node onwards. When DENTS/EST use dynamic-programming values instead, the empirical average is left unchanged.',
 ['inputs', 'histories', 'configurations'], 'every node state and every sequence of returns', RUNT, UCTF + DF + EF + ['src/algorithms/common/emp_node.cpp'], [('incremental mean', 'backup of UCT nodes, EmpNode::backup_emp')])
prop('C14', 'Dynamic-programming backups are exact Bellman backups over visited children',
 'After a backup, a decision node\'s dynamic-programming value is the maximum (the minimum when the opponent moves) over its children that have been backed up at least once, and an action node\'s is its reward plus the backup-count-weighted mean over its outcome children. The result depends on nothing else, in particular not on the order of the children.',
 ['inputs', 'histories', 'configurations'], 'every set of children, values and counts, DB-MENTS, DENTS and EST', RUNT, DBF + DF + EF + CF, [('max/min over children', 'DPDNode::backup_dp'), ('weighted mean', 'DPCNode::backup_dp')])
prop('C15', 'Soft-value backups compute the algorithm\'s soft maximum and weighted mean',
 'After a backup a MENTS/DB-MENTS decision node holds temperature times log-sum-exp of its action values over temperature, RENTS the same weighted by the parent\'s policy, TENTS temperature times the sparse-max value, and DENTS its value estimate plus value-temperature times subtree entropy; an action node holds its reward plus the backup-count-weighted mean soft value of its outcomes (DENTS: value estimate plus weighted entropy). Values are those of the player to move, and untried actions use the prior-based or default value. Weights are computed relative to the largest term, so no exponential overflows and the largest never vanishes.',
 ['inputs', 'histories', 'configurations'], 'every action set, set of children, value, temperature schedule and option', RUNT, MF + DBF + DF + EF + RF + TF, [('log-sum-exp with max subtraction', 'MentsDNode::backup_soft, compute_action_weights'), ('weighted mean', 'MentsCNode::backup_soft'), ('sparse max', 'TentsDNode::spmax')])
prop('C16', 'MENTS-family search samples actions from exactly the published policy',
 'At every visit the action is drawn from (1-lambda) times the algorithm\'s policy (Boltzmann of the values over temperature for MENTS/DB-MENTS/DENTS/EST, relative-entropy for RENTS, sparse for TENTS), optionally mixed with the prior policy, plus lambda times uniform, where lambda is epsilon over log(visits+1) capped at the configured maximum. The values are those of the player to move, root-specific epsilon and decay scale apply at the root only, and only actions of negligible probability are dropped.',
 ['inputs', 'histories', 'configurations'], 'every node state, temperature, option setting and action set for the six soft algorithms', RUNT, MF + DBF + DF + EF + RF + TF, [('weights', 'compute_action_weights of each class'), ('mixture', 'MentsDNode::compute_action_distribution'), ('sampling', 'MentsDNode::select_action')])
prop('C17', 'UCT/PUCT try every action once, then maximise the published score',
 'With the configured exploration probability a uniformly drawn action is chosen; otherwise, without a prior, a node with untried actions picks uniformly among exactly those; otherwise the action maximises mean value (for the player to move) plus bias times prior times sqrt(log N / n) for UCT or N^power / n for PUCT. In automatic-bias mode the bias is the largest absolute child value (at least the fixed minimum), and untried actions count as value zero with one visit.',
 ['inputs', 'histories', 'configurations'], 'every node state, number of actions, prior, bias and option', 'Tests check the formulas for a few numbers; they do not vary the prior, automatic bias, two-player and exploration options against arbitrary node states.', UCTF, [('score', 'UctDNode::fill_ucb_values, compute_ucb_term'), ('selection', 'UctDNode::select_action')])
prop('C18', 'DENTS subtree entropies are the exact entropy backups of the current policy',
 'After a DENTS backup a decision node\'s local entropy is the Shannon entropy of its current search policy, and its subtree entropy is that entropy (negated for the opponent) plus the policy-weighted subtree entropies of its children; an action node\'s subtree entropy is the backup-count-weighted mean over its outcomes. New nodes start with the entropy of their initial policy and zero-probability actions contribute nothing.',
 ['inputs', 'histories', 'configurations'], 'every policy, set of children and count', RUNT, DF + EF + CF, [('entropy backups', 'EntDNode::backup_ent, EntCNode::backup_ent')])
prop('C19', 'Recommended actions follow the configured criterion',
 'A recommendation is always a legal action of the node: the most visited child when so configured, otherwise the child of best value for the player to move (mean return in UCT/PUCT, soft value in MENTS/RENTS/TENTS, dynamic-programming or empirical value in DB-MENTS/DENTS/EST), preferring children that reach the configured visit threshold. Ties are broken uniformly at random, and with no child to judge by a legal action is drawn at random; recommending never changes the tree.',
 ['inputs', 'histories', 'configurations'], 'every node state and option, all 8 algorithms', RUNT, ALLN + CF, [('criteria', 'recommend_action and recommend_action_best_* of each class')])
prop('C20', 'In two-player games the opponent moves at odd timesteps and negates preferences',
 'A node is an opponent node exactly when the game is two-player and its timestep is odd. There, action selection, recommendation and every backed-up value are computed with the sign of the values flipped (minimising instead of maximising), while stored values stay from the first player\'s point of view.',
 ['inputs', 'histories', 'configurations'], 'every opponent node of every algorithm, any values and options', 'The only two-player tests play one tiny game with UCT; the other algorithms are never run with an opponent.', BASE + ALLN + CF, [('opponent test', 'ThtsDNode::is_opponent'), ('opponent coefficient', 'select/backup/recommend of each class')])
prop('C30', 'TENTS keeps its two action-value indices describing the same values',
 'In every TENTS node the action-to-value index and the value-ordered index always contain each legal action exactly once with the same value, starting from the initial values of the actions. A backup refreshes exactly the action selected in that trial, leaves every other entry alone, and the sparse support is taken from the ordered index in decreasing order of value.',
 ['inputs', 'histories'], 'every action set, value (including equal values) and selected action', RUNT, TF, [('paired updates', 'TentsDNode::backup'), ('construction', 'TentsDNode::TentsDNode')])
prop('C32', 'Leaves, sinks and heuristic values bound the search as configured',
 'A decision node is a leaf exactly when its state is a sink of the environment or its depth has reached the configured maximum depth. A node of a sink state has heuristic value zero; any other node has the value of the configured heuristic for its state, or zero if there is none, and the algorithm\'s initial estimates use exactly that value.',
 ['inputs', 'configurations'], 'every state, depth, environment and heuristic', RUNT, BASE + ALLN, [('leaf test', 'ThtsDNode::is_leaf'), ('heuristic', 'ThtsDNode::ThtsDNode')])

MISC = 'Unit tests check a few hand-picked calls; the guarantee is about every value, option and call sequence.'
MGRS = ['include/thts_manager.h', 'include/algorithms/uct/uct_manager.h', 'include/algorithms/uct/puct_manager.h', 'include/algorithms/ments/ments_manager.h', 'include/algorithms/ments/dents/dents_manager.h']
AST = 'static AST / value-flow rule over every library function of /repo (no execution)'
prop('C21', 'Temperature schedules start at their initial value and respect their floor',
 'A decayed temperature is the initial temperature times the schedule at (scale times visits), never below the configured minimum; the three provided schedules are 1/sqrt(1+x), 1/log(e+x) and the normalised sigmoid, all equal to one at zero. Each soft algorithm uses its own configured schedule, initial value, floor and visit scale (the root-specific scale at the root when set), and the plain temperature when no schedule is set.',
 ['inputs', 'configurations'], 'every schedule, visit count, scale, floor and depth', RUNT, ['src/algorithms/common/decaying_temp.cpp'] + MF[:1] + DF, [('schedules', 'compute_decayed_temp, decayed_temp_*'), ('use', 'MentsDNode::get_temp, DentsDNode/DentsCNode::get_value_temp')])
prop('C22', 'Every random choice comes from the seeded random manager',
 'All random choices made by the library (action selection, tie breaking, sampling, evaluation) are drawn from a RandManager, so a run with one thread and a fixed non-zero seed is determined by that seed; seed zero asks for fresh entropy. The library keeps no state in static or global variables, so a result does not depend on earlier runs in the process. A random integer lies in [min,max) and a random real comes from the uniform distribution on [0,1).',
 ['inputs', 'histories', 'configurations'], 'every draw of every library function', 'Tests only sample some draws with one seed; a stray generator or a wrong range in a rarely taken branch is not seen.', ['include/thts_manager.h', 'src/helper_templates.cc'], [('generator', 'RandManager'), ('users', 'every call of get_rand_int / get_rand_uniform')], technique='static call-graph rule (no other randomness source reachable) plus value-flow comparison of RandManager with a reference transition', note='Determinism is claimed for what the library draws; user environments must use the manager they are given.')
prop('C23', 'Every option given to a manager takes effect unchanged, with documented defaults',
 'Options left out have their documented default, and each manager (base, UCT, PUCT, MENTS, DENTS) stores every option of its argument object, including inherited ones, in the member the search reads, without altering, dropping or mixing them up; one transposition stripe exists per configured mutex.',
 ['inputs', 'configurations'], 'every combination of options of all five managers', MISC, MGRS, [('defaults', '*ManagerArgs constructors'), ('copying', '*Manager constructors')])
prop('C24', 'Equality and hashing of states, actions and table keys agree',
 'States, observations and actions compare equal exactly when they are of the same kind and have the same contents, also behind shared pointers and as table keys (timestep and observation); their hash depends only on what equality compares. So looking up an equal key always finds the entry, and different ones are never confused.',
 ['inputs'], 'every pair of states, observations, actions and keys', MISC, ['src/thts_types.cpp', 'include/thts_types.h', 'include/helper_templates.h', 'src/helper_templates.cc'], [('equality', 'equals, equals_itfc, std::equal_to specialisations'), ('hashing', 'hash, std::hash specialisations, hash_combine')])
prop('C25', 'Queries leave nodes, environments, contexts and results unchanged',
 'Asking a node for a recommendation, its children, its number of visits or children, whether it is a leaf, sink, root or opponent node, or for its printed form changes nothing in the tree; nor do context look-ups, environment defaults, evaluator statistics, the work-left test, or comparing, hashing and printing states and actions. (The random manager may advance.)',
 ['inputs', 'histories'], 'every query on every reachable object, all 8 algorithms', MISC, BASE + ALLN + ['src/mc_eval.cpp', 'src/thts_env_context.cpp', 'src/thts_env.cpp', 'src/thts_types.cpp'], [('queries', 'recommend_action*, get_*, has_*, is_*, hash, equals')], technique='static effect (purity) analysis by value flow: the post-state of every location equals its pre-state')
prop('C26', 'Monte-Carlo evaluation runs the requested rollouts and reports their statistics',
 'Evaluating with any number of threads runs exactly the requested number of rollouts, each thread following its own copy of the policy; each rollout starts at the initial state and root, follows the policy until a sink or the maximum length, and adds exactly one return, the sum of the rewards seen. The reported mean and standard deviation are the sample mean and the Bessel-corrected sample standard deviation of all returns so far.',
 ['inputs', 'schedules', 'configurations'], 'every environment, policy, rollout length and thread count', 'Tests run an evaluator on one toy environment; length limits, thread counts that do not divide the number of rollouts and context lifetime are not sampled.', ['src/mc_eval.cpp', 'include/mc_eval.h'], [('rollout', 'MCEvaluator::run_rollout'), ('split', 'run_rollouts, thread_run_rollouts'), ('statistics', 'get_mean_return, get_stddev_return')])
prop('C27', 'The evaluation policy follows the tree and acts uniformly once it has left it',
 'From a reset the policy is at the root; each step moves it to the child for exactly the action taken and outcome seen, and once either is not in the tree it stays outside until the next reset. Inside the tree it takes the node\'s recommendation, outside a uniformly random legal action of the current state.',
 ['inputs', 'histories'], 'every tree and every sequence of steps', MISC, ['src/mc_eval.cpp'], [('policy', 'EvalPolicy::reset, get_action, update_step, get_random_action')])
prop('C28', 'A context returns exactly what was last put under a key',
 'Values put in a context are returned under the same key until replaced or erased; mutable and const values live in separate spaces and never hide each other, other keys are unaffected, and typed accessors return the very object that was put.',
 ['inputs', 'histories'], 'every sequence of puts, gets and erases', MISC, ['src/thts_env_context.cpp', 'include/thts_env_context.h'], [('store', 'ThtsEnvContext get/put/erase')])
prop('C29', 'Loggers record each due entry once, with the root\'s values at that moment',
 'A logger counts every completed trial, asks for an entry exactly when the configured number of trials or amount of running time has passed since the last one of that kind, adds up the running time of runs that used up their trials, and each entry holds the elapsed time and the root\'s current counts and value for its algorithm. Written output has one header with the algorithm\'s columns and one row per entry, in order and in column order.',
 ['inputs', 'histories', 'configurations'], 'every sequence of trials, runs and intervals; base, UCT, MENTS and DB-MENTS loggers', MISC, ['src/thts_logger.cpp', 'src/algorithms/uct/uct_logger.cpp', 'src/algorithms/ments/ments_logger.cpp', 'src/algorithms/ments/dbments_logger.cpp'], [('when', 'ThtsLogger::should_log, reset_start_time, update_prior_runtime'), ('what', 'log, *LoggerEntry'), ('output', 'write_to_ostream')])
prop('C31', 'Environments that define no observations are fully observable',
 'Unless an environment overrides it, the observation of a state is that state with probability one, sampling an observation returns the state, asking for an observation distribution of a partially observable environment without defining one is an error, and a fresh empty context is produced for each trial.',
 ['inputs', 'configurations'], 'every environment, state and action', MISC, ['src/thts_env.cpp'], [('defaults', 'ThtsEnv::get_observation_distribution_itfc, sample_observation_distribution_itfc, sample_context_itfc')])
prop('C33', 'Every member that is read is initialised by every constructor',
 'After constructing any library object (nodes, managers, pools, loggers, evaluators, distributions) no scalar member that any operation reads holds an indeterminate value, whichever constructor and arguments were used, and no constructor computes a member from one that is not yet initialised.',
 ['inputs', 'configurations'], 'every constructor of every library class and every argument', 'An uninitialised member usually happens to be zero in a test process; only some histories of the allocator expose it.', ['src/thts_logger.cpp', 'src/thts.cpp', 'include/thts_manager.h'] + BASE + ALLN, [('constructors', 'every constructor of the library')], technique='static definite-initialisation dataflow over every constructor, with the set of members read anywhere')
prop('C34', 'Sampling and arg-max helpers respect their weights and break ties uniformly',
 'The arg-max helper returns a key of maximal value, chosen uniformly among all such keys, for any values including infinities. The sampler returns the first item at which the accumulated weight (divided by the total when the weights are not normalised) exceeds one uniform draw, so each item is returned with its weight; weights declared as not normalised never raise a mass error while an item is picked.',
 ['inputs'], 'every map of keys and weights', MISC, ['src/helper_templates.cc', 'include/helper_templates.h'], [('arg max', 'get_max_key_break_ties_randomly'), ('sampling', 'sample_from_distribution')])
prop('C35', 'Distribution objects always sample the weights they currently hold',
 'Setting a weight, adding an outcome or replacing the whole distribution takes effect on sampling at once without an alias table, and with one at the latest after the configured number of updates (at once for new outcomes and whole replacements). The alias table always has one entry per outcome and encodes exactly the scaled weights; uniform and mixture distributions pick their component with the stated probability.',
 ['inputs', 'histories', 'configurations'], 'every sequence of updates, weights, sizes and table frequencies', MISC, ['src/distributions/categorical_distribution.cc', 'src/distributions/discrete_uniform_distribution.cc', 'src/distributions/mixed_distribution.cc'], [('table', 'CategoricalDistribution::construct_alias_table, reconstruct_alias_table'), ('updates', 'CategoricalDistribution::update')])
prop('C36', 'No reference or iterator outlives what it refers to',
 'No library function uses a reference or pointer to an object whose only owner was a temporary smart pointer (for example a context, action list or prior handed over by the environment), restructures a container while iterating over it, or keeps using a reference to a vector element after the vector was changed.',
 ['inputs', 'histories'], 'every path of every library function', 'Use after free of a small object often returns the old value in a test process.', BASE + ALLN + PF + ['src/mc_eval.cpp', 'src/thts_logger.cpp'], [('borrowed references', 'every reference bound to the target of a smart pointer or container element'), ('loops', 'every range loop over a container')], technique='static lifetime / ownership analysis: borrowed references and iterators tracked through the value-flow of every library function')
prop('C37', 'Dropping the last handle to a tree frees it: nodes never own their ancestors',
 'Nodes own their children and nothing that leads back to nodes: parents and the transposition table are referred to weakly, and nothing a node keeps alive (manager, environment, priors, tables) keeps nodes alive. So a tree is freed when its root is released and its manager is released with it, however it was built.',
 ['histories', 'configurations'], 'every tree, with or without transpositions', 'No test looks at reclamation; a leak only shows as memory growth over many searches.', ['include/thts_decision_node.h', 'include/thts_chance_node.h', 'include/thts_types.h', 'include/thts_manager.h'], [('weak links', 'parent members, DNodeTable')], technique='static ownership-graph analysis over the member types of all classes reachable from nodes', note='Type-level: owning cycles built by user-defined environments or std::function captures are outside it.')
prop('C38', 'Printing shows exactly the tree\'s nodes, values and visits to the depth asked',
 'Printing a node shows its value and number of visits, each child once under its own action or outcome, recursively for the requested number of decisions, marks a cut-off non-leaf node with dots, and indents by depth. The value shown is the one the algorithm maintains. Streaming a state, observation, action, list, distribution or table key writes exactly its own printed form; printing never fails on a declared type.',
 ['inputs', 'histories'], 'every tree, depth, state, action, list and distribution; all 8 algorithms', MISC, BASE + ALLN + ['src/thts_types.cpp', 'src/helper_templates.cc'], [('trees', 'get_pretty_print_string, get_pretty_print_string_helper, get_pretty_print_val'), ('values', 'operator<<, helper pretty print functions')])
prop('C40', 'Searches converge to the optimal action as trials grow',
 'With unbounded trials the recommended action of UCT, PUCT, DENTS, EST and DB-MENTS converges to an optimal one.', ['histories', 'schedules'], 'every finite environment, in the limit of trials',
 'Convergence is asymptotic and probabilistic.', ALLN, [('search', 'select/backup of all nodes')], na='Asymptotic, probabilistic statement about runtime quantities; no static argument over the source can bound it. The per-step update rules it rests on are decided by C12-C18.')
prop('C41', 'Sampled frequencies match the configured probabilities',
 'Over many draws actions, outcomes and distribution samples appear with their stated probabilities, independently of each other.', ['histories'], 'every distribution, in the limit of draws',
 'Statistical; tests only look at loose bounds.', ['src/helper_templates.cc', 'include/thts_manager.h'], [('generator', 'RandManager')], na='Depends on the statistical quality of the random generator at run time (and on a modulo bias of get_rand_int); static analysis only decides which value is returned for which draw (C16, C34, C35).')
prop('C42', 'A timed run stops within one trial of its time limit',
 'With a time limit a run ends, for each thread, after the trial in progress when the limit passes.', ['schedules', 'configurations'], 'every environment and machine speed',
 'Depends on wall-clock behaviour.', PF, [('time check', 'ThtsPool::work_left')], na='Wall-clock latency of trials and of the scheduler is a runtime quantity; the check made before each claim is decided by C06 and the bounded waits by C05.')
prop('C43', 'Memory use stays proportional to the nodes visited',
 'A search allocates at most one decision node and one action node per step of a trial and keeps nothing else.', ['histories'], 'every search', 'Tests do not measure memory.', PF + BASE, [('allocation', 'create_child_node_itfc')], na='A bound on heap use over a run is a runtime quantity; creation of at most one child per step is decided by C09/C10 and freedom from ownership cycles by C37.')
