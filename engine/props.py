"""The properties and their obligations."""
import re
from obl import *

PROPS = {}
def prop(pid):
    def deco(f): PROPS[pid] = f; return f
    return deco

MENTS = ['Ments', 'DBMents', 'Dents', 'Est', 'Rents', 'Tents']
UCT = ['Uct', 'Puct']
DP = ['DBMents', 'Dents', 'Est']
COUNT = {'num_visits', 'num_backups'}
AVG = {'avg_return'}
DPV = {'dp_value'}
ENT = {'local_entropy', 'subtree_entropy'}
MAPS2 = {'act_to_qval', 'qval_to_act'}
BACK = COUNT | AVG | DPV | ENT | MAPS2

NARROW = {'float', 'short', 'unsigned short', 'char', 'unsigned char', 'signed char'}
def widths(names):
    def go(core):
        """the members holding these quantities can hold every value they are counted/averaged to: no float, short or char"""
        out = []
        for c in core.p.classes.values():
            if not any(b in NODES for b in core.p.bases(c['n'])): continue
            for fl in c['fields']:
                if fl['n'] not in names and not names == 'any': continue
                t = strip_type(fl['t'])
                if t in NARROW:
                    f = core.ctor(c['n']); out.append(res(f, 'range of %s::%s' % (c['n'], fl['n']), False, 'declared %s: too narrow' % fl['t']))
                else: out.append((c['n'], fl['n'], t))
        bad = [o for o in out if isinstance(o, dict)]
        return bad or [res(core.fn('thts::ThtsDNode::create_child_node_itfc'), 'range of the stored quantities', True, '%d members are int/double wide' % len(out))]
    return go
@prop('C12')
def counters(core):
    o = []
    for f in FAMILIES:
        for k in 'DC':
            o.append(node(f, k, 'visit'))
            o.append(node(f, k, 'backup', only=COUNT))
    o.append(Obl('width of counters', widths(COUNT)))
    return o

@prop('C13')
def averages(core):
    o = []
    for f in UCT + ['Dents', 'Est']:
        for k in 'DC': o.append(node(f, k, 'backup', only=AVG | ({'num_backups'} if f in UCT else set())))
    o.append(Obl('width of averages', widths(AVG)))
    return o

@prop('C14')
def dp(core):
    o = []
    for f in DP:
        for k in 'DC': o.append(node(f, k, 'backup', only=DPV))
    o.append(Obl('width of values', widths(DPV)))
    return o

@prop('C15')
def soft(core):
    o = []
    for f in MENTS:
        for k in 'DC': o.append(node(f, k, 'backup', skip=BACK))
    return o

def soft_nodes(ms, fams=FAMILIES, **kw):
    """the given methods for every family that has a reference transition for them"""
    o = []
    for f in fams:
        for k, m in ms:
            if specname(f, k, m): o.append(node(f, k, m, **kw))
    return o

@prop('C09')
def creation(core):
    o = []
    for f in FAMILIES:
        for k in 'DC':
            c = D(f) if k == 'D' else K(f)
            o.append(INIT(c, '%s%sNode_init' % (f, k), f, nmin=5, weight=8 if f in ('Dents', 'Est') else 2))
            o.append(T(c, 'create_child_node_itfc', '%s%sNode_create_child' % (f, k), f, opaque=create_opaque, weight=6, pre=one_table, assume=not_transposed if k == 'C' else None))
    return o

def not_transposed(core):
    return core.term('no_transposition', 'thts::ThtsCNode')
STRIPES = {'thts::ThtsManager::dmaps', 'thts::ThtsManager::dmap_mutexes'}
def one_table(it):
    """the stripes together are one table: which stripe an entry lives in does not matter, as long as it is a function of the entry's key (see stripes)"""
    it.onevec = set(STRIPES)
def stripes(core):
    """the stripe used for a key exists and depends on the key and the number of stripes only"""
    r = core.run_method(K('Uct'), 'create_child_node_itfc', 'Uct', opaque=create_opaque)
    out = []; n = 0
    this = mk('this'); obs = mk('sym', 'arg0')
    mgr = mk('init', mk('fld', this, 'thts::ThtsCNode::thts_manager'))
    sz = [TT.mk('size', mk('init', mk('fld', mgr, x))) for x in sorted(STRIPES)]
    key = {mk('init', mk('fld', this, 'thts::ThtsCNode::decision_timestep')): mk('sym', 'key0'), mk('call', 'thts::Observation::hash', obs): mk('sym', 'key1')}
    key.update({z: mk('sym', 'key2') for z in sz})
    assume = transposed(core)
    first = None
    for e in r.events:
        if e.kind != 'index' or e.loc.op != 'fld' or e.loc.args[1] not in STRIPES: continue
        n += 1
        def fact(w, ok, d):
            if ok is True: return
            x = res(r.fn, w, ok, d); x['line'] = e.line; out.append(x)
        t = subst(e.idx, key)
        left = [x for x in subterms(t) if x.op in ('this', 'init', 'unk', 'undef', 'nd', 'addr', 'new') or x.op == 'sym' and not str(x.args[0]).startswith('key')]
        unk = any(x.op in ('unk', 'undef') for x in left)
        fact('stripe depends on the key only', None if unk else not left, 'the stripe of a key also depends on %s: equal keys can live in different stripes' % ', '.join(sorted({repr(x)[:60] for x in left})))
        cond = b_and(e.pc, assume)
        inr = b_and(b_not(lt(e.idx, ZERO, True)), lt(e.idx, sz[0], True))
        fact('stripe exists', *core.cmp.equal(b_or(b_not(cond), inr), TRUE))
        if first is None: first = t
        else: fact('one stripe per key', *core.cmp.equal(t, first))
    if not out: out.append(res(r.fn, 'stripe exists and depends on the key only', True, '%d index expressions' % n))
    return out
def transposed(core):
    return core.term('transposition', 'thts::ThtsCNode')
def is_opp(core): return core.term('opponent', 'thts::ThtsDNode')

@prop('C11')
def transposition(core):
    o = [T(K(f), 'create_child_node_itfc', '%sCNode_create_child' % f, f, opaque=create_opaque, weight=6, pre=one_table, assume=transposed) for f in FAMILIES]
    return o + [Obl('transposition table stripes', stripes)]

@prop('C10')
def stable_child(core):
    o = []
    for f in FAMILIES:
        o.append(node(f, 'D', 'select_action', only={'children', 'ret'}))
        o.append(node(f, 'C', 'sample_observation'))
        o.append(T(D(f), 'create_child_node_itfc', '%sDNode_create_child' % f, f, opaque=create_opaque, only={'children', 'ret'}, weight=6, pre=one_table))
        o.append(T(K(f), 'create_child_node_itfc', '%sCNode_create_child' % f, f, opaque=create_opaque, only={'children', 'ret'}, weight=6, pre=one_table))
    for k in 'DC':
        for m in ('has_child_node_itfc', 'get_child_node_itfc', 'get_num_children'): o.append(T('thts::Thts%sNode' % k, m, 'Thts%sNode_%s' % (k, m)))
    return o

@prop('C16')
def soft_policy(core):
    o = soft_nodes([('D', 'select_action')], MENTS)
    for f in MENTS: 
        for m in ('get_temp', 'get_soft_q_value', 'compute_action_weights'):
            if specname(f, 'D', m): o.append(node(f, 'D', m, itfc=False, opt=True))
    o.append(INIT(D('Rents'), 'RentsDNode_init', 'Rents', nmin=5, only={'_node_distr_key', '_parent_distr_key'}, weight=3))     # under which the parent's policy is found
    return o

@prop('C17')
def ucb(core):
    o = soft_nodes([('D', 'select_action')], UCT)
    for f in UCT: o.append(node(f, 'D', 'fill_ucb_values', itfc=False, opt=True))
    return o

@prop('C18')
def entropy(core):
    o = []
    for f in ('Dents', 'Est'):
        for k in 'DC':
            o.append(node(f, k, 'backup', only=ENT | {'soft_value', 'num_backups'}))
            o.append(INIT(D(f) if k == 'D' else K(f), '%s%sNode_init' % (f, k), f, nmin=5, only=ENT | {'num_backups'}, weight=8))
    return o

@prop('C19')
def recommend(core):
    return soft_nodes([('D', 'recommend_action')])

@prop('C20')
def opponent(core):
    o = soft_nodes([('D', 'select_action'), ('D', 'backup'), ('D', 'recommend_action')], assume=is_opp)
    o += [T('thts::ThtsDNode', 'is_opponent', 'ThtsDNode_is_opponent'), T('thts::ThtsCNode', 'is_opponent', 'ThtsCNode_is_opponent'),
          T('thts::ThtsDNode', 'is_two_player_game', 'ThtsDNode_is_two_player_game'), T('thts::ThtsCNode', 'is_two_player_game', 'ThtsCNode_is_two_player_game')]
    return o

@prop('C32')
def leaves(core):
    o = [T('thts::ThtsDNode', 'is_leaf', 'ThtsDNode_is_leaf'), T('thts::ThtsDNode', 'is_sink', 'ThtsDNode_is_sink'), T('thts::ThtsDNode', 'is_root_node', 'ThtsDNode_is_root_node')]
    for f in FAMILIES:
        o.append(INIT(D(f), '%sDNode_init' % f, f, nmin=5, only={'heuristic_value', 'num_visits', 'num_backups', 'avg_return', 'soft_value', 'dp_value'}, weight=8 if f in ('Dents', 'Est') else 2))
    return o

@prop('C30')
def tents(core):
    return [node('Tents', 'D', 'backup'), node('Tents', 'D', 'select_action'), INIT(D('Tents'), 'TentsDNode_init', 'Tents', nmin=5, only=MAPS2 | {'_selected_action_key'}, weight=5)]

@prop('C06')
def budget(core):
    return [PT('worker_fn', 'Pool_worker', {'run_thts_trial': 'eff'}, trace=TRACE, only={'$world'}),
            PT('join', 'Pool_join', trace=TRACE, only={'$world'}),
            PT('set_new_env', 'Pool_set_new_env', trace=TRACE, only={'$world'}),
            PT('work_left', 'Pool_work_left'),
            PT('run_trials', 'Pool_run_trials', {'join': 'effs'}, watch=['trials_remaining'], snap=['num_trials', 'trials_completed', '$world']),
            PT('try_log', 'Pool_try_log'),
            SAME('run_trials default arguments', POOL + '::run_trials', 'Pool_defaults', 'Pool_defaults_ref', POOL, opaque=pool_opaque({'run_trials': 'eff'})),
            SAME('set_new_env default arguments', POOL + '::set_new_env', 'Pool_env_defaults', 'Pool_env_defaults_ref', POOL, opaque=pool_opaque({'set_new_env': 'eff'})),
            INIT(POOL, 'Pool_init', nmin=4, opaque=pool_opaque(), only={'thread_pool_alive', 'num_threads', 'trials_remaining', 'num_threads_working', 'trials_completed', 'logger', 'thts_manager', 'root_node'})]

@prop('C07')
def selection(core):
    return [PT('run_selection_phase', 'Pool_selection'), PT('should_continue_selection_phase', 'Pool_should_continue', opt=True)]

@prop('C08')
def backup(core):
    return [PT('run_backup_phase', 'Pool_backup', pre=backup_pre, only={'$world', '$children'}), PT('run_thts_trial', 'Pool_trial')]

import locks as LK
FINAL = {}
@prop('C01')
def races(core):
    return [LK.nodes_guarded(f) for f in FAMILIES] + [Obl('ThtsPool', LK.pool_guards, 5)]
@prop('C02')
def balance(core): return LK.all_obls(LK.balance)
@prop('C03')
def lock_order(core): return LK.all_obls(LK.order_facts)
FINAL['C03'] = LK.order_final
@prop('C04')
def shared(core):
    return [Obl('ThtsPool', LK.pool_shared, 5), Obl('RandManager', LK.rand_shared), Obl('MCEvaluator', LK.mc_shared), Obl('transposition table', LK.dmap_shared, 3)]
@prop('C05')
def wakeups(core): return [Obl('ThtsPool', LK.wakeups, 5), Obl('MCEvaluator', LK.mc_joined)]

@prop('C21')
def temps(core):
    return [F('thts::compute_decayed_temp', 'decay_compute'), F('thts::decayed_temp_inv_sqrt', 'decay_inv_sqrt'), F('thts::decayed_temp_inv_log', 'decay_inv_log'),
            F('thts::decayed_temp_sigmoid', 'decay_sigmoid')] + [node(f, 'D', 'get_temp', itfc=False, opt=True) for f in MENTS] + [node(f, k, 'get_value_temp', itfc=False, opt=True) for f in ('Dents', 'Est') for k in 'DC']
RNG = {'rd', 'int_gen', 'real_gen', 'int_distr', 'real_distr', 'rng_lock'}
MANAGERS = ['Thts', 'Uct', 'Puct', 'Ments', 'Dents']
@prop('C23')
def options(core):
    o = []
    for m in MANAGERS:
        o.append(INIT('thts::%sManagerArgs' % m, '%sManagerArgs_init' % m, opaque=misc_opaque))
        o.append(INIT('thts::%sManager' % m, '%sManager_init' % m, opaque=misc_opaque, skip=RNG))
    o.append(F('thts::helper::zero_heuristic_fn', 'zero_heuristic'))
    return o
@prop('C24')
def values(core):
    o = []
    for c in ('IntState', 'IntPairState', 'Int3TupleState', 'IntAction', 'StringAction'):
        o.append(M('thts::' + c, 'equals', c + '_equals')); o.append(M('thts::' + c, 'equals_itfc', c + '_equals_itfc'))
    for n, c in (('obs', 'Observation'), ('state', 'State'), ('act', 'Action')):
        for t, sfx in (('thts::' + c, ''), ('std::shared_ptr<const thts::%s>' % c, '_p')):
            o.append(F('std::hash<%s>::operator()' % t, n + '_hash' + sfx, member=True))
            o.append(F('std::equal_to<%s>::operator()' % t, n + '_eq' + sfx, member=True))
            o.append(F('std::operator==', n + '_eq' + sfx, types=['const %s &' % t] * 2))
    for c, fl in (('IntState', 'state'), ('IntPairState', 'state'), ('Int3TupleState', 'state'), ('IntAction', 'action'), ('StringAction', 'action')):
        o.append(HASH('thts::%s::hash' % c, 'thts::' + c, lambda core, c=c, fl=fl: [mk('init', mk('fld', mk('this'), 'thts::%s::%s' % (c, fl)))]))
    arg = mk('init', mk('deref', mk('sym', 'refarg0')))
    o.append(HASH('std::hash<std::tuple<int, std::shared_ptr<const thts::Observation>>>::operator()', None, lambda core: [proj(arg, 0), mk('call', 'thts::Observation::hash', proj(arg, 1))]))
    o.append(F('std::equal_to<std::tuple<int, std::shared_ptr<const thts::Observation>>>::operator()', 'id_eq', member=True))
    return o
@prop('C26')
def mc(core):
    c = 'thts::MCEvaluator'
    return [M(c, 'run_rollout', 'MC_rollout', opaque=mc_opaque), M(c, 'thread_run_rollouts', 'MC_thread', opaque=mct_opaque), M(c, 'get_mean_return', 'MC_mean'), M(c, 'get_stddev_return', 'MC_stddev'),
            Obl('MCEvaluator::run_rollouts', mc_threads), Obl('EvalPolicy copy', policy_copy), INIT(c, 'MC_init', nmin=4, opaque=misc_opaque)]
def mc_threads(core):
    """the threads together run rollouts 0..total-1 once each: one thread per residue class, each with a policy object of its own"""
    a = core.run_method('thts::MCEvaluator', 'run_rollouts', None, opaque=misc_opaque)
    sp = [e for e in a.events if e.kind == 'spawn']
    f = a.fn
    if len(sp) != 1 or not sp[0].loops or sp[0].fnv.op != 'fnref' or not str(sp[0].fnv.args[-1]).endswith('MCEvaluator::thread_run_rollouts') or len(sp[0].args) != 5:
        return [res(f, 'work is split over the threads', None, '%d thread starts of a form not modelled' % len(sp))]
    e = sp[0]; dom = e.loops[-1][0]; th, total, tid, n, pol = e.args
    out = []
    N, R = mk('sym', 'arg1'), mk('sym', 'arg0')
    def fact(w, ok, d):
        r = res(f, w, ok, d); r['line'] = e.line; out.append(r)
    fact('every thread is told the full number of rollouts', *core.cmp.equal(total, R))
    fact('every thread is told the number of threads', *core.cmp.equal(n, N))
    if dom is None or dom.op != 'irange': fact('one thread per residue class', None, 'thread loop not over an index range')
    else:
        bv = [x for x in subterms(tid) if x.op == 'bv']
        ok, d = core.cmp.equal(mk('mcomp', dom, 7001, subst(tid, {x: mk('bx', 7001) for x in bv}), TRUE, TRUE, MNEW), mk('mcomp', mk('irange', ZERO, N), 7001, mk('bx', 7001), TRUE, TRUE, MNEW))
        fact('one thread per residue class', ok, d)
    own = [x for x in a.events if x.kind == 'alloc' and x.ptr is pol]
    if pol.op == 'new': fact('each thread has its own policy object', bool(own) and len(own[0].loops) >= len(e.loops), 'allocated per thread' if own and own[0].loops else 'one policy object is shared by all threads')
    else: fact('each thread has its own policy object', None, 'policy argument not modelled')
    return out
def policy_copy(core):
    fs = [f for f in core.p.fns.values() if f.get('ctor') and f.get('c') == 'thts::EvalPolicy' and f.get('copy') and f.get('body')]
    if not fs: return [res(core.ctor('thts::EvalPolicy'), 'copy keeps root and environment', True, 'implicit member-wise copy')]
    f = fs[0]; this = mk('new', 'thts::EvalPolicy', '$this'); src = mk('sym', 'refarg0')
    a = core.run(f, this, 'thts::EvalPolicy', None, opaque=misc_opaque)
    a.it.st = a.st; out = []
    for n in ('root_node', 'thts_env'):
        out.append(res(f, 'a copied policy has the same %s' % n, *core.cmp.equal(a.it.load(mk('fld', this, 'thts::EvalPolicy::' + n), True), mk('init', mk('fld', src, 'thts::EvalPolicy::' + n)))))
    return out
def mc_opaque(f):
    if f['q'] in ('thts::EvalPolicy::get_action', 'thts::EvalPolicy::update_step'): return 'eff'
    return misc_opaque(f)
def mct_opaque(f):
    if f['q'] == 'thts::MCEvaluator::run_rollout': return 'eff'
    return misc_opaque(f)
@prop('C27')
def evalpolicy(core):
    c = 'thts::EvalPolicy'
    return [M(c, 'reset', 'EvalPolicy_reset'), M(c, 'get_random_action', 'EvalPolicy_random'), M(c, 'get_action', 'EvalPolicy_action'), M(c, 'update_step', 'EvalPolicy_step'),
            INIT(c, 'EvalPolicy_init', nmin=3, opaque=misc_opaque)]
@prop('C28')
def context(core):
    c = 'thts::ThtsEnvContext'
    return [M(c, 'get_value_raw', 'ctx_get'), M(c, 'get_value_raw_const', 'ctx_get_const'), M(c, 'put_value_raw', 'ctx_put'), M(c, 'put_value_raw_const', 'ctx_put_const'),
            M(c, 'erase', 'ctx_erase'), M(c, 'erase_const', 'ctx_erase_const'),
            M(c, 'get_value_ptr', 'ctx_get_ptr'), M(c, 'get_value_ptr_const', 'ctx_get_ptr_const'), M(c, 'put_value', 'ctx_put'), M(c, 'put_value_const', 'ctx_put_const')]
@prop('C29')
def loggers(core):
    c = 'thts::ThtsLogger'
    o = [INIT(c, 'Logger_init', opaque=misc_opaque), PT('try_log', 'Pool_try_log', only={'$world'}), PT('run_trials', 'Pool_run_trials', {'join': 'pure'}, only={'$world'})]
    for m, s in (('set_trials_delta',) * 2, ('set_runtime_delta',) * 2, ('size', 'size'), ('reset_start_time', 'reset'), ('get_current_total_runtime', 'runtime'), ('trial_completed', 'trial'),
                 ('should_log', 'should'), ('update_prior_runtime', 'prior'), ('write_to_ostream', 'write')):
        o.append(M(c, m, 'Logger_' + s, opaque=log_opaque))
    for p in ('', 'Uct', 'Ments', 'DBMents'):
        l = 'thts::%sLogger' % (p or 'Thts'); e = 'thts::%sLoggerEntry' % p
        o += [M(l, 'add_origin_entry', p + 'Logger_origin'), M(l, 'log', p + 'Logger_log'), INIT(e, p + 'Entry_init', opaque=misc_opaque),
              M(e, 'write_header_to_ostream', p + 'Entry_header'), M(e, 'write_to_ostream', p + 'Entry_row')]
    return o
def log_opaque(f):
    if f['q'] in ('thts::LoggerEntry::write_header_to_ostream', 'thts::LoggerEntry::write_to_ostream'): return 'eff'
    return misc_opaque(f)
@prop('C31')
def env(core):
    c = 'thts::ThtsEnv'
    return [M(c, 'is_fully_observable', 'env_fully_observable', opaque=own_opaque), M(c, 'get_observation_distribution_itfc', 'env_obs_distr', opaque=own_opaque, comp=True),
            M(c, 'sample_observation_distribution_itfc', 'env_sample_obs', opaque=own_opaque), M(c, 'sample_context_itfc', 'env_context', opaque=own_opaque)]
@prop('C22')
def randomness(core):
    c = 'thts::RandManager'
    return [Obl('all library functions', rand_sources), Obl('static and global variables', hidden_state), M(c, 'get_rand_int', 'Rand_int', opaque=rng_opaque), M(c, 'get_rand_uniform', 'Rand_uniform', opaque=rng_opaque), INIT(c, 'Rand_init', opaque=rng_opaque, skip={'rd', 'rng_lock'})]
def rng_opaque(f): return None
RANDSRC = re.compile(r'^(rand|srand|random|srandom|rand_r|drand48|lrand48|arc4random\w*|std::(rand|srand|shuffle|random_shuffle|sample|random_device|mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|discard_block_engine|shuffle_order_engine|independent_bits_engine|\w+_distribution)\b.*)')
def walk(o):
    st = [o]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list): st.extend(v for v in x if isinstance(v, (dict, list)))
def libfns(core): return [f for f in core.p.fns.values() if f.get('file', '').startswith(('src/', 'include/')) and f.get('body')]
def rand_sources(core):
    """every random choice of the library comes from a RandManager: no other generator, distribution or C random function is called anywhere else"""
    out = []; n = 0; bad = []
    callers = {}
    for f in libfns(core):
        for x in walk(f):
            if isinstance(x.get('f'), dict) and x['f'].get('u'): callers.setdefault(x['f']['u'], set()).add(f['u'])
    own = {f['u'] for f in libfns(core) if f.get('c') == 'thts::RandManager'}
    more = True
    while more:            # helpers that only the random manager uses are part of it
        more = {u for u, c in callers.items() if u not in own and c and c <= own and u in core.p.fns}
        own |= more
    for f in libfns(core):
        if f['u'] in own: continue
        core.analysed.add(f['q'])
        for x in walk(f):
            g = x.get('f')
            if isinstance(g, dict) and g.get('q'):
                n += 1
                if RANDSRC.match(g['q']) or RANDSRC.match(g.get('c') or ''): bad.append((f, x, g['q']))
    for f, x, q in bad:
        r = res(f, 'source of randomness', False, 'line %s calls %s, which is not driven by the random manager and its seed' % (x.get('l', '?'), q))
        if x.get('l'): r['line'] = x['l']
        out.append(r)
    if not bad: out.append(res(core.fn('thts::RandManager::get_rand_int'), 'only source of randomness', True, '%d calls in %d library functions' % (n, len(libfns(core)))))
    return out
def root_var(x):
    while isinstance(x, dict):
        if x.get('k') == 'var': return x
        x = x.get('b') if x.get('k') in ('mem',) else x.get('e') if x.get('k') in ('load', 'cast', 'paren', 'un') else (x.get('a') or [None])[0] if x.get('k') == 'opcall' and isinstance(x.get('a'), list) else None
    return None
def hidden_state(core):
    """no library function keeps state in static or global variables: results depend on the objects and the seed, not on what ran before in the process"""
    out = []; n = 0
    for f in libfns(core):
        for x in walk(f):
            k = x.get('k'); t = None
            if k in ('assign', 'cassign'): t = x.get('a'); n += 1
            elif k == 'un' and x.get('op') in ('++', '--', 'post++', 'post--', '++post', '--post'): t = x.get('e'); n += 1
            elif k == 'mcall' and isinstance(x.get('f'), dict) and not x['f'].get('cst') and tbase(strip_type(str(x['f'].get('c')))) in STATEFUL: t = x.get('o') or x.get('b')
            elif k == 'opcall' and str(x.get('op')) in ('=', '+=', '-=', '*=', '/=', '++', '--', '[]') and x.get('a') and not (isinstance(x.get('f'), dict) and x['f'].get('cst')): t = x['a'][0]
            v = root_var(t) if t else None
            if v and v.get('g') and not str(v.get('q', '')).startswith('std::') and not str(v.get('t', '')).startswith('const '):
                r = res(f, 'no state outside the objects', False, 'line %s changes the static or global variable %s: results depend on earlier calls, not only on the seed' % (x.get('l', '?'), v.get('n')))
                if x.get('l'): r['line'] = x['l']
                out.append(r)
    return out or [res(core.fn('thts::RandManager::get_rand_int'), 'no state outside the objects', True, '%d assignments in %d library functions' % (n, len(libfns(core))))]
STATEFUL = {'std::vector', 'std::unordered_map', 'std::map', 'std::set', 'std::unordered_set', 'std::deque', 'std::list', 'std::basic_string', 'std::atomic'}
def sample_throws(core):
    """weights declared as not normalised never raise the 'mass above one' error while an item is being picked"""
    f = pick(core, 'thts::helper::sample_from_distribution', 'unordered_map<int, double')
    a = core.run(f, None, None, None, opaque=misc_opaque)
    norm = mk('sym', 'arg2')
    out = []
    for e in a.events:
        if e.kind != 'throw' or not e.loops: continue
        c = b_and(e.pc, e.cond)
        v = under(subst(c, {mk('batom', norm): FALSE, norm: FALSE}), TRUE)
        ok, d = core.cmp.equal(v, FALSE)
        r = res(f, 'no error for weights that are not normalised', ok, 'raised only when the weights are declared normalised' if ok else 'can be raised although the weights are declared as not normalised')
        r['line'] = e.line; out.append(r)
    return out or [res(f, 'no error for weights that are not normalised', True, 'nothing is thrown while picking')]
@prop('C34')
def helpers(core):
    return [Obl('sample_from_distribution errors', sample_throws), SAME('sample_from_distribution default arguments', 'thts::helper::sample_from_distribution', 'sample_default', 'sample_default_ref'), F('thts::helper::get_max_key_break_ties_randomly', 'arg_max', types='unordered_map<int, double', infs=True), F('thts::helper::sample_from_distribution', 'sample', types='unordered_map<int, double', comp=True)]
@prop('C35')
def distributions(core):
    c = 'thts::CategoricalDistribution<int>'
    return [M(c, 'sample', 'Cat_sample', assume=lambda core: core.term('alias_entry_wf', c, opaque=misc_opaque)), M('thts::DiscreteUniformDistribution<int>', 'sample', 'Uniform_sample'), M('thts::MixedDistribution<int>', 'sample', 'Mixed_sample'),
            INIT(c, 'Cat_new', nmin=3, opaque=misc_opaque), M(c, 'update', 'Cat_update', types=['int', 'double'], assume=lambda core: core.term('alias_sized', c)), M(c, 'update', 'Cat_replace', types='shared_ptr')]

DQ = ['recommend_action_itfc', 'is_leaf', 'is_sink', 'is_root_node', 'is_opponent', 'is_two_player_game', 'get_num_visits', 'get_num_children', 'has_child_node_itfc', 'get_child_node_itfc',
      'get_pretty_print_val', 'get_pretty_print_string']
CQ = ['is_opponent', 'is_two_player_game', 'get_num_children', 'has_child_node_itfc', 'get_child_node_itfc', 'get_pretty_print_val', 'get_pretty_print_string']
def RO(cls, method, fam=None, opaque=None, opt=False):
    """a query: on every path, everything that existed before the call has the same value after it"""
    def go(core):
        a = core.run_method(cls, method, fam, opaque=opaque or query_opaque)
        if not a.ended: return [res(a.fn, 'state unchanged', True, 'never returns normally')]
        out = []; n = 0
        vis, _ = core.reach(a, core.visible(a.st))
        for l, v in vis.items():
            if l is WORLD: continue
            if l.op in ('fld', 'deref') and l.args[0].op in ('new', 'addr'): continue
            if l.op == 'fld' and re.match(r'thts::RandManager::', str(l.args[1])): continue
            if contains_op(l, {'tmp', 'var'}): continue
            w = mk('init', l)
            ok, d = core.cmp.equal(v, w)
            n += 1
            if ok is not True: out.append(res(a.fn, 'leaves %s unchanged' % core.fieldname(l), ok, 'the query changes it: %s' % d if ok is False else d))
        for nm, e in core.loop_writes(a):
            ok, d = core.cmp.equal(e.pc, FALSE)
            if ok is False: r = res(a.fn, 'leaves %s unchanged' % nm, False, 'line %s of the query changes it' % e.line); r['line'] = e.line; out.append(r)
        for e in a.events:
            if e.kind != 'mapread' or contains_op(e.loc, {'tmp', 'var', 'new'}): continue
            ok, d = core.cmp.equal(b_and(e.pc, e.cond), FALSE)
            if ok is not True:
                r = res(a.fn, 'adds nothing to %s' % core.fieldname(e.loc), ok, 'reading an absent key with [] inserts it'); r['line'] = e.line; out.append(r)
        if not out: out.append(res(a.fn, 'state unchanged', True, '%d locations written back with their old value' % n if n else 'no location outside the call is written'))
        return out
    return Obl('%s::%s leaves the state alone' % (cls.replace('thts::', ''), method), go, 1, opt)
def query_opaque(f):
    q = f['q']; n = q.split('::')[-1]
    if n == 'get_pretty_print_string_helper' and f['q'] != 'x': return None
    return misc_opaque(f) if not q.startswith(('thts::ThtsDNode::', 'thts::ThtsCNode::')) else None
@prop('C25')
def queries(core):
    o = []
    for f in FAMILIES:
        o += [RO(D(f), m, f) for m in DQ] + [RO(K(f), m, f) for m in CQ]
    o += [RO('thts::MCEvaluator', m) for m in ('get_mean_return', 'get_stddev_return')] + [RO('thts::ThtsLogger', 'size')]
    o += [RO('thts::ThtsEnvContext', m) for m in ('get_value_raw', 'get_value_raw_const')] + [RO('thts::ThtsPool', 'work_left', opaque=misc_opaque)]
    o += [RO('thts::ThtsEnv', m, opaque=own_opaque) for m in ('is_fully_observable', 'get_observation_distribution_itfc', 'sample_observation_distribution_itfc', 'sample_context_itfc')]
    for c in ('IntState', 'IntPairState', 'Int3TupleState', 'IntAction', 'StringAction'): o += [RO('thts::' + c, m) for m in ('hash', 'equals', 'equals_itfc', 'get_pretty_print_string')]
    return o

def famof(cls):
    m = re.match(r'thts::(\w+?)(DNode|CNode)$', cls)
    return m.group(1) if m and m.group(1) in FAMILIES else None
def field_uses(core):
    """field -> functions that mention it, other than as the plain target of an assignment"""
    r = {}
    for f in libfns(core):
        tgt = set()
        for x in walk(f):
            if x.get('k') == 'assign' and isinstance(x.get('a'), dict) and x['a'].get('k') == 'mem': tgt.add(id(x['a']))
        for x in walk(f):
            if x.get('k') == 'mem' and id(x) not in tgt: r.setdefault('%s::%s' % (x.get('c'), x.get('n')), set()).add(f['q'])
    return r
def CT(u, cls):
    def go(core):
        f = core.p.fns[u]; this = mk('new', cls, '$this')
        a = core.run(f, this, cls, famof(cls), opaque=misc_opaque)
        if not a.ended: return [res(f, 'initialises every member', None, 'never completes')]
        out = []; n = 0; uses = field_uses(core)
        a.it.st = a.st
        for b in core.p.bases(cls):
            c = core.p.classes.get(b)
            for fl in (c['fields'] if c else []):
                if not fl.get('scalar'): continue
                n += 1
                v = a.it.load(mk('fld', this, b + '::' + fl['n']), True)
                bad = [x for x in subterms(v) if x.op == 'undef']
                if not bad: continue
                own = [x for x in bad if x.args and x.args[0] is mk('fld', this, b + '::' + fl['n'])]
                us = uses.get(b + '::' + fl['n']) or ()
                us = [x for x in us if x != f['q']]
                if v.op == 'undef' and not us: continue       # never read anywhere
                out.append(res(f, 'initialises %s' % fl['n'], False, 'after construction %s can still hold an indeterminate value%s' % (fl['n'], (', which %s reads' % sorted(us)[0]) if us else '') if own else 'computed from an uninitialised value: %r' % bad[0]))
        return out or [res(f, 'initialises every member', True, '%d scalar members' % n)]
    return Obl('%s constructor initialises every member' % cls.replace('thts::', ''), go, 4 if cls in ('thts::DentsDNode', 'thts::EstDNode') else 1)
@prop('C33')
def initialised(core):
    return [CT(f['u'], f['c']) for f in libfns(core) if f.get('ctor') and not f.get('copy') and not str(f['c']).startswith('std::')]

def lifetimes(u):
    """references and iterators: nothing borrowed from a temporary owner, from a container being restructured, or from a moved vector"""
    def go(core):
        f = core.p.fns[u]; cls = f.get('c'); fam = famof(cls) if cls else None
        a = core.run(f, mk('new', cls, '$this') if f.get('ctor') else mk('this') if cls else None, cls, fam, opaque=misc_opaque)
        out = []; n = 0
        for e in a.events:
            r = None
            if e.kind == 'tempref' and e.fn == f['q']:
                n += 1
                if e.bad: r = res(f, 'lifetime of what %s refers to' % e.var, False, '%s refers to %s: it is destroyed at the end of that statement' % (e.var, e.bad))
            elif e.kind == 'itermod':
                n += 1
                if e.cond is not TRUE and core.cmp.equal(b_and(e.pc, e.cond), FALSE)[0] is not False: continue
                r = res(f, 'container is not restructured while iterated', False, '%r changes during the loop over it (%s)' % (e.loc, e.at))
            elif e.kind == 'stale' and e.fn == f['q']:
                n += 1
                if getattr(e, 'what', None):
                    ok, d = core.cmp.equal(b_and(e.pc, e.cond), FALSE)
                    if ok is None and under(e.cond, e.pc) is TRUE and e.pc is not FALSE: ok = False      # on every path that gets here
                    if ok is not True: r = res(f, 'lifetime of what %s refers to' % e.var, ok, '%s is used after what it refers to %s (%s)' % (e.var, e.what, e.at))
                else: r = res(f, 'lifetime of what %s refers to' % e.var, False, '%s refers to a vector element, but the vector was changed (%s)' % (e.var, e.at))
            if r: r['line'] = e.line; out.append(r)
        return out or [res(f, 'references stay valid', True, '%d borrowed references' % n)]
    return go
OWN = re.compile(r'std::(shared_ptr|unique_ptr)<')
NODES = ('thts::ThtsDNode', 'thts::ThtsCNode')
def owned_classes(core, t):
    """classes a member of type t keeps alive"""
    t = strip_type(t)
    b = tbase(t)
    if b in ('std::shared_ptr', 'std::unique_ptr'): return owned_classes(core, targs(t)[0])
    if b in ('std::weak_ptr',) or t.endswith('*') or t.endswith('&'): return set()
    if b in core.p.classes: return {b}
    if t in core.p.classes: return {t}
    out = set()
    for a in targs(t):
        if a and not a.startswith(('std::hash', 'std::equal_to', 'std::allocator', 'std::less', 'std::function')): out |= owned_classes(core, a)
    return out
def ownership(core):
    """a node keeps alive its children and nothing above it: apart from 'children', nothing a node owns (directly or through managers, tables, environments) owns nodes again"""
    p = core.p; out = []; edges = {}
    for c in p.classes.values():
        for fl in c['fields']:
            if fl['n'] == 'children' and c['n'] in NODES: continue
            for o in owned_classes(core, fl['t']): edges.setdefault(c['n'], []).append((o, fl['n'], c))
    isnode = lambda c: any(b in NODES for b in p.bases(c))
    start = [c for c in p.classes if isnode(c)]
    seen = {}; todo = []
    for c in start:
        for b in p.bases(c):
            for o, fl, cc in edges.get(b, []): todo.append((o, ['%s::%s' % (b, fl)], cc))
    nodes_hit = {}
    while todo:
        o, path, cc = todo.pop(0)
        if isnode(o):
            nodes_hit.setdefault(path[-1], (path, cc)); continue
        if o in seen: continue
        seen[o] = path
        for x in p.all_subs(o) + p.bases(o):
            for o2, fl, c2 in edges.get(x, []): todo.append((o2, path + ['%s::%s' % (x, fl)], c2))
    for path, cc in nodes_hit.values():
        f = core.ctor(cc['n']) if any(g.get('ctor') and g.get('c') == cc['n'] and g.get('body') for g in p.fns.values()) else list(p.fns.values())[0]
        out.append(res(f, 'no node keeps its ancestors alive', False, 'ownership cycle: a node keeps nodes alive through %s' % ' -> '.join(path)))
    owns = {}
    def reach(c, seen):
        if c in owns: return owns[c]
        if c in seen: return False
        seen.add(c)
        r = isnode(c) or c in p.bases('thts::ThtsManager') or any(b == 'thts::ThtsManager' for b in p.bases(c)) or any(reach(o, seen) for b in p.bases(c) for o, fl, cc in edges.get(b, []))
        owns[c] = r
        return r
    for g in core.ir['globals'].values():
        hit = [c for c in owned_classes(core, str(g.get('t', ''))) if reach(c, set())]
        if hit: out.append(res(dict(g, q=g.get('q') or '?', l=g.get('line', 0)), 'no static or global variable keeps trees alive', False, '%s owns %s for as long as the process runs' % (g.get('q'), hit[0])))
    return out or [res(core.fn('thts::ThtsDNode::create_child_node_itfc'), 'no node keeps its ancestors alive', True, '%d classes are owned by nodes, none of them owns nodes' % len(seen))]
@prop('C36')
def lifetime(core):
    return [Obl(f['q'].replace('thts::', ''), lifetimes(f['u']), 20 if f['q'] == 'thts::DentsDNode::backup' else 1) for f in libfns(core)]
@prop('C37')
def own(core): return [Obl('ownership of nodes', ownership)]

def print_opaque(f):
    """values of other nodes and of actions/observations are black boxes with a text each"""
    q = f['q']; n = q.split('::')[-1]
    if n in ('get_pretty_print_string_helper', 'get_pretty_print_val', 'get_pretty_print_string', 'get_temp', 'get_value_temp', 'is_leaf'): return 'pure'
    if n == 'operator<<' and 'thts::' in str(f.get('ps') or f): return 'pure'
    return misc_opaque(f)
@prop('C38')
def printing(core):
    o = []
    for f in FAMILIES:
        for k in 'DC':
            sp = next((x for x in ANC[f] if 'vspec::%s%sNode_print' % (x, k) in core.p.by_q), ANC[f][0])
            c = D(f) if k == 'D' else K(f)
            o.append(M(c, 'get_pretty_print_val', '%s%sNode_print' % (sp, k), opaque=val_opaque))
    for k in 'DC':
        c = 'thts::Thts%sNode' % k
        o.append(M(c, 'get_pretty_print_string', 'Thts%sNode_tree' % k, opaque=print_opaque))
        o.append(M(c, 'get_pretty_print_string_helper', 'Thts%sNode_subtree' % k, opaque=tree_opaque(c)))
    for c in ('IntState', 'IntPairState', 'Int3TupleState', 'IntAction', 'StringAction'): o.append(M('thts::' + c, 'get_pretty_print_string', c + '_print'))
    types = ['Observation', 'State', 'Action', 'IntState', 'IntPairState', 'Int3TupleState', 'IntAction', 'StringAction']
    for c in types + [t + '_p' for t in types] + ['id', 'DNodeTable', 'ActionVector', 'StringActionVector', 'StateDistr', 'ObservationDistr', 'IntPairStateDistr', 'Int3TupleStateDistr']:
        o.append(F('std::operator<<', 'show_' + c, types='as spec', opaque=print_opaque, comp=True))
    o.append(F('thts::helper::vector_pretty_print_string', 'print_list', types='vector<int'))
    o.append(F('thts::helper::unordered_map_pretty_print_string', 'print_table', types='unordered_map<int, double'))
    return o
def val_opaque(f):
    n = f['q'].split('::')[-1]
    return 'pure' if n in ('get_temp', 'get_value_temp') else misc_opaque(f)
def tree_opaque(cls):
    def g(f):
        if f['q'] == cls + '::get_pretty_print_string_helper': return None
        return print_opaque(f)
    return g

# ---- what the evidence says about each rule
_VT = 'Rule: every listed operation, with all its callees inlined, must have the same effect as its reference transition in spec/ on every selected location and on its result, for arbitrary values of everything it reads.'
_AL = ['objects reached by different access paths are distinct unless the path conditions say otherwise (parent/child/table aliasing of nodes is modelled)', 'arithmetic is over the reals except where the largest-term rule looks at overflow',
       'environment callbacks, heuristics, priors and schedules are arbitrary pure functions', 'terms found equal by normal form or by repeated random interpretation are equal (error probability negligible)']
_CC = ['threads interact only through the analysed operations', 'std::mutex, condition_variable and thread behave as specified']
_CR = {'C01': 'Rule: at every read or write of a mutable node member reached from an entry point, the lock of the node that owns it is in the set of locks held (entry points are entered with the node\'s own lock, as the pool does; the pool itself is an entry point without locks).',
       'C02': 'Rule: on every path to every exit (return, throw, loop exit) the set of locks held equals the set at entry; no lock() of a held mutex, no unlock() of one not held.',
       'C03': 'Rule: the graph of (lock class held -> lock class requested) edges over all entry points is acyclic; locks of one class are requested parent-to-child, or in an order that is a function of the nodes only; nothing waits, joins or calls a blocking operation holding a foreign lock.',
       'C04': 'Rule: for each shared member, the intersection of the lock sets over all accesses after thread creation (outside constructor, destructor after joins) is non-empty.',
       'C05': 'Rule: every write that can make a wait predicate true is followed by notify_all (or notify_one where one waiter suffices) on the same condition variable on every path before the lock scope ends the operation; waits are in predicate loops under their lock and timed when the predicate reads the clock; threads are joined in the destructor / before results are read.'}
META = {}
for _p in PROPS:
    META[_p] = {'rule': _CR.get(_p, _VT), 'assumptions': _CC + _AL[:1] if _p in _CR else _AL}
META['C22'] = {'rule': 'Rule: outside RandManager no library function calls any other random source or writes a static/global variable; RandManager\'s operations equal their reference transitions.', 'assumptions': _AL}
META['C25'] = {'rule': 'Rule: after each query every location that existed before the call has its old value, on every path, and no container element is inserted by a read.', 'assumptions': _AL + ['the random manager may advance']}
META['C33'] = {'rule': 'Rule: after every constructor no scalar member that some function reads can hold an indeterminate value.', 'assumptions': _AL[:1]}
META['C36'] = {'rule': 'Rule: no reference is bound to the target of a temporary owner, no container is restructured inside a loop over it, no element reference is used after its vector changed.', 'assumptions': _AL[:1]}
META['C37'] = {'rule': 'Rule: in the graph of owning members (values, shared_ptr, unique_ptr, containers of them), no path leads from a node to a node except through the children members.', 'assumptions': ['captures of std::function objects are outside the graph']}
