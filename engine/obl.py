"""Obligations: what a property requires of the program, each decided by the value-flow engine."""
import os, sys, time, traceback, json, multiprocessing
from core import *

NODE = ('num_visits', 'num_backups')
class Obl:
    """one obligation; run(core) -> list of result dicts {what, ok: True|False|None, detail, file, line, fn}"""
    opt = False
    def __init__(self, name, run, weight=1, opt=False): self.name = name; self.runner = run; self.weight = weight; self.opt = opt
    def run(self, core): return self.runner(core)

def where(fn):
    f = fn.get('file', '?')
    if f.startswith('/repo/'): f = f[6:]
    return f, fn.get('l', fn.get('line', 0))

def res(fn, what, ok, detail):
    f, l = where(fn)
    return {'what': what, 'ok': ok, 'detail': detail, 'file': f, 'line': l, 'fn': fn['q']}

def results(core, a, b, **kw):
    out = []
    for r in core.compare(a, b, **kw):
        ok = r[1]
        out.append(res(a.fn, r[0], ok, r[2]))
    return out

def T(cls, method, spec, fam=None, only=None, skip=None, pre=None, assume=None, opaque=node_opaque, weight=1, opt=False):
    """method of cls must have the effect of the reference transition spec (on the fields selected)"""
    def go(core):
        kw = {'opaque': opaque}
        if pre: kw['pre'] = pre
        a = core.run_method(cls, method, fam, **kw)
        b = core.run_spec(spec, cls, fam, **kw)
        return results(core, a, b, only=only, skip=skip, assume=TRUE if assume is None else assume(core) if callable(assume) else assume)
    return Obl('%s::%s' % (cls.replace('thts::', ''), method), go, weight, opt)

def INIT(cls, spec, fam=None, only=None, skip=None, opaque=node_opaque, nmin=0, weight=1):
    def go(core):
        a = core.run_ctor(cls, fam, nmin, opaque=opaque)
        b = core.run_init_spec(spec, cls, fam, opaque=opaque)
        return results(core, a, b, only=only, skip=skip)
    return Obl('%s constructor' % cls.replace('thts::', ''), go, weight)

def D(f): return 'thts::%sDNode' % f
def K(f): return 'thts::%sCNode' % f

# ---- reference transition to use for each family and method (nearest ancestor that defines one)
ANC = {'Uct': ['Uct'], 'Puct': ['Puct', 'Uct'], 'Ments': ['Ments'], 'DBMents': ['DBMents', 'Ments'], 'Dents': ['Dents', 'DBMents', 'Ments'],
       'Est': ['Est', 'Dents', 'DBMents', 'Ments'], 'Rents': ['Rents', 'Ments'], 'Tents': ['Tents', 'Ments']}
HAVE = {
 'D': {'visit': ['Uct', 'Ments', 'DBMents'], 'backup': ['Uct', 'Ments', 'DBMents', 'Dents', 'Est', 'Rents', 'Tents'],
       'select_action': ['Uct', 'Puct', 'Ments', 'Dents', 'Est', 'Rents', 'Tents'], 'recommend_action': ['Uct', 'Ments', 'DBMents', 'Dents'],
       'get_soft_q_value': ['Ments', 'Dents', 'Est'], 'compute_action_weights': ['Ments', 'Dents', 'Est', 'Rents', 'Tents'],
       'get_temp': ['Ments'], 'get_value_temp': ['Dents'], 'compute_ucb_term': ['Uct', 'Puct'], 'fill_ucb_values': ['Uct', 'Puct']},
 'C': {'visit': ['Uct', 'Ments'], 'backup': ['Uct', 'Ments', 'DBMents', 'Dents', 'Est'], 'sample_observation': ['Uct', 'Ments'], 'get_value_temp': ['Dents']},
}
def specname(fam, kind, m):
    for f in ANC[fam]:
        if f in HAVE[kind][m]: return '%s%sNode_%s' % (f, kind, m)
    return None
def tents_pre(it):
    """representation invariant: both TENTS maps describe the same function on the node's actions"""
    th = mk('this')
    acts = it.load(mk('deref', it.load(mk('fld', th, 'thts::MentsDNode::actions'), True)), True)
    h = 9001
    d = mk('range', acts); bx = mk('bx', h); q = mk('sel', mk('sym', 'Q0'), bx)
    it.st.heap[mk('fld', th, 'thts::TentsDNode::act_to_qval')] = mk('mcomp', d, h, bx, q, TRUE, MNEW)
    it.st.heap[mk('fld', th, 'thts::TentsDNode::qval_to_act')] = mk('mmcomp', d, h, q, bx, TRUE, MMNEW)

WEIGHT = {('Dents', 'backup'): 30, ('Dents', 'select_action'): 12, ('Est', 'select_action'): 12, ('Tents', 'select_action'): 10}
def node(fam, kind, m, only=None, skip=None, assume=None, itfc=True, opt=False):
    sp = specname(fam, kind, m)
    return T(D(fam) if kind == 'D' else K(fam), m + ('_itfc' if itfc else ''), sp, fam, only, skip, tents_pre if fam == 'Tents' and kind == 'D' else None,
             assume, weight=WEIGHT.get((fam, m), 1), opt=opt)

def create_opaque(f):
    """child creation: look into the creation functions themselves"""
    if f['q'] in CREATE: return None
    return node_opaque(f)

# ---- the thread pool
POOL = 'thts::ThtsPool'
GUARDED = ['thread_pool_alive', 'start_time', 'max_run_time', 'trials_remaining', 'num_threads_working', 'logger', 'thts_manager', 'root_node']
TRACE = (POOL + '::work_left_lock', [POOL + '::' + g for g in GUARDED])
NODEM = {'visit_itfc': 'eff', 'backup_itfc': 'eff', 'select_action_itfc': 'effc', 'sample_observation_itfc': 'effc', 'compute_observation_itfc': 'effc',
         'create_child_node_itfc': 'effc', 'get_num_children': 'rdc', 'get_child_node_itfc': 'rdc', 'has_child_node_itfc': 'rdc', 'is_leaf': 'pure', 'is_sink': 'pure'}
LOGM = {'size': 'rdw', 'should_log': 'eff', 'get_current_total_runtime': 'rdw'}
def pool_opaque(extra={}):
    """nodes, loggers and the environment are black boxes with effects; their own checks look inside"""
    def f(g):
        q = g['q']; n = q.split('::')[-1]; c = q.rsplit('::', 1)[0]
        if n in extra and c == POOL: return extra[n]
        if c == 'thts::ThtsEnv': return 'nondet' if n == 'sample_context_itfc' else 'pure'
        if c in ('thts::ThtsDNode', 'thts::ThtsCNode'): return NODEM.get(n)
        if c == 'thts::ThtsLogger': return LOGM.get(n, 'eff')
        return None
    return f
def PT(method, spec, extra={}, only=None, skip=None, pre=None, trace=None, weight=1, opt=False, watch=(), snap=()):
    def go(core):
        kw = {'opaque': pool_opaque(extra), 'trace': trace, 'watch': [POOL + '::' + w for w in watch]}
        if pre: kw['pre'] = pre
        a = core.run_method(POOL, method, None, **kw)
        b = core.run_spec(spec, POOL, None, **kw)
        out = results(core, a, b, only=only, skip=skip)
        if watch:
            sa, sb = a.it.snaps, b.it.snaps
            if len(sa) != 1 or len(sb) != 1: out.append(res(a.fn, 'state when %s is set' % watch[0], None, '%d stores' % len(sa)))
            else:
                for f in snap:
                    l = WORLD if f == '$world' else mk('fld', mk('this'), POOL + '::' + f)
                    vs = []
                    for r, s in ((a, sa), (b, sb)):
                        sv = r.it.st; r.it.st = s[0][1]; vs.append(r.it.load(l, True)); r.it.st = sv
                    out.append(res(a.fn, '%s when %s is set' % (f, watch[0]), *core.cmp.equal(vs[0], vs[1])))
        return out
    return Obl('ThtsPool::%s' % method, go, weight, opt)
def backup_pre(it):
    """the selection phase delivers one reward per (node, child) pair plus the final heuristic value"""
    r = mk('deref', mk('sym', 'refarg1'))
    it.st.heap[r] = TT.mk('vpush', mk('init', mk('deref', mk('sym', 'rew'))), mk('sym', 'hv'))

# ---- free functions and small classes
def misc_opaque(f):
    """random draws, the environment, nodes and virtual value operations are black boxes"""
    q = f['q']; b = q.split('<')[0]; n = q.split('::')[-1]; c = q.rsplit('::', 1)[0]
    if b in NONDET: return 'nondet'
    if c == 'thts::ThtsEnv': return 'nondet' if n.startswith('sample_') else 'pure'
    if c in ('thts::ThtsDNode', 'thts::ThtsCNode'): return {'recommend_action_itfc': 'nondet'}.get(n, NODEM.get(n))
    if c in ('thts::Observation', 'thts::State', 'thts::Action') and n in ('hash', 'equals_itfc'): return 'pure'
    return None
def own_opaque(f):
    """look into the environment's own default methods"""
    if f['q'].startswith('thts::ThtsEnv::') and f.get('body') and f['q'].split('::')[-1] != 'get_observation_distribution_itfc': return None
    return misc_opaque(f)
def pick(core, q, types=None):
    """function q, selected by its parameter types (a list) or by a part of the first one (a string)"""
    l = [f for f in core.p.by_q.get(q, []) if f.get('body')]
    if isinstance(types, str): l = [f for f in l if f['ps'] and types in f['ps'][0]['t']]
    elif types is not None: l = [f for f in l if [p['t'] for p in f['ps']] == list(types)]
    if not l: raise AnalysisError('anchor %s%s not found in the program' % (q, types or ''))
    return l[0]
def F(q, spec, types=None, opaque=misc_opaque, only=None, weight=1, assume=None, member=False, comp=False, infs=False):
    """free function (or stateless member function, member=True) with the effect of the reference function"""
    def go(core):
        f = pick(core, q, [x['t'] for x in core.spec(spec)['ps']] if types == 'as spec' else types)
        a = core.run(f, mk('this') if member else None, f.get('c') if member else None, None, opaque=opaque)
        s = core.spec(spec)
        b = core.run(s, None, None, None, opaque=opaque)
        core.cmp.infs = infs
        ty = core.cmp.types.memo
        if infs:
            ty.clear()
            for i, prm in enumerate(f['ps']):
                if prm.get('ref'): ty[mk('sym', 'refarg%d' % i)] = strip_type(prm['t']) + ' *'
        try: return results(core, a, b, only=only, assume=TRUE if assume is None else assume(core), completion=comp)
        finally:
            core.cmp.infs = False
            if infs: ty.clear()
    return Obl(q.replace('thts::', '') + ('(%s)' % spec if types == 'as spec' else str(types) if types else ''), go, weight)
def M(cls, method, spec, types=None, opaque=misc_opaque, only=None, skip=None, pre=None, weight=1, assume=None, comp=False):
    """method (selected by its parameter types if overloaded) with the effect of the reference transition"""
    def go(core):
        f = pick(core, cls + '::' + method, types) if types else core.p.method(cls, method) or pick(core, cls + '::' + method)
        kw = {'opaque': opaque}
        if pre: kw['pre'] = pre
        a = core.run(f, mk('this'), cls, None, **kw)
        b = core.run_spec(spec, cls, None, **kw)
        return results(core, a, b, only=only, skip=skip, assume=TRUE if assume is None else assume(core), completion=comp)
    return Obl('%s::%s' % (cls.replace('thts::', ''), method), go, weight)
def SAME(name, q, a, b, cls=None, opaque=misc_opaque):
    """two ways of using the library (for example with and without its default arguments) have the same effect"""
    def go(core):
        fn = pick(core, q)
        if cls: x, y = core.run_spec(a, cls, None, opaque=opaque), core.run_spec(b, cls, None, opaque=opaque)
        else: x, y = [core.run(core.spec(z), None, None, None, opaque=opaque) for z in (a, b)]
        x.fn = fn
        return results(core, x, y)
    return Obl(name, go)
def HASH(q, cls, allowed, member=True):
    """a hash value must be a function of the values that equality compares, and of nothing else"""
    def go(core):
        f = pick(core, q)
        a = core.run(f, mk('this'), cls, None, opaque=misc_opaque)
        if not a.ended: return [res(f, 'hash', False, 'never returns a value')]
        al = allowed(core)
        t = subst(a.ret, {x: mk('sym', 'value%d' % i) for i, x in enumerate(al)})
        left = [x for x in subterms(t) if x.op in ('this', 'init', 'unk', 'undef', 'draw', 'rng', 'rngdraw', 'nd', 'addr', 'new') or x.op == 'sym' and not str(x.args[0]).startswith('value')]
        if any(x.op in ('unk', 'undef') for x in left): return [res(f, 'hash is a function of the compared values', None, 'not modelled: %r' % t)]
        return [res(f, 'hash is a function of the compared values', not left, repr(a.ret)[:150] if not left else 'the hash also depends on %s, which equality does not compare' % ', '.join(sorted(set(repr(x)[:60] for x in left))))]
    return Obl(q.replace('thts::', '') + ' agrees with equality', go)
