"""Concurrency obligations: lock discipline, lock order, lock balance, condition variables.

Decided on the event log of the value-flow engine: every read, write, lock operation, wait, notify, spawn and join of an
entry point with all callees inlined, each with the exact set of locks held (as access paths) and its path condition.
"""
from obl import *
from interp import match
from terms import *

MTX = ('std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::timed_mutex')
DB, CB = 'thts::ThtsDNode', 'thts::ThtsCNode'

def mutex_field(core, cls):
    c = core.p.classes.get(cls)
    if c:
        for f in c['fields']:
            if strip(f['t']) in MTX: return cls + '::' + f['n']
    raise AnalysisError('anchor: no mutex member in %s' % cls)
def strip(t): return t.replace('mutable ', '').replace('const ', '').strip()
def node_locks(core): return [mutex_field(core, DB), mutex_field(core, CB)]

def implies(core, pc, h):
    """does pc imply h?  True / False / None"""
    if h is TRUE: return True
    try: h = under(h, pc)
    except (Blowup, RecursionError): pass
    if h is TRUE: return True
    if h is FALSE:
        if contains_op(pc, ('unk', 'loopdone')): return False
        if pc is FALSE: return True
        return False if core.cmp.equal(pc, FALSE)[0] is not True or core.cmp.feasible(pc) else None
    ok = core.cmp.equal(h, TRUE, pc)[0]
    return ok

def held(it, e, key):
    """condition under which key is held at event e"""
    return it.held(key, e.locks)
def owned(it, e, p, fields):
    h = FALSE
    for f in fields: h = b_or(h, as_b(held(it, e, mk('fld', p, f))))
    return h
def as_b(h): return h
def owner(loc):
    """object a location belongs to (through embedded members and owned containers), or None for locals"""
    while True:
        if loc.op == 'fld':
            p = loc.args[0]
            if p.op == 'addr': loc = p.args[0]; continue
            return p
        if loc.op in ('elem', 'projl', 'itpair'): loc = loc.args[0] if loc.op != 'itpair' else loc.args[1]; continue
        return None
def fresh(p):
    if p.op == 'new': return True
    if p.op == 'ite': return fresh(p.args[1]) and fresh(p.args[2])
    if p.op == 'addr': return p.args[0].op in ('var', 'tmp')
    return False
def fieldcls(core, name): return name.rsplit('::', 1)[0] if isinstance(name, str) else ''
def is_nodecls(core, c):
    if c not in core.p.classes: return False
    return any(core.p.is_sub(x, DB) or core.p.is_sub(x, CB) for x in [c] + list(core.p.subs.get(c, ()))) or any(
        core.p.is_sub(x, c) and (core.p.is_sub(x, DB) or core.p.is_sub(x, CB)) for x in core.p.classes)

class Fact:
    """location of an event, as a result"""
def at(e, what, ok, detail):
    f = e.file
    if f.startswith('/repo/'): f = f[6:]
    return {'what': what, 'ok': ok, 'detail': detail, 'file': f.lstrip('/'), 'line': e.line, 'fn': e.fn}

# ---------------------------------------------------------------- runs
NODE_ENTRY = {'D': ['visit_itfc', 'select_action_itfc', 'backup_itfc'], 'C': ['visit_itfc', 'sample_observation_itfc', 'compute_observation_itfc', 'backup_itfc']}
def conc_opaque(f):
    if f['q'] in CREATE: return None
    q = f['q']
    if q.startswith('thts::ThtsEnv::'): return 'pure'
    return node_opaque(f)
def node_runs(core, fam):
    """every trial-time entry point of the family's nodes, entered with the node's own lock held"""
    nl = node_locks(core)
    out = []
    for k in 'DC':
        cls = D(fam) if k == 'D' else K(fam)
        for m in NODE_ENTRY[k] + ['create_child_node_itfc']:
            if core.p.method(cls, m) is None: continue
            def pre(it, k=k, fam=fam):
                it.st.locks[mk('fld', mk('this'), nl[0 if k == 'D' else 1])] = TRUE
                if fam == 'Tents' and k == 'D': tents_pre(it)
            r = core.run_method(cls, m, fam, opaque=conc_opaque, pre=pre)
            r.entry = '%s::%s' % (cls.replace('thts::', ''), m); r.kind = 'node'; r.k = k
            r.locks0 = {mk('fld', mk('this'), nl[0 if k == 'D' else 1]): TRUE}
            out.append(r)
    return out
def pool_dtor(core):
    l = [f for f in core.p.fns.values() if f.get('c') == POOL and f['q'].split('::')[-1].startswith('~') and f.get('body')]
    if not l: raise AnalysisError('anchor: destructor of ThtsPool not found')
    return l[0]
def pool_runs(core, which=None):
    out = []
    op = pool_opaque({})
    for m in ('worker_fn', 'run_trials', 'join', 'set_new_env', '~', 'ctor'):
        if which and m not in which: continue
        if m == '~': r = core.run(pool_dtor(core), mk('this'), POOL, None, opaque=op)
        elif m == 'ctor': r = core.run_ctor(POOL, None, 3, opaque=op)
        else: r = core.run_method(POOL, m, None, opaque=op)
        r.entry = 'ThtsPool::' + {'~': 'destructor', 'ctor': 'constructor'}.get(m, m); r.kind = 'pool'; r.k = m
        r.locks0 = {}
        out.append(r)
    return out
def rand_opaque(f): return 'pure' if f['q'].startswith('thts::ThtsEnv::') else None
def rand_runs(core):
    out = []
    for m in ('get_rand_int', 'get_rand_uniform'):
        r = core.run_method('thts::RandManager', m, None, opaque=rand_opaque)
        r.entry = 'RandManager::' + m; r.kind = 'rand'; r.k = m; r.locks0 = {}
        out.append(r)
    return out
def mc_runs(core):
    out = []
    def op(f):
        q = f['q']
        if q.startswith('thts::ThtsEnv::'): return 'nondet' if 'sample' in q else 'pure'
        if q.startswith('thts::ThtsDNode::') or q.startswith('thts::ThtsCNode::'): return 'nondet' if 'recommend' in q else 'pure'
        return node_opaque(f)
    for m in ('thread_run_rollouts', 'run_rollouts'):
        r = core.run_method('thts::MCEvaluator', m, None, opaque=op)
        r.entry = 'MCEvaluator::' + m; r.kind = 'mc'; r.k = m; r.locks0 = {}
        out.append(r)
    return out

def runs_obl(name, runs, rule, weight=1):
    def go(core):
        out = []
        for r in runs(core): out += rule(core, r)
        return out
    return Obl(name, go, weight)
HEAVY = {'Dents': 30, 'Est': 25, 'Tents': 15}
def all_obls(rule, kinds=('node', 'pool', 'rand', 'mc')):
    o = []
    if 'node' in kinds:
        for f in FAMILIES: o.append(runs_obl('%s nodes' % f, (lambda f: lambda core: node_runs(core, f))(f), rule, HEAVY.get(f, 6)))
    if 'pool' in kinds: o.append(runs_obl('ThtsPool', pool_runs, rule, 5))
    if 'rand' in kinds: o.append(runs_obl('RandManager', rand_runs, rule))
    if 'mc' in kinds: o.append(runs_obl('MCEvaluator', mc_runs, rule, 2))
    return o

# ---------------------------------------------------------------- C01: node state is only touched under the node's lock
def mutable_fields(core, runs):
    w = set()
    for r in runs:
        for e in r.events:
            if e.kind == 'write' and e.loc.op == 'fld' and not fresh(e.loc.args[0]) and is_nodecls(core, fieldcls(core, e.loc.args[1])): w.add(e.loc.args[1])
    return w
def nodes_guarded(fam):
    def go(core):
        runs = node_runs(core, fam)
        mut = mutable_fields(core, runs)
        nl = node_locks(core)
        out = []
        for r in runs:
            n = 0; bad = {}
            for e in r.events:
                if e.kind not in ('read', 'write'): continue
                l = e.loc
                if l.op == 'glob':
                    if e.kind == 'write': out.append(at(e, 'write of a global from a trial', False, '%s is shared by all trials and has no lock' % l))
                    continue
                if l.op == 'deref' and e.kind == 'write':
                    p = l.args[0]
                    src = p.args[0] if p.op == 'init' else None
                    q = owner(src) if src is not None and src.op == 'fld' else None
                    if q is None or fresh(q) or not is_nodecls(core, fieldcls(core, src.args[1])): continue
                    fld = src.args[1]
                elif l.op == 'fld' and l.args[1] in mut:
                    q = owner(l); fld = l.args[1]
                    if q is None or fresh(q): continue
                else: continue
                n += 1
                key = (e.kind, fld.split('::')[-1], e.fn, e.line)
                if key in bad: continue
                h = owned(r.it, e, q, nl)
                ok = implies(core, e.pc, h)
                if ok is not True: bad[key] = at(e, '%s of %s' % (e.kind, fld.split('::')[-1]), ok, 'lock of %s is not held on every path here (entry %s)' % (str(q)[:80], r.entry))
            out += list(bad.values())
            if n: out.append(dict(res(r.fn, 'guarded accesses to node state', True, '%d accesses' % n), what='%d accesses to node state under its lock' % n))
        return out
    return Obl('%s nodes' % fam, go, HEAVY.get(fam, 6))
def pool_guards(core):
    nl = node_locks(core)
    mut = mutable_fields(core, node_runs(core, 'Uct'))
    out = []
    for r in pool_runs(core, ('worker_fn', 'run_trials', 'join', 'set_new_env', '~')):
        n = 0; bad = {}
        for e in r.events:
            q = None; what = None
            if e.kind == 'call':
                c, m = e.q.rsplit('::', 1)
                if c in (DB, CB) and NODEM.get(m) != 'pure': q = e.this; what = 'call of %s' % m
                elif c == 'thts::ThtsLogger' and m == 'log': q = e.args[0] if e.args else None; what = 'logging of the root node'
            elif e.kind in ('read', 'write') and e.loc.op == 'fld' and e.loc.args[1] in mut:
                q = owner(e.loc); what = '%s of %s' % (e.kind, e.loc.args[1].split('::')[-1])
            if q is None or fresh(q): continue
            n += 1
            ok = implies(core, e.pc, owned(r.it, e, q, nl))
            if ok is not True and (what, e.line) not in bad: bad[(what, e.line)] = at(e, what, ok, 'the lock of %s is not held here' % str(q)[:80])
        out += list(bad.values())
        if n: out.append(res(r.fn, '%d uses of tree nodes under their lock' % n, True, r.entry))
    return out

# ---------------------------------------------------------------- C02: lock balance
def lname(l):
    l = l.args[1] if l.op == 'fam' else l
    return str(l)[:90]
def balance(core, r):
    out = []; n = 0; seen = set()
    for e in r.events:
        if e.kind == 'acq' or e.kind == 'rel':
            n += 1
            h = e.held
            if e.kind == 'acq':
                if h is FALSE: continue
                ok = implies(core, e.pc, b_not(h)); msg = 'may already be held by this thread (self deadlock)'
            else: ok = implies(core, e.pc, h); msg = 'may not be held by this thread'
            k = (e.kind, e.fn, e.line)
            if ok is not True and k not in seen:
                seen.add(k); out.append(at(e, '%s of %s' % ({'acq': 'lock', 'rel': 'unlock'}[e.kind], lname(e.lock)), ok, '%s %s (entry %s)' % (lname(e.lock), msg, r.entry)))
        elif e.kind == 'looplock':
            k = (e.kind, e.fn, e.line)
            if k not in seen:
                seen.add(k); out.append(at(e, 'loop keeps %s' % lname(e.lock), False, 'an iteration leaves %s in a different state (entry %s)' % (lname(e.lock), r.entry)))
        elif e.kind == 'wait':
            n += 1
            ok = implies(core, e.pc, e.held)
            if ok is not True: out.append(at(e, 'wait holds its mutex', ok, '%s' % lname(e.lock)))
    ends = []
    if r.ended: ends.append(('return', r.st.locks, r.st.pc))
    for st, typ, lk in r.it.throws_out: ends.append(('exception %s' % typ, lk, st.pc))
    for how, lk, pc in ends:
        n += 1
        for k in set(lk) | set(r.locks0):
            a = r.it.held(k, r.locks0); b = r.it.held(k, lk)
            if k.op == 'fam': a = r.locks0.get(k, FALSE); b = lk.get(k, FALSE)
            if a is b: continue
            ok = implies(core, pc, b if a is TRUE else b_not(b))
            if ok is not True: out.append(res(r.fn, '%s at %s' % (lname(k), how.split(' ')[0]), ok, '%s on entry, %s at %s' % ('held' if a is TRUE else 'not held', 'possibly released' if a is TRUE else 'possibly still held', how)))
    if n and not any(x['ok'] is not True for x in out): out.append(res(r.fn, '%d lock operations and exits balanced' % n, True, r.entry))
    return out

# ---------------------------------------------------------------- C03: lock order
def lclass(core, l, nl):
    if l.op == 'fam': l = l.args[1]
    while l.op == 'elem': l = l.args[0]
    if l.op == 'fld':
        if l.args[1] in nl: return 'node'
        return l.args[1]
    return str(l)[:60]
def nodeptr(l): 
    l = l.args[1] if l.op == 'fam' else l
    return l.args[0]
def is_child_of(c, p):
    """c is an element of p's children (or of the children of one of them)"""
    if c.op == 'ite': return is_child_of(c.args[1], p) and is_child_of(c.args[2], p)
    x = c
    for _ in range(6):
        if x.op == 'sel' and x.args[0].op in ('init',) and x.args[0].args[0].op == 'fld' and x.args[0].args[0].args[1].endswith('::children'):
            x = x.args[0].args[0].args[0]
            if x is p: return True
            continue
        return False
    return False
def related(p, c):
    """True: c lies below p; False: c lies above p; None: unknown"""
    if is_child_of(c, p): return True
    if p.op == 'proj' and c.op == 'proj' and p.args[0] is c.args[0]:      # a (decision node, action node) pair of the walk
        return p.args[1] < c.args[1]
    if c.op in ('call', 'nd') and isinstance(c.args[0], str) and c.args[0].rsplit('::', 1)[-1].startswith(('get_child_node', 'create_child_node')):
        for x in c.args[1:]:
            if x is p: return True
    if p.op in ('call', 'nd') and isinstance(p.args[0], str) and p.args[0].rsplit('::', 1)[-1].startswith(('get_child_node', 'create_child_node')):
        for x in p.args[1:]:
            if x is c: return False
    if is_child_of(p, c): return False
    return None
def parent_of(c):
    if c.op == 'sel' and c.args[0].op == 'init' and c.args[0].args[0].op == 'fld' and c.args[0].args[0].args[1].endswith('::children'): return c.args[0].args[0].args[0]
    return None
def ordered(dom):
    """iteration in an order that does not depend on which parent is asking"""
    for x in subterms(dom):
        if x.op == 'sorted' and x.args[1] is not NULL:
            if any(y.op == 'init' and y.args[0].op == 'fld' for y in subterms(x.args[1])): return False     # by something that is not the nodes' identity
    return contains_op(dom, ('sdom', 'sorted'))
def order_facts(core, r):
    nl = node_locks(core)
    rng = 'thts::RandManager::rng_lock'
    out = []; seen = set(); edges = {}
    def edge(a, b, e):
        edges.setdefault((a, b), '%s:%d in %s' % (e.file.replace('/repo/', ''), e.line, e.fn))
    def live(e): return [(k, v) for k, v in e.locks.items() if v is not FALSE]
    n = 0
    for e in r.events:
        if e.kind == 'acq':
            b = e.lock; cb = lclass(core, b, nl)
            for a, v in live(e):
                if a is b: continue
                n += 1
                ca = lclass(core, a, nl)
                if ca == 'node' and cb == 'node':
                    p, c = nodeptr(a), nodeptr(b)
                    k = (e.fn, e.line, 'nn')
                    rel = related(p, c)
                    if rel is True: edge('node', 'node(child)', e); continue
                    if a.op == 'fam' and parent_of(c) is not None and parent_of(p) is parent_of(c) or c is p: continue
                    if k in seen: continue
                    known = not contains_op(c, ('bv', 'bx', 'lc', 'lx', 'unk', 'fold', 'back', 'itderef', 'mmelem'))
                    seen.add(k); out.append(at(e, 'node lock taken while holding another', False if known or rel is False else None, 'holding the lock of %s, locks %s, which is not one of its descendants (entry %s)' % (str(p)[:70], str(c)[:70], r.entry)))
                elif ca == cb:
                    k = (e.fn, e.line, ca)
                    if k not in seen: seen.add(k); out.append(at(e, 'two locks of one group', False, 'takes a second lock of %s while holding one (entry %s)' % (ca.split('::')[-1], r.entry)))
                else: edge(ca, cb, e)
        elif e.kind == 'lockall':
            n += 1
            if lclass(core, e.pat, nl) == 'node':
                par = parent_of(nodeptr(e.pat))
                hold = [a for a, v in live(e) if a.op != 'fam' and lclass(core, a, nl) == 'node' and par is not None and nodeptr(a) is par]
                cnode = any(x.op == 'fld' and x.args[1] == CB + '::children' for x in subterms(e.pat))
                if cnode and not ordered(e.dom):
                    out.append(at(e, 'outcome nodes locked in a global order', False, 'outcome nodes can be shared by several action nodes (transpositions); locking them in the iteration order of %s can deadlock (entry %s)' % (str(e.dom)[:80], r.entry)))
                elif not cnode and not hold:
                    out.append(at(e, 'siblings locked under the parent\'s lock', False if par is not None else None, 'several action nodes are locked without holding the lock of their decision node (entry %s)' % r.entry))
        elif e.kind == 'call' and (getattr(e, 'mode', None) == 'nondet' or e.q in ('thts::RandManager::get_rand_int', 'thts::RandManager::get_rand_uniform')) and not e.q.startswith('thts::ThtsEnv'):
            for a, v in live(e): n += 1; edge(lclass(core, a, nl), rng, e)
        elif e.kind == 'call' and r.kind == 'pool' and e.q.rsplit('::', 1)[0] in (DB, CB) and NODEM.get(e.q.rsplit('::', 1)[1]) != 'pure':
            for a, v in live(e):
                ca = lclass(core, a, nl)
                if ca == 'node':
                    rel = nodeptr(a) is e.this or related(nodeptr(a), e.this)
                    if rel is not True:
                        out.append(at(e, 'one node at a time', rel, 'uses %s while holding the lock of another node' % str(e.this)[:60]))
                    continue
                n += 1
                for x in ('node', rng, 'thts::ThtsManager::dmap_mutexes'): edge(ca, x, e)
        elif e.kind == 'wait':
            n += 1
            for a, v in live(e):
                if a is not e.lock: out.append(at(e, 'no other lock held in a wait', False, 'waits while holding %s' % lname(a)))
        elif e.kind == 'tjoin':
            n += 1
            for a, v in live(e): out.append(at(e, 'no lock held while joining threads', False, 'joins a thread while holding %s' % lname(a)))
    x = res(r.fn, '%d nested acquisitions' % n, True, r.entry)
    x['edges'] = [(a, b, w) for (a, b), w in edges.items()]
    out.append(x)
    return out
def order_final(rows):
    """all lock-order edges together must be acyclic"""
    g = {}
    for x in rows:
        for a, b, w in x.get('edges', ()):
            if b == 'node(child)' : continue
            g.setdefault(a, {}).setdefault(b, w)
    out = []
    state = {}
    def dfs(a, path):
        state[a] = 1
        for b, w in sorted(g.get(a, {}).items()):
            if state.get(b) == 1:
                cyc = path[path.index(b):] + [b] if b in path else [a, b]
                sites = [g[u][v] for u, v in zip(cyc, cyc[1:])]
                m = w.split(':')
                out.append({'what': 'lock order', 'ok': False, 'file': m[0], 'line': m[1].split(' ')[0], 'fn': w.split(' in ')[-1],
                            'detail': 'cycle %s: %s' % (' -> '.join(c.split('::')[-1] for c in cyc), '; '.join(sites))})
            elif state.get(b) is None: dfs(b, path + [b])
        state[a] = 2
    for a in sorted(g):
        if state.get(a) is None: dfs(a, [a])
    if not out: out.append({'what': 'lock order graph acyclic', 'ok': True, 'file': 'src/thts.cpp', 'line': 0, 'fn': '(all entry points)',
                            'detail': ', '.join('%s->%s' % (a.split('::')[-1], b.split('::')[-1]) for a in sorted(g) for b in sorted(g[a]))})
    return out

# ---------------------------------------------------------------- C04: shared pool, manager and evaluator state
def rel_locks(r, e, base, core):
    """locks of object base surely held at e, by member name"""
    out = set()
    for k, v in e.locks.items():
        if v is FALSE: continue
        if k.op == 'fld' and k.args[0] is base and implies(core, e.pc, v) is True: out.add(k.args[1])
    return out
def eraser(core, runs, cls, base_of, skip=()):
    """field -> accesses [(kind, locks, event, run)] for objects of class cls"""
    acc = {}
    for r in runs:
        for e in r.events:
            if e.kind not in ('read', 'write') or e.loc.op != 'fld' or not isinstance(e.loc.args[1], str): continue
            c, f = e.loc.args[1].rsplit('::', 1)
            if c != cls or f in skip: continue
            b = e.loc.args[0]
            if fresh(b): continue
            acc.setdefault(f, []).append((e.kind, rel_locks(r, e, b, core), e, r))
    return acc
def verdict(f, l, fn_res):
    writes = [x for x in l if x[0] == 'write']
    if not writes: return [fn_res('%s is never written after construction' % f, True, '%d reads' % len(l))]
    common = set.intersection(*[x[1] for x in l])
    if common: return [fn_res('%s always under %s' % (f, '/'.join(sorted(c.split('::')[-1] for c in common))), True, '%d accesses' % len(l))]
    # name the accesses outside the lock most accesses use
    cnt = {}
    for x in l:
        for k in x[1]: cnt[k] = cnt.get(k, 0) + 1
    best = max(cnt, key=lambda k: cnt[k]) if cnt else None
    out = []; seen = set()
    for x in l:
        if best is None or best not in x[1]:
            e = x[2]
            if (e.fn, e.line) in seen: continue
            seen.add((e.fn, e.line))
            out.append(at(e, '%s of %s' % (x[0], f), False, '%s is not held (entry %s), though other threads access %s under it' % (best.split('::')[-1] if best else 'any lock', x[3].entry, f) if best else
                          'no lock protects %s (entry %s)' % (f, x[3].entry)))
    return out
PHASE = ('logger', 'thts_manager', 'root_node')
def pool_shared(core):
    runs = pool_runs(core, ('worker_fn', 'run_trials', 'join', 'set_new_env', '~'))
    anchor = runs[0].fn
    mk_res = lambda w, ok, d: res(anchor, w, ok, d)
    acc = eraser(core, runs, POOL, None)
    out = []
    for f in sorted(acc):
        if f in PHASE: continue
        out += verdict(f, acc[f], mk_res)
    # replaced only when no trial is running
    for f in PHASE:
        l = acc.get(f, [])
        ws = [x for x in l if x[0] == 'write']
        if any(x[3].k in ('worker_fn',) for x in ws): out += verdict(f, l, mk_res); continue
        if not ws: out.append(mk_res('%s is never written after construction' % f, True, '')); continue
        for k in sorted({x[3].k for x in ws}):
            q = core.run_method(POOL, k, None, opaque=pool_opaque({}), watch=[POOL + '::' + f])
            okall = True
            for loc, st in q.it.snaps:
                lk = q.it.held(mk('fld', mk('this'), POOL + '::work_left_lock'), st.locks)
                sv = q.it.st; q.it.st = st
                n = q.it.load(mk('fld', mk('this'), POOL + '::num_threads_working'), True); q.it.st = sv
                a = implies(core, st.pc, lk)
                b = implies(core, st.pc, lt(num(0), n, True) if False else b_not(lt(num(0), n, True)))
                if a is not True or b is not True:
                    okall = False
                    x = ws[0]
                    out.append(at(x[2], 'write of %s' % f, False if a is False or b is False else None, 'replaced without the pool lock' if a is not True else 'replaced while a trial may still be using it'))
            if okall: out.append(res(core.method(POOL, k), '%s replaced only under the pool lock with no trial running' % f, True, ''))
    # the logger
    calls = [(r, e) for r in runs for e in r.events if e.kind == 'call' and e.q.startswith('thts::ThtsLogger::')]
    ls = [rel_locks(r, e, mk('this'), core) for r, e in calls]
    common = set.intersection(*ls) if ls else set()
    if not ls: pass
    elif common: out.append(mk_res('logger used under %s' % '/'.join(sorted(c.split('::')[-1] for c in common)), True, '%d calls' % len(ls)))
    else:
        for (r, e), s in zip(calls, ls):
            if POOL + '::logging_lock' not in s: out.append(at(e, 'call of %s' % e.q, False, 'the logger is used without the logging lock (entry %s)' % r.entry))
    # construction: workers only start once everything they use is initialised
    c = pool_runs(core, ('ctor',))[0]
    used = {f for f in acc if any(x[3].k == 'worker_fn' for x in acc[f])}
    started = False; late = {}
    for e in c.events:
        if e.kind == 'spawn': started = True
        elif e.kind == 'write' and started and e.loc.op == 'fld' and e.loc.args[1].rsplit('::', 1)[-1] in used and e.loc.args[1].startswith(POOL):
            f = e.loc.args[1].rsplit('::', 1)[-1]
            h = [k for k, v in e.locks.items() if v is TRUE]
            if not h: late[(f, e.line)] = at(e, 'constructor write of %s' % f, False, 'worker threads already started may use it')
    out += list(late.values())
    if not late: out.append(res(c.fn, 'workers start after all shared members are initialised', True, ''))
    return out
def rand_shared(core):
    runs = rand_runs(core)
    acc = eraser(core, runs, 'thts::RandManager', None)
    out = []
    for f in sorted(acc): out += verdict(f, acc[f], lambda w, ok, d: res(runs[0].fn, w, ok, d))
    return out
def mc_shared(core):
    runs = mc_runs(core)
    th = [r for r in runs if r.k == 'thread_run_rollouts']
    acc = eraser(core, th, 'thts::MCEvaluator', None)
    out = []
    for f in sorted(acc): out += verdict(f, acc[f], lambda w, ok, d: res(th[0].fn, w, ok, d))
    # each thread works on its own copy of the policy
    sp = [e for r in runs for e in r.events if e.kind == 'spawn']
    for e in sp:
        ps = [a for a in e.args if a.op != 'this' and a is not mk('this')]
        bad = [a for a in ps if contains(a, lambda x: x.op == 'init' and x.args[0].op == 'fld' and x.args[0].args[1].endswith('::policy')) and not a.op == 'new']
        inloop = any(x.kind == 'alloc' and x.ptr in ps for x in runs[-1].events)
        out.append(at(e, 'each evaluation thread gets its own policy object', not bad and (inloop or not any(a.op == 'new' for a in ps)), str(ps)[:100]))
        al = [x for x in runs[-1].events if x.kind == 'alloc' and x.ptr in ps]
        for x in al:
            if len(x.loops) < len(e.loops): out.append(at(x, 'each evaluation thread gets its own policy object', False, 'one object is allocated before the loop and given to every thread'))
    for r in th:
        for e in r.events:
            if e.kind == 'write' and e.loc.op == 'fld':
                o = owner(e.loc)
                if o is not None and contains(o, lambda x: x.op == 'init' and x.args[0].op == 'fld' and x.args[0].args[1].endswith('MCEvaluator::policy')):
                    out.append(at(e, 'write to the shared policy', False, 'evaluation threads modify the policy object they share'))
    return out
def dmap_shared(core):
    """every access to a transposition table stripe holds that stripe's mutex"""
    nl = node_locks(core)
    out = []
    cls = K('Uct')
    def pre(it): it.st.locks[mk('fld', mk('this'), nl[1])] = TRUE
    runs = []
    for m in ('create_child_node_itfc', 'sample_observation_itfc'):
        r = core.run_method(cls, m, 'Uct', opaque=conc_opaque, pre=pre); r.entry = 'UctCNode::' + m; runs.append(r)
    mut = set()
    def mgr(l):
        while l.op == 'elem' and l.args[0].op == 'elem': l = l.args[0]
        if l.op == 'elem' and l.args[0].op == 'fld': return l.args[0].args[1].startswith('thts::ThtsManager::') and l
        return None
    for r in runs:
        for e in r.events:
            if e.kind == 'ewrite':
                l = mgr(e.loc)
                if l: mut.add(l.args[0].args[1])
            elif e.kind == 'write' and e.loc.op == 'fld' and not e.sub and isinstance(e.loc.args[1], str) and e.loc.args[1].startswith('thts::ThtsManager::') and not fresh(e.loc.args[0]):
                # the whole member is written: needs a lock of the manager that every access holds
                mut.add(e.loc.args[1])
                ls = [k for k, v in e.locks.items() if v is not FALSE and k.op == 'fld' and k.args[0] is e.loc.args[0]]
                if not ls: out.append(at(e, 'write of %s' % e.loc.args[1], False, 'all trials share the manager; no lock of it is held'))
    n = 0; seen = set()
    for r in runs:
        for e in r.events:
            if e.kind not in ('eread', 'ewrite'): continue
            l = mgr(e.loc)
            if not l or l.args[0].args[1] not in mut: continue
            n += 1
            m = l.args[0].args[0]; i = l.args[1]
            ok = False; why = 'no mutex of the manager is held'
            for k, v in e.locks.items():
                if v is FALSE: continue
                if k.op == 'elem' and k.args[0].op == 'fld' and k.args[0].args[0] is m:
                    x = core.cmp.equal(i, k.args[1], e.pc)[0]
                    if x is not False: ok = x if ok is not True else ok
                    else: why = 'the mutex held is that of a different stripe'
                elif k.op == 'fld' and k.args[0] is m: ok = True
            if ok is not True and (e.fn, e.line) not in seen:
                seen.add((e.fn, e.line)); out.append(at(e, 'access to %s' % l.args[0].args[1].split('::')[-1], ok, '%s (entry %s)' % (why, r.entry)))
    if not seen: out.append(res(runs[0].fn, '%d accesses to table stripes under the stripe mutex' % n, True, ''))
    # distinct stripes have distinct mutexes: at least as many mutexes as tables
    c = core.run_ctor('thts::ThtsManager', None, 1, opaque=node_opaque)
    def val(f):
        sv = c.it.st; c.it.st = c.st; v = c.it.load(mk('fld', c.root, 'thts::ThtsManager::' + f), True); c.it.st = sv
        return v
    if mut & {'thts::ThtsManager::dmaps'} and core.p.field_class('thts::ThtsManager', 'dmap_mutexes'):
        from interp import size
        out.append(res(c.fn, 'one mutex per table stripe', core.cmp.equal(size(val('dmaps')), size(val('dmap_mutexes')))[0], ''))
    return out

# ---------------------------------------------------------------- C05: nobody sleeps through the event it waits for
WFIELDS = {'trials_remaining', 'max_run_time', 'start_time', 'thread_pool_alive'}
def wakeups(core):
    runs = {r.k: r for r in pool_runs(core)}
    W = None
    out = []
    waits = {k: [e for e in r.events if e.kind == 'wait'] for k, r in runs.items()}
    if not waits['worker_fn']:
        out.append(res(runs['worker_fn'].fn, 'workers do not block', True, ''))
    for k, l in waits.items():
        for e in l:
            if not e.loops: out.append(at(e, 'wait in a loop that re-tests its condition', False, 'a spurious wake-up would be taken for the event'))
            else: out += retested(core, runs[k], e)
    # the end of a search by its time limit is nobody's action: waiting for it must be bounded
    for e in waits['join']:
        out.append(at(e, 'wait for the end of a search is timed', bool(e.timed), 'the time limit ends a search without anybody notifying'))
    untimed = [e for e in waits['worker_fn'] if not e.timed]
    others = {k: [e for e in waits[k] if not e.timed] for k in ('join', 'set_new_env')}
    def notified(r, f, cvs):
        ev = r.events
        ws = [(i, e) for i, e in enumerate(ev) if e.kind == 'write' and e.loc.op == 'fld' and e.loc.args[1] == POOL + '::' + f and not fresh(e.loc.args[0])]
        for i, e in ws:
            ok = False
            for j, x in enumerate(ev):
                if x.kind != 'notify' or x.how != 'notify_all' or x.cv not in cvs: continue
                if j < i:
                    lk = [k for k, v in x.locks.items() if v is TRUE]
                    if not any(not any(y.kind == 'rel' and y.lock is k for y in ev[j:i]) for k in lk): continue
                    if any(y.kind == 'wait' for y in ev[j:i]): continue
                v = implies(core, e.pc, x.pc)
                if v is True: ok = True; break
                if v is None: ok = None
            yield e, ok
    if untimed:
        cvs = {e.cv for e in untimed}
        for k in ('run_trials', 'set_new_env', '~'):
            last = {}
            for f in sorted(WFIELDS):
                for e, ok in notified(runs[k], f, cvs): last[(f, e.line)] = at(e, 'sleeping workers are told about %s' % f, ok, 'a worker waiting for work is not woken by notify_all on every path (entry %s)' % runs[k].entry)
            out += list(last.values())
    for k, l in others.items():
        if k == 'join' or not l: continue
        cvs = {e.cv for e in l}
        r = runs['worker_fn']
        ok = any(x.kind == 'notify' and x.how == 'notify_all' and x.cv in cvs for x in r.events)
        out.append(at(l[0], 'workers announce that they stopped working', ok or False, 'the caller sleeps until notified'))
    # destruction: alive is cleared under the lock, then every worker is joined
    d = runs['~']
    alive = [(i, e) for i, e in enumerate(d.events) if e.kind == 'write' and e.loc.op == 'fld' and e.loc.args[1] == POOL + '::thread_pool_alive']
    joins = [(i, e) for i, e in enumerate(d.events) if e.kind == 'tjoin']
    if not alive or not joins: out.append(res(d.fn, 'destructor stops and joins the workers', False, 'no %s' % ('store to thread_pool_alive' if not alive else 'thread join')))
    else:
        i, e = alive[-1]
        ok = e.value is FALSE and implies(core, TRUE, e.pc) is True and i < joins[0][0]
        out.append(at(e, 'workers are told to stop before they are joined', ok, 'value %s, condition %s' % (e.value, str(e.pc)[:80])))
        lk = rel_locks(d, e, mk('this'), core)
        out.append(at(e, 'stop flag is set under the lock of the waiters', all(w.lock.args[1] in lk for w in untimed if w.lock.op == 'fld'), ''))
    # every started thread is joined
    for a, b in ((runs['ctor'], d),):
        sp = [e for e in a.events if e.kind == 'spawn']
        if sp and joins:
            out.append(joined(core, a, sp[0], joins[0][1], mk('fld', mk('this'), POOL + '::num_threads'), jrun=d))
    for r in runs.values(): out += detached(core, r)
    return out
def retested(core, r, w):
    """nothing happens between a wake-up and the next test of the loop around the wait"""
    ev = r.events; i = ev.index(w)
    for e in ev[i+1:]:
        if e.loops[:len(w.loops)] != w.loops: break
        if e.kind not in ('write', 'ewrite', 'notify', 'call') or e.kind == 'call' and getattr(e, 'mode', None) == 'pure': continue
        if implies(core, w.pc, b_not(e.pc)) is True: continue
        return [at(w, 'wait in a loop that re-tests its condition', False, 'after a wake-up line %s runs without the condition being tested again (entry %s)' % (e.line, r.entry))]
    return []
def cnt(dom):
    from interp import dom_size
    return dom_size(dom)
def joined(core, run, sp, jn, nf=None, jrun=None):
    if not jn.loops or not sp.loops: return at(jn, 'every started thread is joined', None if not sp.loops else False, 'a single join')
    a = cnt(sp.loops[-1][0]); b = cnt(jn.loops[-1][0])
    if nf is not None and run.root is not None:
        sv = run.it.st; run.it.st = run.st
        sub = {}
        for x in subterms(b):
            if x.op == 'init' and x.args[0].op == 'fld' and x.args[0].args[0] is mk('this'): sub[x] = run.it.load(mk('fld', run.root, x.args[0].args[1]), True)
        run.it.st = sv
        b = subst(b, sub)
    ok, why = core.cmp.equal(b, a)
    if ok is True and jrun is not None:
        # ... in every iteration of that loop
        ev = jrun.events; i = ev.index(jn)
        lp = [e for e in ev[:i] if e.kind == 'loop' and e.loops == jn.loops[:-1]]
        body = [e for e in ev if e.kind == 'tjoin' and e.loops[:len(jn.loops)] == jn.loops]
        if lp:
            dom = jn.loops[-1][0]
            inn = lt(mk('bv', jn.loops[-1][1], dom), dom.args[1]) if dom.op == 'irange' else TRUE
            pc = FALSE
            for e in body:
                c = e.pc
                c = subst(c, {x: TRUE for x in subterms(c) if x.op == 'bcall' and x.args[0] == 'thread::joinable'})
                pc = b_or(pc, c)
            ok = implies(core, b_and(lp[-1].pc, inn), pc)
            if ok is not True: why = 'an iteration can pass without joining its thread'
    return at(jn, 'every started thread is joined', ok, why)
def detached(core, r):
    out = []
    for e in r.events:
        if e.kind == 'tdetach' and implies(core, e.pc, FALSE) is not True: out.append(at(e, 'no thread outlives its owner', False, 'a thread is detached: nothing waits for its end (entry %s)' % r.entry))
    return out
def mc_joined(core):
    r = [x for x in mc_runs(core) if x.k == 'run_rollouts'][0]
    sp = [e for e in r.events if e.kind == 'spawn']; jn = [e for e in r.events if e.kind == 'tjoin']
    if not sp: return [res(r.fn, 'rollouts run in threads', None, 'no spawn')]
    if not jn: return [at(sp[0], 'every started thread is joined', False, 'no join')]
    return [joined(core, r, sp[0], jn[0], jrun=r)] + detached(core, r)
