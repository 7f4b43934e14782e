"""Interprocedural value-flow analysis over the resolved program.

One abstract evaluation of each entry function computes, for every program point, the gated value term of
every location, the locks held, and a log of the relevant events (reads, writes, lock operations, calls), each with
the condition under which it happens.  No path is enumerated and no solver is used: branches are merged into gated
values, loops are summarised by their per-iteration transfer function (reductions are recognised).
"""
from terms import *
from prog import *
import terms as TT
import struct
from fractions import Fraction

class PathEnd(Exception): pass
class Undecided(Exception): pass

INTT = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short', 'unsigned short', 'char', 'unsigned char', 'signed char', 'bool'}
FLT = {'double', 'float', 'long double'}
MAPS = {'std::unordered_map', 'std::map'}
MMAPS = {'std::multimap', 'std::unordered_multimap'}
SETS = {'std::unordered_set', 'std::set'}
VECS = {'std::vector', 'std::deque', 'std::list', 'std::array', 'std::initializer_list'}
SPTR = {'std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::__weak_ptr', 'std::enable_shared_from_this'}
GUARDS = {'std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock'}
MUTEXES = {'std::mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::shared_mutex'}
CVS = {'std::condition_variable_any', 'std::condition_variable'}
STREAMS = {'std::basic_stringstream', 'std::basic_ostream', 'std::basic_ostringstream', 'std::basic_ofstream', 'std::basic_ios', 'std::basic_iostream'}
ITERS = ('__gnu_cxx::__normal_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::_Rb_tree_iterator',
         'std::_Rb_tree_const_iterator', 'std::reverse_iterator', 'std::__detail::_Node_iterator_base')
DUR = ('std::chrono::duration', 'std::chrono::time_point')

WORLD = mk('glob', '$world'); CWORLD = mk('glob', '$children'); MNEW = mk('mnew'); VNEW = mk('vnew'); MMNEW = mk('mmnew'); EMPTYSTR = mk('str', '')

# ------------------------------------------------------------------ container operators
def m_store(m, k, v): return lift(_m_store, m, k, v) if False else _m_store1(m, k, v)
def _m_store1(m, k, v):
    if m.op == 'ite': return lift(lambda x: _m_store1(x, k, v), m)
    if m.op == 'mstore' and m.args[1] is k: return mk('mstore', m.args[0], k, v)
    return mk('mstore', m, k, v)
def m_erase(m, k):
    if m.op == 'ite': return lift(lambda x: m_erase(x, k), m)
    if m is MNEW: return m
    if m.op == 'mstore' and m.args[1] is k: return m_erase(m.args[0], k)
    return mk('merase', m, k)
def keydom(k):
    return k.args[1] if k.op == 'bv' else None
def has(m, k): return lift(_has, m, k)
def _has(m, k):
    if m is MNEW: return FALSE
    d = keydom(k)
    if d is not None and d.op == 'range' and d.args[0] is m: return TRUE
    if m.op == 'mstore':
        if m.args[1] is k: return TRUE
        return b_or(eq(m.args[1], k), has(m.args[0], k))
    if m.op == 'merase':
        if m.args[1] is k: return FALSE
        return b_and(ne(m.args[1], k), has(m.args[0], k))
    if m.op == 'mcomp':
        dom, h, key, val, g, base = m.args
        bx = mk('bx', h)
        if key is bx and d is dom: return b_or(subst(g, {bx: k}), has(base, k))
    return mk('has', m, k)
def sel(m, k): return lift(_sel, m, k)
def _sel(m, k):
    if m.op == 'mstore':
        if m.args[1] is k: return m.args[2]
        e = eq(m.args[1], k)
        if e is FALSE: return sel(m.args[0], k)
    elif m.op == 'mcomp':
        dom, h, key, val, g, base = m.args
        bx = mk('bx', h)
        if key is bx:
            mp = {bx: k}
            gk = subst(g, mp)
            if gk is TRUE and (keydom(k) is dom or base is MNEW): return subst(val, mp)
            if keydom(k) is dom: return mk_ite(gk, subst(val, mp), sel(base, k))
    elif m.op == 'vpush':
        n = size(m.args[0])
        if k is n: return m.args[1]
        if k.op == 'num' and n.op == 'num' and k.args[0] < n.args[0]: return sel(m.args[0], k)
    elif m.op == 'vset':
        if m.args[1] is k: return m.args[2]
        if eq(m.args[1], k) is FALSE: return sel(m.args[0], k)
    elif m.op == 'vfill':
        return m.args[1]
    return mk('sel', m, k)
def size(m): return lift(_size, m)
def _size(m):
    if m.op in ('mnew', 'vnew', 'mmnew'): return ZERO
    if m.op == 'mstore': return add(size(m.args[0]), mk_ite(has(m.args[0], m.args[1]), ZERO, ONE))
    if m.op == 'merase': return sub(size(m.args[0]), mk_ite(has(m.args[0], m.args[1]), ONE, ZERO))
    if m.op == 'vpush': return add(size(m.args[0]), ONE)
    if m.op == 'vpop': return sub(size(m.args[0]), ONE)
    if m.op == 'vset': return size(m.args[0])
    if m.op == 'vfill': return m.args[0]
    if m.op == 'vcomp' and m.args[3] is TRUE and m.args[4] is VNEW: return dom_size(m.args[0])
    return mk('size', m)
def dom_size(d):
    if d.op == 'range' or d.op == 'rrange': return size(d.args[0])
    if d.op == 'irange':
        a, b = d.args
        if a is ZERO and b.op == 'size': return b
        return mk('dsize', d)
    return mk('dsize', d)
def v_push(v, x):
    if v.op == 'ite': return lift(lambda y: v_push(y, x), v)
    return mk('vpush', v, x)
def v_pop(v):
    if v.op == 'ite': return lift(v_pop, v)
    if v.op == 'vpush': return v.args[0]
    return mk('vpop', v)
def v_back(v):
    if v.op == 'ite': return lift(v_back, v)
    if v.op == 'vpush': return v.args[1]
    return mk('back', v)
def v_set(v, i, x):
    if v.op == 'ite': return lift(lambda y: v_set(y, i, x), v)
    if v.op == 'vset' and v.args[1] is i: return mk('vset', v.args[0], i, x)
    return mk('vset', v, i, x)
def pair(a, b): return mk('pair', a, b)
def proj(p, i): return lift(lambda x: _proj(x, i), p)
def _proj(p, i):
    if p.op in ('pair', 'tuple') and i < len(p.args): return p.args[i]
    return mk('proj', p, i)
def cat(a, b):
    if a.op == 'ite': return lift(lambda x: cat(x, b), a)
    xs = list(a.args) if a.op == 'cat' else ([] if a is EMPTYSTR else [a])
    ys = list(b.args) if b.op == 'cat' else ([] if b is EMPTYSTR else [b])
    out = []
    for x in xs + ys:
        if out and out[-1].op == 'str' and x.op == 'str': out[-1] = mk('str', out[-1].args[0] + x.args[0])
        else: out.append(x)
    if not out: return EMPTYSTR
    if len(out) == 1: return out[0]
    return mk('cat', *out)
TT.REBUILD.update({
    'sel': lambda m, k: sel(m, k), 'has': lambda m, k: has(m, k), 'size': lambda m: size(m),
    'mstore': lambda m, k, v: _m_store1(m, k, v), 'merase': lambda m, k: m_erase(m, k),
    'vpush': lambda v, x: v_push(v, x), 'vpop': lambda v: v_pop(v), 'back': lambda v: v_back(v),
    'proj': lambda p, i: proj(p, i), 'vset': lambda v, i, x: v_set(v, i, x),
    'sum': lambda d, h, b: mk_sum_h(d, h, b),
    'cat': lambda *a: __import__('functools').reduce(cat, a, EMPTYSTR),
})

# ------------------------------------------------------------------ binders
BINDERS = {'sum', 'maxf', 'minf', 'mcomp', 'vcomp', 'fold', 'merasec'}
def height(t):
    h = 0
    for x in subterms(t):
        if x.op == 'bx': h = max(h, x.args[0])
    return h
def mk_sum_h(dom, h, body):
    """sum over dom of body(bx_h), pulled apart linearly"""
    bx = mk('bx', h)
    if body is ZERO: return ZERO
    if body.op == 'ite':
        # hoist loop-invariant atoms
        at = body.args[0]
        if not contains(at, lambda x: x is bx):
            return mk_ite(at, mk_sum_h(dom, h, body.args[1]), mk_sum_h(dom, h, body.args[2]))
        for x in list(ite_atoms(body)):
            if not contains(x, lambda y: y is bx):
                return mk_ite(x, mk_sum_h(dom, h, restrict(body, {x: True})), mk_sum_h(dom, h, restrict(body, {x: False})))
        return mk('sum', dom, h, body)
    r = ZERO
    for m, c in topoly(body).items():
        free, bound = [], []
        for a, e in m:
            (bound if contains(a, lambda x: x is bx) else free).append((a, e))
        f = frompoly({tuple(free): c})
        if not bound: r = add(r, mul(f, dom_size(dom)))
        else: r = add(r, mul(f, mk('sum', dom, h, frompoly({tuple(bound): Fraction(1)}))))
    return r
def ite_atoms(t):
    seen = set(); st = [t]; out = []
    while st:
        x = st.pop()
        if x.op == 'ite' and x not in seen:
            seen.add(x)
            if x.args[0] not in out: out.append(x.args[0])
            st.append(x.args[1]); st.append(x.args[2])
    return out
def bind(body_terms, bv):
    """close terms over bv -> (height, terms)"""
    h = 1 + max([height(t) for t in body_terms] + [0])
    bx = mk('bx', h)
    return h, [subst(t, {bv: bx}) for t in body_terms]

# ------------------------------------------------------------------ states
class State:
    __slots__ = ('heap', 'epoch', 'locks', 'pc', 'occ')
    def __init__(self):
        self.heap = {}; self.epoch = {}; self.locks = {}; self.pc = TRUE; self.occ = {}
    def copy(self):
        s = State()
        s.heap = dict(self.heap); s.epoch = dict(self.epoch); s.locks = dict(self.locks); s.pc = self.pc; s.occ = dict(self.occ)
        return s

class Event:
    __slots__ = ('kind', 'pc', 'locks', 'loops', 'fn', 'file', 'line', 'd', 'stack')
    def __init__(self, kind, **d):
        self.kind = kind; self.d = d
    def __getattr__(self, k):
        try: return self.d[k]
        except KeyError: raise AttributeError(k)
    def where(self): return '%s:%d' % (self.file, self.line)
    def __repr__(self): return '<%s %s in %s %s pc=%s>' % (self.kind, self.d, self.fn, self.where(), str(self.pc)[:150])

class Frame:
    def __init__(self, fn, this):
        self.fn = fn; self.this = this; self.env = {}; self.returns = []; self.base_scope = 0; self.id = 0; self.file = ''; self.loopdepth = 0

def loc_ite(c, a, b):
    if c is TRUE or a is b: return a
    if c is FALSE: return b
    if c.op == 'ite': return loc_ite(c.args[0], loc_ite(c.args[1], a, b), loc_ite(c.args[2], a, b))
    return mk('ite', c, a, b)
class Interp:
    def __init__(self, prog, family=None, opaque=None, havoc_on_acquire=(), pure=None, record_rw=True, noinline=(), trace=None, watch=()):
        self.p = prog
        TT.reset_budget()
        self.family = family or {}
        self.keep_guard = False
        self.opaque_fn = opaque or (lambda f: None)
        self.havoc_cls = set(havoc_on_acquire)
        self.iterating = []; self.imod_at = ''; self.vrefs = []; self.backrefs = set(); self.orefs = {}; self.irefs = {}; self.noborrow = 0
        self.record_rw = record_rw
        self.events = []
        self.mute = 0
        self.frames = []
        self.scopes = []
        self.loops = []
        self.tries = []
        self.nframe = 0; self.ntmp = 0; self.nnew = 0; self.nunk = 0; self.nep = 0
        self.dyn = {}
        self.dynq = {}
        self.lambdas = {}
        self.st = State()
        self.line = 0
        self.steps = 0
        self.unmodelled = {}
        self.fnset = set()
        self.throws_out = []
        self.maxsteps = 400000
        self.trace = trace      # (mutex field, guarded fields): critical sections become world events
        self.onevec = set()     # vectors whose elements partition one table: every index stands for that table
        self.watch = set(watch); self.snaps = []; self.insub = 0
    # -------------------------------------------------------- helpers
    def unk(self, why):
        self.nunk += 1
        if not self.mute: self.unmodelled[why] = self.unmodelled.get(why, 0) + 1
        return mk('unk', why, self.nunk)
    def tmp(self, v):
        self.ntmp += 1
        l = mk('tmp', self.ntmp)
        self.st.heap[l] = v
        return l
    def ev_emit(self, kind, **d):
        if self.mute: return None
        e = Event(kind, **d)
        e.pc = self.st.pc
        e.locks = dict(self.st.locks)
        e.loops = tuple(self.loops)
        f = self.frames[-1] if self.frames else None
        e.fn = f.fn.get('q', '?') if f else '?'
        e.file = f.file if f else '?'
        e.line = self.line
        e.stack = tuple(x.fn.get('q', '?') for x in self.frames)
        self.events.append(e)
        return e
    def s_ite(self, c, a, b):
        try: return mk_ite(c, a, b)
        except (Blowup, RecursionError): return self.unk('ite-blowup')
    def obj_ptr(self, loc):
        if loc.op == 'deref': return loc.args[0]
        if loc.op == 'ite': return lift(self.obj_ptr, loc)
        return mk('addr', loc)
    def ptr_loc(self, p):
        if p.op == 'addr': return p.args[0]
        return mk('deref', p)
    def default_of(self, t):
        t = strip_type(t)
        b = tbase(t)
        if t in INTT or t in FLT: return FALSE if t == 'bool' else ZERO
        if t.endswith('*') or b in SPTR: return NULL
        if b in MAPS or b in SETS: return MNEW
        if b in MMAPS: return MMNEW
        if b in VECS: return VNEW
        if b == 'std::basic_string': return EMPTYSTR
        if b in DUR: return ZERO
        if b == 'std::pair':
            a = targs(t)
            return pair(self.default_of(a[0]), self.default_of(a[1]))
        return self.unk('default:' + b)
    # -------------------------------------------------------- heap
    def valclass(self, t):
        """fields of a plain value class (no bases, nothing virtual), or None"""
        c = self.p.classes.get(tbase(t)) or self.p.classes.get(t)
        if not c or c['bases'] or not c['fields'] or c.get('virt') or c.get('poly'): return None
        if any(f.get('ref') for f in c['fields']): return None
        return c
    def valfield(self, loc):
        """field of a value object kept inside a container: (element location, index, number of fields)"""
        p = loc.args[0]
        if p.op == 'addr' and p.args[0].op in ('elem', 'itpair', 'projl'):
            cn, _, fn = loc.args[1].rpartition('::')
            c = self.valclass(cn)
            if c:
                for i, f in enumerate(c['fields']):
                    if f['n'] == fn: return p.args[0], i, len(c['fields'])
        return None
    def valof(self, v, t):
        c = self.valclass(t)
        if v.op == 'objval' and c: return mk('tuple' if len(c['fields']) != 2 else 'pair', *[self.load(mk('fld', v.args[0], c['n'] + '::' + f['n']), True) for f in c['fields']])
        return v
    def load(self, loc, quiet=False):
        op = loc.op
        st = self.st
        if op == 'fld':
            vf = self.valfield(loc)
            if vf: return proj(self.load(vf[0], quiet), vf[1])
        if op == 'ite': return lift(lambda l: self.load(l, quiet), loc)
        if op == 'elem':
            if not quiet: self.rw('eread', loc)
            self.insub += 1
            m = self.load(loc.args[0], quiet)
            self.insub -= 1
            k = loc.args[1]
            if loc.args[2] == 'md':
                d = self.default_of(loc.args[3])
                try: return mk_ite(has(m, k), sel(m, k), d)
                except Blowup: return self.unk('blowup')
            try: return sel(m, k)
            except Blowup: return self.unk('blowup')
        if op == 'projl': return proj(self.load(loc.args[0], quiet), loc.args[1])
        if op == 'itpair': return pair(loc.args[0], self.load(loc.args[1], quiet))
        if op == 'deref':
            p = loc.args[0]
            if p.op == 'addr': return self.load(p.args[0], quiet)
            if p.op == 'ite': return lift(lambda q: self.load(self.ptr_loc(q), quiet), p)
        if op == 'fld':
            p = loc.args[0]
            if p.op == 'ite':
                return lift(lambda q: self.load(mk('fld', q, loc.args[1]), quiet), p)
            if not quiet: self.rw('read', loc)
        if op == 'glob' and not quiet: self.rw('read', loc)
        v = st.heap.get(loc)
        if v is not None: return v
        if op in ('var', 'tmp'): return mk('undef', loc)
        if op == 'glob':
            g = self.p.globals.get(loc.args[0])
            if g and 'i' in g and not self.p.global_written(loc.args[0]):
                v = self.ev_global_init(g)
                if v is not None:
                    return v
        if op == 'fld' and loc.args[0].op == 'new': return mk('undef', loc)
        e = st.epoch.get(loc.args[1] if op == 'fld' else None, 0)
        if op == 'fld' and isinstance(loc.args[1], str): pass
        return mk('init', loc, e) if e else mk('init', loc)
    def ev_global_init(self, g):
        c = getattr(self, '_gc', None)
        if c is None: c = self._gc = {}
        if g['u'] in c: return c[g['u']]
        c[g['u']] = None
        save = self.st; self.st = State(); self.mute += 1
        try:
            fr = Frame({'q': 'global'}, None); self.nframe += 1; fr.id = self.nframe
            self.frames.append(fr)
            try: v = self.ev(g['i'])
            except Exception: v = None
            self.frames.pop()
        finally:
            self.st = save; self.mute -= 1
        if v is not None and contains_op(v, {'unk', 'undef'}): v = None
        c[g['u']] = v
        return v
    def rw(self, kind, loc, value=None):
        if self.record_rw and not self.mute:
            self.ev_emit(kind, loc=loc, value=value, sub=bool(self.insub))
    def store(self, loc, v, quiet=False):
        op = loc.op
        if op == 'fld':
            vf = self.valfield(loc)
            if vf:
                o = self.load(vf[0], True)
                parts = [proj(o, j) for j in range(vf[2])]
                parts[vf[1]] = v
                return self.store(vf[0], mk('pair' if vf[2] == 2 else 'tuple', *parts), quiet)
        if op == 'ite':
            # conditional location: update both under the condition
            c, a, b = loc.args
            oa, ob = self.load(a, True), self.load(b, True)
            self.store(a, self.s_ite(c, v, oa), quiet); self.store(b, self.s_ite(c, ob, v), quiet)
            return
        if op == 'elem':
            if not quiet: self.rw('ewrite', loc)
            cl = loc.args[0]
            m = self.load(cl, True)
            k = loc.args[1]
            self.insub += 1
            self.store(cl, v_set(m, k, v) if loc.args[2] == 'v' else _m_store1(m, k, v), quiet)
            self.insub -= 1
            return
        if op == 'projl':
            o = self.load(loc.args[0], True)
            i = loc.args[1]
            n = max(2, i+1)
            if o.op in ('pair', 'tuple'): n = len(o.args)
            parts = [proj(o, j) for j in range(n)]
            parts[i] = v
            self.store(loc.args[0], mk('pair' if n == 2 else 'tuple', *parts), quiet)
            return
        if op == 'itpair':
            self.store(loc.args[1], proj(v, 1), quiet); return
        if op == 'deref':
            p = loc.args[0]
            if p.op == 'addr': return self.store(p.args[0], v, quiet)
            if p.op == 'ite':
                c, a, b = p.args
                return self.store(mk('ite', c, self.ptr_loc(a), self.ptr_loc(b)), v, quiet)
        if op == 'fld':
            p = loc.args[0]
            if p.op == 'ite':
                c, a, b = p.args
                return self.store(mk('ite', c, mk('fld', a, loc.args[1]), mk('fld', b, loc.args[1])), v, quiet)
            if not quiet:
                self.rw('write', loc, v)
                if loc.args[1] in self.watch and not self.mute: self.snaps.append((loc, self.st.copy()))
        if op in ('glob', 'deref') and not quiet: self.rw('write', loc, v)
        self.st.heap[loc] = v
    def havoc_field(self, name):
        self.nep += 1
        self.st.epoch[name] = self.nep
        for l in [l for l in self.st.heap if l.op == 'fld' and l.args[1] == name and l.args[0].op != 'new']:
            del self.st.heap[l]
    def havoc_object(self, ptr):
        """another thread may have changed any field of *ptr"""
        cls = None
        names = set()
        for l in list(self.st.heap):
            if l.op == 'fld' and l.args[0] is ptr:
                names.add(l.args[1])
        c = self.dynclass(ptr, None)
        if c:
            for b in self.p.bases(c):
                if b in self.p.classes:
                    for f in self.p.classes[b]['fields']: names.add(b + '::' + f['n'])
        for n in names: self.havoc_field(n)
    # -------------------------------------------------------- locks
    def lock_key(self, loc): return loc
    def held(self, key, locks=None):
        locks = self.st.locks if locks is None else locks
        v = locks.get(key)
        if v is not None: return v
        for k, g in locks.items():
            if k.op == 'fam':
                mp = match(k.args[1], key, mk('bx', k.args[2]))
                if mp is not None:
                    return subst(k.args[3], {mk('bx', k.args[2]): mp}) if k.args[3] is not TRUE else g
        return FALSE
    def world_event(self, kind, *a):
        self.st.heap[WORLD] = mk('eff', kind, *a, self.load(WORLD, True))
    def traced(self, loc):
        return self.trace is not None and loc.op == 'fld' and loc.args[1] == self.trace[0]
    def trace_rel(self, loc, kind='rel'):
        self.world_event(kind, *[self.load(mk('fld', loc.args[0], f), True) for f in self.trace[1]])
    def trace_acq(self, loc):
        self.world_event('acq')
        w = self.load(WORLD, True)
        for f in self.trace[1]: self.st.heap[mk('fld', loc.args[0], f)] = mk('shared', f, w)
    def acquire(self, loc, how='lock'):
        h = self.held(loc)
        try: h = under(h, self.st.pc)
        except Blowup: pass
        self.ev_emit('acq', lock=loc, held=h, how=how)
        self.st.locks[loc] = TRUE
        if self.traced(loc): self.trace_acq(loc)
        elif loc.op == 'fld':
            c = loc.args[1].rsplit('::', 1)[0]
            if c in self.havoc_cls: self.havoc_object(loc.args[0])
    def release(self, loc, how='unlock'):
        h = self.held(loc)
        try: h = under(h, self.st.pc)
        except Blowup: pass
        self.ev_emit('rel', lock=loc, held=h, how=how)
        if self.traced(loc): self.trace_rel(loc)
        if loc in self.st.locks and not any(k.op == 'fam' and match(k.args[1], loc, mk('bx', k.args[2])) is not None for k in self.st.locks):
            del self.st.locks[loc]
        else: self.st.locks[loc] = FALSE
    # -------------------------------------------------------- merging
    def merge(self, c, s1, s2):
        if s1 is None: return s2
        if s2 is None: return s1
        r = State()
        r.pc = self.s_ite(s1.pc, TRUE, s2.pc) if s1.pc is not s2.pc else s1.pc
        if r.pc.op == 'unk': r.pc = TRUE
        h1, h2 = s1.heap, s2.heap
        for k in set(s1.epoch) | set(s2.epoch):
            e1, e2 = s1.epoch.get(k, 0), s2.epoch.get(k, 0)
            if e1 == e2: r.epoch[k] = e1
            else:
                self.nep += 1; r.epoch[k] = self.nep
        save = self.st
        out = r.heap
        for k, v1 in h1.items():
            v2 = h2.get(k)
            if v2 is None:
                if k.op in ('tmp',) : out[k] = v1; continue
                if k.op == 'var': out[k] = v1; continue
                self.st = s2; v2 = self.load(k, True)
            out[k] = v1 if v1 is v2 else self.s_ite(c, v1, v2)
        for k, v2 in h2.items():
            if k in h1: continue
            if k.op in ('tmp', 'var'): out[k] = v2; continue
            self.st = s1; v1 = self.load(k, True)
            out[k] = v1 if v1 is v2 else self.s_ite(c, v1, v2)
        self.st = save
        for k in set(s1.locks) | set(s2.locks):
            a = s1.locks.get(k); b = s2.locks.get(k)
            if a is None: a = self.held(k, s1.locks)
            if b is None: b = self.held(k, s2.locks)
            v = a if a is b else self.s_ite(c, a, b)
            if v is not FALSE or k in s1.locks and k in s2.locks: r.locks[k] = v
        for k in set(s1.occ) | set(s2.occ): r.occ[k] = max(s1.occ.get(k, 0), s2.occ.get(k, 0))
        return r
    def merge_list(self, sts):
        """[(state, val)] with exclusive pcs -> (state,val)"""
        if not sts: return None, None
        acc, av = sts[-1]
        for s, v in reversed(sts[:-1]):
            try:
                c = under(s.pc, b_or(s.pc, acc.pc))
            except Blowup: c = mk('batom', self.unk('pc-blowup'))
            if c is TRUE and s.pc is not acc.pc: c = s.pc
            if c is TRUE: c = mk('batom', mk('sym', 'choice'))
            acc2 = self.merge(c, s, acc)
            if v is not None or av is not None:
                if v is None: v = VOID
                if av is None: av = VOID
                av = v if v is av else self.s_ite(c, v, av)
            acc = acc2
        return acc, av
    # -------------------------------------------------------- scopes
    def push_scope(self): self.scopes.append([])
    def run_dtors(self, frm):
        for sc in reversed(self.scopes[frm:]):
            for d in reversed(sc): self.run_dtor(d)
    def pop_scope(self, alive):
        if alive:
            for d in reversed(self.scopes[-1]): self.run_dtor(d)
        self.scopes.pop()
    def run_dtor(self, d):
        kind, ptr, x = d
        if kind == 'guard':
            for i in range(x):
                m = self.st.heap.get(mk('fld', ptr, '$mtx%d' % i))
                own = self.st.heap.get(mk('fld', ptr, '$own%d' % i), FALSE)
                if m is None or m.op == 'nomtx': continue
                self.cond_release(m, own)
                self.st.heap[mk('fld', ptr, '$own%d' % i)] = FALSE
        elif kind == 'obj':
            if len(self.frames) < 40 and sum(1 for f in self.frames if f.fn is x) == 0:
                self.call_fn(x, ptr, [])
    def cond_release(self, m, own):
        try: own = under(own, self.st.pc)
        except Blowup: pass
        if own is FALSE: return
        if own is TRUE:
            self.release(self.pick(m, self.st.pc), 'guard'); return
        base = self.st
        s1 = base.copy(); s1.pc = self.s_ite(base.pc, own, FALSE)
        s2 = base.copy(); s2.pc = self.s_ite(base.pc, b_not(own), FALSE)
        self.st = s1; self.release(self.pick(m, s1.pc), 'guard')
        self.st = self.merge(own, self.st, s2)
    def pick(self, m, pc):
        """the mutex a handle holds on this path"""
        if m.op != 'ite': return m
        try: return under(m, pc)
        except Blowup: return m
    def guard_move(self, src, dst):
        """a lock handle moves: the destination takes over what the source owned"""
        for a, empty in (('$mtx0', mk('nomtx')), ('$own0', FALSE)):
            self.st.heap[mk('fld', dst, a)] = self.st.heap.get(mk('fld', src, a), empty)
            self.st.heap[mk('fld', src, a)] = empty
    def guard_init(self, ptr, mtxlocs, defer=False, adopt=False, how='guard'):
        for i, m in enumerate(mtxlocs):
            self.st.heap[mk('fld', ptr, '$mtx%d' % i)] = m
            if not defer and not adopt: self.acquire(m, how)
            self.st.heap[mk('fld', ptr, '$own%d' % i)] = FALSE if defer else TRUE
        self.st.heap[mk('fld', ptr, '$n')] = num(len(mtxlocs))
        if not mtxlocs: self.st.heap[mk('fld', ptr, '$mtx0')] = mk('nomtx'); self.st.heap[mk('fld', ptr, '$own0')] = FALSE
    # -------------------------------------------------------- dynamic classes
    def dynclass(self, ptr, static):
        if ptr.op == 'new': return ptr.args[0]
        if ptr in self.dyn: return self.dyn[ptr]
        if ptr.op == 'addr' and ptr in self.dynq: return self.dynq[ptr]
        if ptr.op == 'ite':
            a = self.dynclass(ptr.args[1], static); b = self.dynclass(ptr.args[2], static)
            if a == b: return a
        if static:
            for base, k in self.family.items():
                if self.p.is_sub(static, base):
                    return k if (self.p.is_sub(k, static) or self.p.is_sub(static, k)) else static
        return None
    # -------------------------------------------------------- calls
    def call_fn(self, fn, this, args, ret_loc=False):
        """args: list of ('v',value) | ('l',loc)"""
        self.steps += 1
        if len(self.frames) > 60: return self.unk('depth')
        if sum(1 for f in self.frames if f.fn is fn) >= 2: return self.unk('recursion:' + fn['q'])
        self.fnset.add(fn['u'] if 'u' in fn else fn.get('q'))
        fr = Frame(fn, this)
        self.nframe += 1; fr.id = self.nframe
        fr.file = fn.get('file', '?')
        ps = fn['ps']
        save_line = self.line
        nscope = len(self.scopes)
        self.scopes.append([])
        fr.base_scope = nscope
        for i, prm in enumerate(ps):
            l = mk('var', fr.id, prm['d'])
            if i < len(args):
                kind, x = args[i]
                if prm.get('ref'):
                    fr.env[prm['d']] = x if kind == 'l' else self.tmp(x)
                else:
                    v = x if kind == 'v' else self.load(x)
                    self.st.heap[l] = v
                    fr.env[prm['d']] = l
            elif 'def' in prm:
                self.frames.append(fr)
                if prm.get('ref'): fr.env[prm['d']] = self.ev_loc(prm['def'])
                else:
                    self.st.heap[l] = self.ev(prm['def']); fr.env[prm['d']] = l
                self.frames.pop()
            else:
                fr.env[prm['d']] = l
        self.ev_emit('enter', q=fn.get('q'), u=fn.get('u'), this=this, args=[a for a in args], argv=None)
        entry_pc = self.st.pc
        self.frames.append(fr)
        svloops = self.loops
        try:
            alive = True
            if fn.get('ctor'): 
                alive = self.run_inits(fn, this, fr)
            if alive:
                alive = self.exec(fn['body'])
            if alive:
                self.run_dtors(fr.base_scope)
                fr.returns.append((self.st, None))
        finally:
            self.frames.pop()
            del self.scopes[nscope:]
        self.line = save_line
        if not fr.returns:
            self.st = None
            raise PathEnd()
        st, v = self.merge_list(fr.returns)
        if len(fr.returns) > 1 or True:
            # normalise pc: when no path was lost the pc is the entry pc
            pass
        self.st = st
        # drop callee locals
        if len(st.heap) > 80:
            dead = [k for k in st.heap if k.op == 'var' and k.args[0] == fr.id]
            keep = set()
            if v is not None and contains_op(v, {'addr', 'var'}): dead = []
            for k in dead: 
                if not self._addr_taken(k): del st.heap[k]
        return v if v is not None else VOID
    def _addr_taken(self, loc):
        return False
    def run_inits(self, fn, this, fr):
        for it in fn.get('inits', []):
            self.line = it.get('l', self.line)
            if it['k'] == 'field':
                loc = mk('fld', this, it['c'] + '::' + it['n'])
                self.init_loc(loc, it['t'], it['e'], ref=it['t'].endswith('&'))
            elif it['k'] in ('base', 'deleg'):
                e = it['e']
                if e and e.get('k') == 'ctor': self.construct(e, this, is_base=True)
        return True
    def init_loc(self, loc, t, e, ref=False):
        """initialise location of type t from initialiser e"""
        if e is None:
            self.st.heap[loc] = mk('undef', loc); return
        ty = strip_type(t)
        b = tbase(ty)
        if ref:
            x = self.ev_loc(e)
            self.st.heap[mk('refof', loc)] = x
            return
        if b in GUARDS or (b in self.p.classes) or b in MUTEXES or b in CVS:
            k = e
            while k and k.get('k') in ('temp', 'cast') : k = k['e']
            if k and k.get('k') == 'ctor':
                return self.construct(k, mk('addr', loc), decl=True)
            if k and k.get('k') == 'ilist' and b in self.p.classes:
                return self.aggregate(k, mk('addr', loc), ty)
            v = self.ev(e)
            if b in GUARDS:
                if v.op == 'objval': self.guard_move(v.args[0], mk('addr', loc))
                self.scopes[-1].append(('guard', mk('addr', loc), 1))
                return
            self.copy_object(v, mk('addr', loc), ty)
            return
        v = self.ev(e)
        self.store(loc, v, quiet=(loc.op != 'fld'))
    def aggregate(self, k, ptr, ty):
        c = self.p.classes.get(tbase(ty)) or self.p.classes.get(ty)
        self.dynq[ptr] = ty
        if c:
            for f, e in zip(c['fields'], k['a']):
                self.init_loc(mk('fld', ptr, c['n'] + '::' + f['n']), f['t'], e, ref=bool(f.get('ref')))
    def copy_object(self, src, dst, ty):
        self.dynq[dst] = ty
        if src.op == 'addr' and src.args[0].op in ('elem', 'itpair', 'projl') and self.valclass(ty):
            c = self.valclass(ty)
            for f in c['fields']:
                n = c['n'] + '::' + f['n']
                self.st.heap[mk('fld', dst, n)] = self.load(mk('fld', src, n))
            return
        if src.op in ('new', 'addr', 'deref', 'objval'):
            sp = src if src.op != 'objval' else src.args[0]
            for l in [l for l in self.st.heap if l.op == 'fld' and l.args[0] is sp]:
                self.st.heap[mk('fld', dst, l.args[1])] = self.st.heap[l]
            own = self.st.heap.get(mk('alias', sp))
            self.st.heap[mk('alias', dst)] = sp
        else:
            self.st.heap[mk('alias', dst)] = src
    def construct(self, e, ptr, is_base=False, decl=False):
        """run a constructor expression on object *ptr (repo class or RAII guard)"""
        f = e['f']
        cls = f['c']; b = tbase(cls)
        if b in GUARDS:
            locs = []; defer = adopt = False
            keep, self.keep_guard = self.keep_guard, False
            for a in e['a']:
                t = a.get('t', '') if isinstance(a, dict) else ''
                nm = str(a.get('q', '')) + str(t)
                if 'defer_lock' in nm: defer = True
                elif 'adopt_lock' in nm: adopt = True
                elif 'try_to_lock' in nm: locs and None
                else: locs.append(self.ev_loc(a))
            if f.get('copy') and len(locs) == 1:
                self.guard_move(self.obj_ptr(locs[0]), ptr)
                if decl: self.scopes[-1].append(('guard', ptr, 1))
                return
            locs = [self.mutex_of(l) for l in locs]
            self.guard_init(ptr, locs, defer, adopt)
            if decl: self.scopes[-1].append(('guard', ptr, max(1, len(locs))))
            elif not keep:
                for m in locs:
                    if not defer: self.release(m, 'temporary-guard')
                for i in range(len(locs)): self.st.heap[mk('fld', ptr, '$own%d' % i)] = FALSE
            return
        if b in MUTEXES or b in CVS or cls.startswith('std::'):
            for a in e['a']: self.ev(a)
            return
        fn = self.p.fns.get(f['u'])
        if not is_base: self.dynq[ptr] = cls
        if fn is None:
            if f.get('copy') and e['a']:
                self.copy_object(self.obj_ptr(self.ev_loc(e['a'][0])), ptr, cls)
            else:
                for a in e['a']: self.ev(a)
                self.default_fields(cls, ptr)
            return
        args = self.ev_args(fn, e['a'])
        self.call_fn(fn, ptr, args)
        if decl:
            d = self.dtor_of(cls)
            if d: self.scopes[-1].append(('obj', ptr, d))
    def dtor_of(self, cls):
        for f in self.p.fns.values():
            if f.get('dtor') and f.get('c') == cls and not f.get('defaulted') and not f.get('impl'): return f
        return None
    def default_fields(self, cls, ptr):
        c = self.p.classes.get(cls)
        if not c: return
        for b in c['bases']: self.default_fields(b, ptr)
        for f in c['fields']:
            l = mk('fld', ptr, cls + '::' + f['n'])
            if 'i' in f: self.init_loc(l, f['t'], f['i'], ref=bool(f.get('ref')))
            elif f.get('scalar'): self.st.heap[l] = mk('undef', l)
            else:
                b = tbase(f['t'])
                if b in MAPS or b in VECS or b in MMAPS or b in SPTR or b == 'std::basic_string' or b in SETS: self.st.heap[l] = self.default_of(f['t'])
    def mutex_of(self, loc):
        """a lockable passed by reference: mutex location, or the mutex owned by a unique_lock variable"""
        p = self.obj_ptr(loc)
        m = self.st.heap.get(mk('fld', p, '$mtx0'))
        if m is not None: return m
        return loc
    def ev_args(self, fn, exprs):
        out = []
        ps = fn['ps']
        for i, a in enumerate(exprs):
            if i < len(ps) and ps[i].get('ref'): out.append(('l', self.ev_loc(a)))
            else: out.append(('v', self.ev_byval(a, ps[i]['t'] if i < len(ps) else '')))
        return out
    def ev_byval(self, a, t):
        b = tbase(t)
        if b in self.p.classes:
            k = a
            while k.get('k') in ('temp', 'cast'): k = k['e']
            ptr = mk('addr', self.tmp(VOID))
            if k.get('k') == 'ctor':
                self.construct(k, ptr)
            else:
                self.copy_object(self.obj_ptr(self.ev_loc(a)), ptr, t)
            return mk('objval', ptr)
        return self.ev(a)
    def occ(self, name):
        n = self.st.occ.get(name, 0)
        self.st.occ[name] = n + 1
        return n
    MODS = {}
    def may_write(self, f, i):
        """does the body of f write through its i-th reference parameter?"""
        tgt = self.p.fns.get(f.get('u')) if f.get('u') else None
        if tgt is None or not tgt.get('body'): return True
        k = (id(self.p), tgt['u'])
        if k not in Interp.MODS:
            Interp.MODS[k] = None
            it = Interp(self.p, family=self.family, opaque=lambda g: None if g is tgt or g['q'] == tgt['q'] else 'pure')
            args = []
            for j, prm in enumerate(tgt['ps']):
                s = mk('sym', 'modarg%d' % j)
                args.append(('l', mk('deref', s)) if prm.get('ref') else ('v', s))
            try:
                it.call_fn(tgt, mk('this') if tgt.get('c') and not tgt.get('st') else None, args)
                w = set()
                if it.unmodelled: w = None
                else:
                    for l in it.st.heap:
                        for x in subterms(l):
                            if x.op == 'sym' and str(x.args[0]).startswith('modarg') and it.st.heap[l] is not mk('init', l): w.add(int(x.args[0][6:]))
                Interp.MODS[k] = w
            except Exception: Interp.MODS[k] = None
        w = Interp.MODS[k]
        return True if w is None else i in w
    def stream_param(self, f, i):
        """is the i-th parameter a stream? (its value is the text written so far)"""
        t = self.p.fns.get(f.get('u')) or {}
        ps = t.get('ps') or []
        return i < len(ps) and tbase(strip_type(str(ps[i].get('t', '')))) in STREAMS
    def opaque_call(self, f, this, args, mode):
        """args: [('v',val)|('l',loc)] ; f: function ref record"""
        vals = []
        outs = []
        pm = f.get('pm', [])
        for i, (k, x) in enumerate(args):
            if k == 'l':
                m = pm[i] if i < len(pm) else 'cr'
                if self.is_object_loc(x) and not self.stream_param(f, i): vals.append(self.obj_ptr(x))
                else:
                    vals.append(self.load(x))
                    if m == 'r' and self.may_write(f, i): outs.append((i, x))
            else: vals.append(x)
        if mode == 'create':
            # children[key] = new child, unless the key already has one; the same child is returned
            cf = [b + '::children' for b in ('thts::ThtsDNode', 'thts::ThtsCNode') if f['q'].startswith(b + '::')][0]
            loc = mk('fld', this, cf)
            m = self.load(loc, True)
            r = mk('call', f['q'], this, *vals)
            h = has(m, vals[0])
            r = mk_ite(h, sel(m, vals[0]), r)
            self.ev_emit('call', q=f['q'], this=this, args=vals, ret=r, mode=mode)
            self.store(loc, mk_ite(h, m, _m_store1(m, vals[0], r)))
            return r
        a = ((this,) if this is not None else ()) + tuple(vals)
        if mode == 'nondet': a = a + (num(self.occ(f['q'])),)
        if mode in ('eff', 'rdw', 'effc', 'effs'): a = a + (self.load(WORLD, True),)
        if mode in ('rdc',): a = a + (self.load(CWORLD, True),)
        if mode == 'effs':
            c = self.p.classes.get(f.get('c') or '')
            for fl in (c['fields'] if c else []):
                if tbase(strip_type(fl['t'])) not in MUTEXES | CVS | {'std::vector'}: a = a + (self.load(mk('fld', this, c['n'] + '::' + fl['n']), True),)
        rt = f.get('rt', '')
        def mkcall(*aa):
            return mk('bcall' if strip_type(rt) == 'bool' else 'call', f['q'], *aa)
        try: r = lift(mkcall, *a) if mode != 'event' else mkcall(*a)
        except Blowup: r = mkcall(*a)
        self.ev_emit('call', q=f['q'], this=this, args=vals, ret=r, mode=mode)
        for i, l in outs: self.store(l, mk('out', r, i))
        if mode in ('eff', 'effc', 'effs'): self.st.heap[WORLD] = mk('eff', r)
        if mode == 'effc': self.st.heap[CWORLD] = mk('effc', r, self.load(CWORLD, True))
        return r
    def is_object_loc(self, l):
        if l.op == 'deref' and l.args[0].op != 'addr': return l not in self.st.heap and not (l.args[0] in self.dyn and self.dyn[l.args[0]] == '$scalar')
        p = mk('addr', l)
        return p in self.dynq
    def call_repo(self, f, this, arg_exprs, static_cls=None, virtual=False, e=None, args=None):
        """call of a repository function by reference record f"""
        u = f['u']
        tgt = self.p.fns.get(u)
        mode = self.opaque_fn(f)
        dynamic = None
        if mode is None and virtual:
            d = self.dynclass(this, static_cls or f.get('c'))
            if d is None:
                # not a class we know the dynamic type of: unique implementation or opaque
                d0 = f.get('c')
                impls = self.implementations(u, static_cls or d0)
                if len(impls) == 1: tgt = self.p.fns.get(impls[0]); 
                else: mode = 'pure' if f.get('cst') else 'nondet'
            else:
                r = self.p.resolve(u, d)
                tgt = self.p.fns.get(r) if r else None
                if r and tgt: mode = self.opaque_fn(tgt)
        if tgt is None and mode is None:
            mode = 'pure' if f.get('cst') else 'nondet'
        if args is None:
            if tgt is not None: args = self.ev_args(tgt, arg_exprs)
            else:
                args = []
                pm = f.get('pm', [])
                for i, a in enumerate(arg_exprs):
                    if i < len(pm) and pm[i] in ('r', 'cr', 'rr'): args.append(('l', self.ev_loc(a)))
                    else: args.append(('v', self.ev(a)))
        if mode is not None: return self.opaque_call(f if tgt is None else dict(f, **{k: tgt[k] for k in ('q', 'rt') if k in tgt}), this, args, mode)
        return self.call_fn(tgt, this, args)
    def implementations(self, u, cls):
        out = set()
        for c in self.p.all_subs(cls):
            if self.p.classes[c].get('abs'): continue
            r = self.p.resolve(u, c)
            if r: out.add(r)
        return list(out)
    # -------------------------------------------------------- expressions
    def ev(self, e):
        """value of expression"""
        if e is None: return VOID
        m = getattr(self, 'e_' + e['k'], None)
        if 'l' in e: self.line = e['l']
        if m is None: return self.unk('expr:' + e['k'])
        try:
            r = m(e, False)
        except Blowup:
            return self.unk('blowup')
        return r
    def ev_loc(self, e):
        if e is None: return self.tmp(self.unk('none'))
        k = e['k']
        if 'l' in e: self.line = e['l']
        if k in LV:
            m = getattr(self, 'e_' + k)
            return m(e, True)
        return self.tmp(self.ev(e))
    def rd(self, loc, want): return loc if want else self.load(loc)
    def e_int(self, e, w): return num(int(e['v']))
    def e_float(self, e, w):
        v = e['v']
        if 'INF' in v.upper(): return INF
        return num(Fraction(v))
    def e_bool(self, e, w): return boolc(e['v'])
    def e_str(self, e, w): return mk('str', e['v'])
    def e_null(self, e, w): return NULL
    def e_this(self, e, w): return self.frames[-1].this if self.frames[-1].this is not None else self.unk('this')
    def e_fn(self, e, w):
        return self.tmp(mk('fnref', e['f']['u'], e['f']['q'])) if w else mk('fnref', e['f']['u'], e['f']['q'])
    def e_load(self, e, w):
        v = self.load(self.ev_loc(e['e']))
        if w: return self.tmp(v)
        return v
    def e_temp(self, e, w):
        x = e['e']
        t = tbase(e.get('t', ''))
        k = x
        while k.get('k') in ('temp', 'cast'): k = k['e']
        if w:
            if k.get('k') == 'ctor' and (t in self.p.classes or strip_type(e.get('t', '')) in self.p.classes):
                l = self.tmp(VOID); self.construct(k, mk('addr', l)); return l
            v = self.ev(x)
            if v.op == 'objval': return self.ptr_loc(v.args[0])
            return self.tmp(v)
        return self.ev(x)
    def e_zero(self, e, w): return self.default_of(e['t'])
    def e_var(self, e, w):
        if 'g' in e and e['d'] not in self.frames[-1].env:
            l = mk('glob', e['g'])
            return self.rd(l, w)
        fr = self.frames[-1]
        l = fr.env.get(e['d'])
        if l is None:
            l = mk('var', fr.id, e['d'])
        if self.vrefs:
            for c, fid, d, m in self.vrefs:
                if fid == fr.id and d == e['d']:
                    x = self.st.heap.get(m, FALSE)
                    if x is not FALSE: self.ev_emit('stale', var=e.get('n'), cond=x, at=self.imod_at)
        if self.orefs:
            o = self.orefs.get((fr.id, e['d']))
            if o is not None and not self.noborrow: self.check_owner(e.get('n'), *o)
        m = self.irefs.get((fr.id, e['d'])) if self.irefs else None
        if m is not None and not self.noborrow:
            x = self.st.heap.get(m, FALSE)
            if x is not FALSE: self.ev_emit('stale', var=e.get('n'), cond=x, at=self.imod_at, what='was erased')
        return self.rd(l, w)
    def check_owner(self, name, ol, x):
        """a reference borrowed from what the local smart pointer at ol owned: is the object still owned by anything?"""
        v = self.st.heap.get(ol)
        if v is None or v is x: return
        for l, y in self.st.heap.items():
            if l.op == 'tmp' or l is ol or l.op == 'fld' and l.args[0] is x: continue
            if y is x or any(z is x for z in subterms(y)): return
        c = eq(v, x)
        self.ev_emit('stale', var=name, cond=b_not(c) if c.op != 'unk' else TRUE, at='%s:%s' % (self.frames[-1].file, self.line), what='lost its owner')
    def iter_var(self, e):
        while e.get('k') in ('cast', 'load', 'paren', 'temp') or e.get('k') == 'ctor' and len(e.get('a', ())) == 1: e = e['e'] if 'e' in e else e['a'][0]
        return e if e.get('k') == 'var' and 'g' not in e else None
    def e_mem(self, e, w):
        n = e['n']; c = e['c']
        if e['arrow']: p = self.ev(e['b']); bl = self.ptr_loc(p) if p.op != 'ite' else None
        else:
            bl = self.ev_loc(e['b']); p = self.obj_ptr(bl)
        if tbase(c) in ('std::pair',) and n in ('first', 'second'):
            i = 0 if n == 'first' else 1
            if bl is None: bl = self.tmp(self.load(mk('deref', p)))
            if bl.op == 'itpair':
                l = self.tmp(bl.args[0]) if i == 0 else bl.args[1]
            else: l = mk('projl', bl, i)
            return self.rd(l, w)
        a = self.st.heap.get(mk('alias', p))
        l = mk('fld', p, c + '::' + n)
        if a is not None and l not in self.st.heap: l = mk('fld', a, c + '::' + n)
        if e.get('ref'):
            r = self.st.heap.get(mk('refof', l))
            if r is None: r = mk('deref', mk('init', l))
            return self.rd(r, w)
        return self.rd(l, w)
    def e_cast(self, e, w):
        ck = e['ck']
        if ck == 'Dynamic':
            t = strip_type(e['t'].rstrip('*').strip())
            if e.get('gl'):
                l = self.ev_loc(e['e']); p = self.obj_ptr(l)
                c = self.isa(p, t)
                if c is not TRUE: self.cond_throw(b_not(c), 'std::bad_cast')
                return l if w else self.load(l)
            p = self.ev(e['e'])
            v = mk_ite(self.isa(p, t), p, NULL)
            return self.tmp(v) if w else v
        if w:
            return self.ev_loc(e['e'])
        v = self.ev(e['e'])
        if ck == 'PointerToBoolean': return ptr_bool(v)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'): return as_bool(v)
        if ck == 'FloatingToIntegral':
            return lift(lambda x: x if x.op == 'num' and x.args[0].denominator == 1 else (num(int(x.args[0])) if x.op == 'num' else mk('trunc', x)), v)
        if ck in ('IntegralToFloating', 'IntegralCast', 'FloatingCast'): return self.narrowed(strip_type(e.get('t', '')), as_num(v))
        if ck == 'NullToPointer': return NULL
        if ck == 'ToVoid': return VOID
        return v
    def narrowed(self, t, v):
        """a number stored in a type that cannot hold every int / double: a rounded (float) or wrapped (short, char) version of it"""
        if t == 'float':
            return lift(lambda x: num(Fraction(struct.unpack('f', struct.pack('f', float(x.args[0])))[0])) if x.op == 'num' else x if x.op == 'fn' and x.args[0] == 'f32' else mk('fn', 'f32', x), v)
        if t in ('short', 'unsigned short', 'char', 'unsigned char', 'signed char'):
            return lift(lambda x: x if x.op == 'num' and 0 <= x.args[0] < 128 else mk('narrow', t, x), v)
        return v
    def isa(self, p, cls):
        d = self.dynclass(p, None)
        if not d:
            # every node of a family has the family's class
            for base, k in self.family.items():
                if self.p.is_sub(cls, base): d = k
        if d: return boolc(self.p.is_sub(d, cls))
        return lift(lambda q: mk('isa', q, cls), p)
    def cond_throw(self, c, typ):
        try: c = under(c, self.st.pc)
        except Blowup: pass
        if c is FALSE: return
        base = self.st
        if self.tries:
            s = base.copy(); s.pc = self.s_ite(base.pc, c, FALSE)
            tr = self.tries[-1]
            sv = self.st; self.st = s
            self.run_dtors_quiet(tr['scope'])
            tr['throws'].append((self.st, typ)); self.st = sv
        else:
            self.ev_emit('throw', typ=typ, cond=c)
        base.pc = self.s_ite(base.pc, b_not(c), FALSE)
        if base.pc is FALSE: raise PathEnd()
    def run_dtors_quiet(self, frm):
        for sc in reversed(self.scopes[frm:]):
            for d in reversed(sc):
                if d[0] == 'guard': self.run_dtor(d)
    def e_throw(self, e, w):
        typ = ''
        if e.get('e'):
            typ = strip_type(e['e'].get('t', ''))
            try: self.ev(e['e'])
            except PathEnd: pass
        self.ev_emit('throw', typ=typ, cond=TRUE)
        if self.tries:
            tr = self.tries[-1]
            self.run_dtors_quiet(tr['scope'])
            tr['throws'].append((self.st, typ))
        else:
            self.run_dtors_quiet(0)
            self.throws_out.append((self.st, typ, dict(self.st.locks)))
        self.st = None
        raise PathEnd()
    def e_bin(self, e, w):
        op = e['op']
        if op in ('&&', '||'):
            a = as_bool(self.ev(e['a']))
            stop = FALSE if op == '&&' else TRUE
            try: a2 = under(a, self.st.pc)
            except Blowup: a2 = a
            if a2 is stop: return stop
            if a2 is TRUE or a2 is FALSE: return as_bool(self.ev(e['b']))
            base = self.st
            c = a if op == '&&' else b_not(a)
            s1 = base.copy(); s1.pc = self.s_ite(base.pc, c, FALSE)
            s2 = base.copy(); s2.pc = self.s_ite(base.pc, b_not(c), FALSE)
            self.st = s1
            try:
                b = as_bool(self.ev(e['b']))
            except PathEnd:
                self.st = s2
                return stop
            self.st = self.merge(c, self.st, s2)
            return b_and(a, b) if op == '&&' else b_or(a, b)
        if op == ',':
            self.ev(e['a']); return self.ev(e['b'])
        a = self.ev(e['a']); b = self.ev(e['b'])
        lt_ = strip_type(e.get('lt', ''))
        if op in ('==', '!=') and lt_ in FLT and a is b and a.op != 'num':
            x, y = self.iter_var(e['a']), self.iter_var(e['b'])
            if x is not None and y is not None and x['d'] == y['d']:        # the test for not-a-number
                r = mk('bcall', 'isnan', a)
                return r if op == '!=' else b_not(r)
        return self.arith(op, a, b, strip_type(e['t']), lt_)
    def arith(self, op, a, b, t, lt_):
        isint = lt_ in INTT
        if op in ('==', '!='):
            if lt_ in INTT or lt_ in FLT:
                if lt_ != 'bool':
                    a, b = as_num(a), as_num(b)
                    if a is not b and lt_ in FLT: a, b = add(a, mul(num(-1), b)), ZERO
            r = eq(a, b)
            return r if op == '==' else b_not(r)
        if op in ('<', '>', '<=', '>='):
            a, b = as_num(a), as_num(b)
            if op == '<': return lt(a, b, isint)
            if op == '>': return lt(b, a, isint)
            if op == '<=': return b_not(lt(b, a, isint))
            return b_not(lt(a, b, isint))
        if lt_.endswith('*'): return self.unk('ptr-arith')
        a, b = as_num(a), as_num(b)
        if op == '+': return add(a, b)
        if op == '-': return sub(a, b)
        if op == '*': return mul(a, b)
        if op == '/':
            if t in INTT: return idiv(a, b)
            return div(a, b)
        if op == '%': return mod(a, b)
        if op in ('&', '|', '^') and self.boolish(a) and self.boolish(b):
            x, y = as_bool(a), as_bool(b)
            return as_num(b_and(x, y) if op == '&' else b_or(x, y) if op == '|' else mk_ite(x, b_not(y), y))
        if op == '&': return band(a, b)
        return lift(lambda x, y: mk('bop', op, x, y), a, b)
    def boolish(self, x):
        """a term whose value can only be 0/false or 1/true"""
        if x.op == 'ite': return self.boolish(x.args[1]) and self.boolish(x.args[2])
        return x.op == 'bool' or x.op in BOOLOPS or (x.op == 'num' and x.args[0] in (0, 1))
    def e_assign(self, e, w):
        v = self.ev(e['b'])
        l = self.ev_loc(e['a'])
        self.store(l, v)
        return l if w else v
    def e_cassign(self, e, w):
        b = self.ev(e['b'])
        l = self.ev_loc(e['a'])
        a = self.load(l)
        lt_ = strip_type(e['lt'])
        ct = strip_type(e.get('ct', lt_))
        if lt_ == 'bool' and e['op'] == '|=': v = b_or(as_bool(a), as_bool(b))
        elif lt_ == 'bool' and e['op'] == '&=' and self.boolish(b): v = b_and(as_bool(a), as_bool(b))
        elif lt_ == 'bool' and e['op'] == '^=' and self.boolish(b): v = mk_ite(as_bool(a), b_not(as_bool(b)), as_bool(b))
        else: v = self.arith(e['op'][:-1], a, b, ct, ct)
        if lt_ in INTT and ct in FLT: v = lift(lambda x: x if x.op == 'num' and x.args[0].denominator == 1 else mk('trunc', x), v)
        if lt_ == 'bool': v = as_bool(v)
        v = self.narrowed(lt_, v)
        self.store(l, v)
        return l if w else v
    def e_un(self, e, w):
        op = e['op']
        if op in ('++', '--'):
            l = self.ev_loc(e['e'])
            a = self.load(l)
            v = add(as_num(a), ONE if op == '++' else num(-1))
            self.store(l, v)
            if e.get('post'): return self.tmp(a) if w else a
            return l if w else v
        if op == '*':
            p = self.ev(e['e'])
            l = self.ptr_loc(p) if p.op != 'ite' else mk('ite', p.args[0], self.ptr_loc(p.args[1]), self.ptr_loc(p.args[2]))
            return self.rd(l, w)
        if op == '&':
            sub_ = e['e']
            if sub_['k'] in ('fn', 'mfn'):
                return mk('fnref', sub_['f']['u'], sub_['f']['q'])
            return self.obj_ptr(self.ev_loc(sub_))
        v = self.ev(e['e'])
        if op == '!': return b_not(as_bool(v))
        if op == '-': return neg(as_num(v))
        if op == '+': return as_num(v)
        return lift(lambda x: mk('uop', op, x), v)
    def e_cond(self, e, w):
        c = as_bool(self.ev(e['c']))
        try: c2 = under(c, self.st.pc)
        except Blowup: c2 = c
        f = self.ev_loc if w else self.ev
        if c2 is TRUE: return f(e['a'])
        if c2 is FALSE: return f(e['b'])
        base = self.st
        s1 = base.copy(); s1.pc = self.s_ite(base.pc, c2, FALSE)
        s2 = base.copy(); s2.pc = self.s_ite(base.pc, b_not(c2), FALSE)
        r = []
        for s, x in ((s1, e['a']), (s2, e['b'])):
            self.st = s
            try: r.append((f(x), self.st))
            except PathEnd: r.append((None, None))
        (v1, t1), (v2, t2) = r
        self.st = self.merge(c2, t1, t2)
        if self.st is None: raise PathEnd()
        if v1 is None: return v2
        if v2 is None: return v1
        if v1 is v2: return v1
        if w: return loc_ite(c2, v1, v2)
        return self.s_ite(c2, v1, v2)
    def e_idx(self, e, w):
        a = self.ev(e['a']); b = self.ev(e['b'])
        l = mk('elem', self.ptr_loc(a), b, 'v')
        return self.rd(l, w)
    def e_new(self, e, w):
        self.nnew += 1
        p = mk('new', strip_type(e['t']), self.nnew)
        i = e.get('i')
        if i and i.get('k') == 'ctor': self.construct(i, p)
        return p
    def e_delete(self, e, w): self.ev(e['e']); return VOID
    def e_ilist(self, e, w):
        t = strip_type(e['t']); b = tbase(t)
        if t in self.p.classes:
            p = mk('addr', self.tmp(VOID))
            self.aggregate(e, p, t)
            return mk('objval', p)
        vs = [self.ev(a) for a in e['a']]
        if b == 'std::pair' and len(vs) == 2: return pair(*vs)
        if len(vs) == 1 and (t in INTT or t in FLT): return vs[0]
        if not vs and (t in INTT or t in FLT or t.endswith('*')): return self.default_of(t)
        v = VNEW
        for x in vs: v = v_push(v, x)
        return v
    def e_sizeof(self, e, w): return mk('sym', 'sizeof')
    def e_typeid(self, e, w):
        if 'e' in e:
            l = self.ev_loc(e['e'])
            return mk('typeid', self.obj_ptr(l))
        return mk('typeidc', e.get('ty', ''))
    def e_unk(self, e, w):
        for s in e.get('sub', []): self.ev(s)
        v = self.unk('ast:' + e.get('cls', '?'))
        return self.tmp(v) if w else v
    def e_mfn(self, e, w): return mk('fnref', e['f']['u'], e['f']['q'])
    def e_lambda(self, e, w):
        self.ntmp += 1
        env = {}
        fr = self.frames[-1]
        for c in e['caps']:
            if c.get('this'): continue
            if 'd' not in c: continue
            if c.get('ref') and not c.get('init'):
                env[c['d']] = fr.env.get(c['d'], mk('var', fr.id, c['d']))
            else:
                if c.get('init'): v = self.ev(c['i']) if c.get('i') else self.unk('cap')
                else: v = self.load(fr.env.get(c['d'], mk('var', fr.id, c['d'])))
                env[c['d']] = self.tmp(v)
        v = mk('lambda', self.ntmp)
        self.lambdas[v] = (e, env, fr.this, fr.file)
        return self.tmp(v) if w else v
    def call_lambda(self, lam, args, u=None):
        """args [('v',)|('l',)]"""
        if lam.op == 'fnref':
            fn = self.p.fns.get(lam.args[0])
            if fn is None: return self.opaque_call({'q': lam.args[1], 'rt': '', 'pm': []}, None, args, 'pure')
            return self.call_repo({k: fn[k] for k in ('u', 'q', 'n', 'pm', 'rt') if k in fn}, None, None, args=args)
        if lam not in self.lambdas:
            vals = [x if k == 'v' else (self.obj_ptr(x) if self.is_object_loc(x) else self.load(x)) for k, x in args]
            return lift(lambda *a: mk('pcall', *a), lam, *vals)
        e, env, this, file = self.lambdas[lam]
        if e.get('generic'):
            if not e.get('insts'): return self.unk('generic-lambda')
            src = next((i for i in e['insts'] if i.get('u') == u), None) or (e['insts'][0] if len(e['insts']) == 1 else None)
            if src is None: return self.unk('generic-lambda')
        else: src = e
        fn = {'q': '(lambda)', 'ps': src['ps'], 'body': src['body'], 'file': file, 'u': 'lambda%d' % lam.args[0]}
        fr0 = self.frames[-1]
        # bind captured environment
        wrapped = dict(fn)
        r = self._call_with_env(wrapped, this, args, env)
        return r
    def _call_with_env(self, fn, this, args, env):
        orig = Frame.__init__
        fr_env = env
        class F(Frame): pass
        # simple approach: temporarily patch env after frame creation
        self._pending_env = env
        try:
            return self.call_fn_env(fn, this, args, env)
        finally:
            self._pending_env = None
    def call_fn_env(self, fn, this, args, env):
        saved = Frame.__init__
        def init(s, f, t):
            saved(s, f, t)
            if f is fn: s.env.update(env)
        Frame.__init__ = init
        try: return self.call_fn(fn, this, args)
        finally: Frame.__init__ = saved
    # ------------------------------ calls
    def wrapret(self, f, r, w):
        """r: returned value; functions returning references return ('loc')"""
        if f.get('rr'):
            if isinstance(r, T) and r.op == 'locval': l = r.args[0]
            else: l = self.ptr_loc(mk('refret', r)) if r.op in ('call', 'bcall', 'unk', 'pcall') else self.tmp(r)
            return self.rd(l, w)
        if w:
            if r.op == 'objval': return self.ptr_loc(r.args[0])
            return self.tmp(r)
        return r
    def e_mcall(self, e, w):
        f = e['f']; o = e['o']
        cls = f['c']; b = tbase(cls)
        if f['u'] in self.p.fns or f['u'] in self.p.methods or cls in self.p.classes:
            if f.get('lam'):
                lv = self.ev(o)
                args = [('l', self.ev_loc(a)) for a in e['a']]
                return self.wrapret(f, self.call_lambda(lv, args, f.get('u')), w)
            this = self.ev(o) if e.get('arrow') else self.obj_ptr(self.ev_loc(o))
            if this.op == 'addr':
                a = self.st.heap.get(mk('alias', this))
                if a is not None and not any(l.op == 'fld' and l.args[0] is this for l in self.st.heap): this = a
            st_cls = strip_type(e.get('ot', '').rstrip('*').strip()) if e.get('ot') else cls
            st_cls = strip_type(st_cls)
            if f.get('st'): this = None
            r = self.call_repo(f, this, e['a'], st_cls, bool(f.get('v')) and not e.get('qual'), e)
            return self.wrapret(f, r, w)
        arrow = e.get('arrow')
        ol = None
        if arrow: 
            p = self.ev(o)
            ol = self.ptr_loc(p) if p.op != 'ite' else mk('deref', p)
        else: ol = self.ev_loc(o)
        return self.std_method(b, cls, f, ol, e, w)
    def e_icall(self, e, w):
        fnv = self.ev(e['fn']) if e['fn'] else self.unk('icall')
        args = []
        for a in e['a']:
            args.append(('v', self.ev(a)) if a.get('k') in ('load', 'int', 'float', 'ctor', 'bool', 'null', 'call', 'mcall', 'bin', 'un') else ('l', self.ev_loc(a)))
        if fnv.op in ('fnref', 'lambda'): r = self.call_lambda(fnv, args)
        else:
            vals = [x if k == 'v' else (self.obj_ptr(x) if self.is_object_loc(x) else self.load(x)) for k, x in args]
            r = lift(lambda *a: mk('pcall', *a), fnv, *vals)
            self.ev_emit('pcall', fnv=fnv, args=vals, ret=r)
        return self.tmp(r) if w else r
    def e_call(self, e, w):
        f = e['f']
        if f['u'] in self.p.fns or f['q'].startswith('thts::'):
            r = self.call_repo(f, None, e['a'])
            return self.wrapret(f, r, w)
        return self.std_call(f, e, w)
    def e_opcall(self, e, w):
        v = self.iter_var(e['a'][0]) if e['op'] == '=' and e['a'] else None
        if v is None: return self.e_opcall1(e, w)
        self.noborrow += 1
        try: r = self.e_opcall1(e, w)
        finally: self.noborrow -= 1
        m = self.irefs.get((self.frames[-1].id, v['d']))
        if m is not None and self.st is not None: self.st.heap[m] = FALSE
        return r
    def e_opcall1(self, e, w):
        f = e.get('f'); op = e['op']; A = e['a']
        if f is None: return self.unk('opcall')
        if f.get('lam'):
            lv = self.ev(A[0])
            args = [('l', self.ev_loc(a)) for a in A[1:]]
            r = self.call_lambda(lv, args, f.get('u'))
            return self.wrapret(f, r, w)
        if f['u'] in self.p.fns or f['u'] in self.p.methods:
            fn = self.p.fns.get(f['u'])
            if 'c' in f:
                if op == '=' and (fn is None):
                    l = self.ev_loc(A[0]); src = self.ev_loc(A[1])
                    self.copy_object(self.obj_ptr(src), self.obj_ptr(l), f['c'])
                    return self.rd(l, w)
                this = self.obj_ptr(self.ev_loc(A[0]))
                r = self.call_repo(f, this, A[1:], f['c'], bool(f.get('v')))
            else: r = self.call_repo(f, None, A)
            return self.wrapret(f, r, w)
        return self.std_op(op, f, A, e, w)
    def e_ctor(self, e, w):
        f = e['f']; t = strip_type(e['t']); b = tbase(t); A = e['a']
        if t in self.p.classes or b in GUARDS:
            if f.get('copy') and A and f['u'] not in self.p.fns:
                x = self.ev(A[0]) if A[0].get('k') in ('ctor', 'call', 'mcall') else None
                if x is not None and x.op == 'objval': return x
                l = self.ev_loc(A[0]); p = mk('addr', self.tmp(VOID))
                if b in GUARDS: self.guard_move(self.obj_ptr(l), p)
                else: self.copy_object(self.obj_ptr(l), p, t)
                return mk('objval', p)
            self.nnew += 1
            p = mk('addr', self.tmp(VOID))
            self.construct(e, p)
            return mk('objval', p)
        return self.std_ctor(t, b, f, A, e)
    # -------------------------------------------------------- std models
    def std_ctor(self, t, b, f, A, e):
        n = len(A)
        if b in SPTR:
            if n == 0: return NULL
            v = self.ev(A[0])
            for a in A[1:]: self.ev(a)
            if b == 'std::shared_ptr' and tbase(strip_type(A[0].get('t') or '')) == 'std::weak_ptr':
                c = as_bool(v)
                if c is not TRUE: self.cond_throw(b_not(c), 'std::bad_weak_ptr')
            return v
        if b in VECS:
            if n == 0: return VNEW
            if f.get('copy'): return self.ev(A[0])
            vs = [self.ev(a) for a in A if tbase(a.get('t', '') or '') != 'std::allocator']
            if len(vs) == 1:
                if A[0].get('k') in ('ilist',) or vs[0].op in ('vnew', 'vpush'): return vs[0]
                return mk('vfill', vs[0], self.default_of(targs(t)[0]) if targs(t)[0] in INTT or targs(t)[0] in FLT else mk('dflt', targs(t)[0]))
            if len(vs) == 2 and vs[0].op in ('itb', 'itf') and vs[1].op == 'itend' and vs[0].op == 'itb' and vs[0].args[0] is vs[1].args[0]:
                return vs[0].args[0]
            if len(vs) == 2 and vs[0].op in ('itrb',): return mk('reversed', vs[0].args[0])
            if len(vs) == 2 and not vs[0].op.startswith('it'): return mk('vfill', vs[0], vs[1])
            return self.unk('vector-ctor')
        if b in MAPS or b in SETS or b in MMAPS:
            if n == 0: return MMNEW if b in MMAPS else MNEW
            if f.get('copy'): return self.ev(A[0])
            for a in A: self.ev(a)
            return self.unk('map-ctor')
        if b == 'std::pair':
            if n == 0: return self.default_of(t)
            if n == 1: return self.ev(A[0])
            return pair(self.ev(A[0]), self.ev(A[1]))
        if b == 'std::tuple':
            if n == 1: return self.ev(A[0])
            return mk('tuple', *[self.ev(a) for a in A])
        if b == 'std::basic_string':
            if n == 0: return EMPTYSTR
            v = self.ev(A[0])
            for a in A[1:]: self.ev(a)
            return v
        if b in STREAMS:
            if n >= 1:
                v = self.ev(A[0])
                return v
            return EMPTYSTR
        if b in DUR:
            if n == 0: return ZERO
            return as_num(self.ev(A[0]))
        if b == 'std::thread':
            if n == 0: return mk('nothread')
            if f.get('copy'): return self.ev(A[0])
            vs = [self.ev(a) for a in A]
            self.ev_emit('spawn', fnv=vs[0], args=vs[1:])
            return mk('thread', *[v for v in vs[:2]])
        if b == 'std::function':
            if n == 0: return NULL
            return self.ev(A[0])
        if b.startswith('std::mersenne_twister') or b.startswith('std::uniform_') or b.startswith('std::random_device') or b.startswith('std::linear_cong') or 'discrete_distribution' in b or 'normal_distribution' in b:
            vs = [self.ev(a) for a in A]
            self.ev_emit('rngctor', cls=b, args=vs)
            if f.get('copy'): return vs[0]
            return mk('rng', b, *vs)
        if b in MUTEXES or b in CVS: return mk('opaqueobj', b)
        if b in ITERS or b == 'std::hash' or b.startswith('std::__cmp_cat') or b == 'std::allocator' or b.startswith('std::integral') or b.endswith('_lock_t'):
            return self.ev(A[0]) if A else mk('opaqueobj', t)
        vs = [self.ev(a) for a in A]
        if b in ('std::atomic', 'std::reference_wrapper', 'std::optional') and len(vs) == 1: return vs[0]
        if b in ('std::atomic',) and not vs: return ZERO
        if 'error' in b or 'exception' in b: return mk('exc', b)
        return self.unk('ctor:' + b)
    def std_call(self, f, e, w):
        n = f['n']; A = e['a']; q = f['q']
        def ret(v): return self.tmp(v) if w else v
        if n in ('static_pointer_cast', 'const_pointer_cast', 'reinterpret_pointer_cast'): return ret(self.ev(A[0]))
        if n == 'dynamic_pointer_cast':
            p = self.ev(A[0]); t = strip_type(f['ta'][0]) if f.get('ta') else ''
            return ret(mk_ite(self.isa(p, t), p, NULL))
        if n in ('move', 'forward', 'as_const', 'ref', 'cref', 'addressof', '__addressof'):
            if n in ('addressof', '__addressof'): return self.obj_ptr(self.ev_loc(A[0]))
            l = self.ev_loc(A[0])
            return l if w else self.load(l)
        if n in ('make_shared', 'make_unique'):
            t = strip_type(f['ta'][0])
            return ret(self.make_new(t, A))
        if n == 'make_pair': return ret(pair(self.ev(A[0]), self.ev(A[1])))
        if n in ('make_tuple', 'forward_as_tuple', 'tie'): return ret(mk('tuple', *[self.ev(a) for a in A]))
        if n == 'get' and f.get('ta') and f['ta'][0].isdigit():
            l = self.ev_loc(A[0])
            i = int(f['ta'][0])
            ll = l.args[1] if (l.op == 'itpair' and i == 1) else mk('projl', l, i) if l.op != 'itpair' else self.tmp(l.args[0])
            return self.rd(ll, w)
        if n in ('exp', 'log', 'sqrt', 'log2', 'log10', 'log1p', 'exp2', 'floor', 'ceil', 'tanh', 'sin', 'cos', 'round'):
            return ret(fn(n, as_num(self.ev(A[0]))))
        if n in ('pow', 'powf', 'fmod', 'hypot'): return ret(fn(n, as_num(self.ev(A[0])), as_num(self.ev(A[1]))))
        if n in ('abs', 'fabs'):
            v = as_num(self.ev(A[0]))
            return ret(mk_ite(lt(v, ZERO, strip_type(f.get('rt', '')) in INTT), neg(v), v))
        if n in ('max', 'min', 'fmax', 'fmin') and len(A) >= 2:
            a, b = as_num(self.ev(A[0])), as_num(self.ev(A[1]))
            isint = strip_type(f.get('rt', '')) in INTT
            c = lt(a, b, isint)
            return ret(mk_ite(c, b, a) if n in ('max', 'fmax') else mk_ite(lt(b, a, isint), b, a))
        if n == 'clamp':
            v, lo, hi = [as_num(self.ev(a)) for a in A[:3]]
            return ret(mk_ite(lt(v, lo), lo, mk_ite(lt(hi, v), hi, v)))
        if n == 'swap' and len(A) == 2:
            a, b = self.ev_loc(A[0]), self.ev_loc(A[1])
            x, y = self.load(a), self.load(b)
            self.store(a, y); self.store(b, x)
            return VOID
        if q.startswith('std::numeric_limits'):
            if n == 'infinity': return ret(INF)
            if n == 'lowest': return ret(mk('sym', 'LOWEST') if strip_type(f.get('rt', '')) in FLT else num(-2**31) if strip_type(f['rt']) == 'int' else mk('sym', 'LOWESTI'))
            if n == 'max': return ret(mk('sym', 'HIGHEST') if strip_type(f.get('rt', '')) in FLT else num(2**31-1) if strip_type(f['rt']) == 'int' else mk('sym', 'MAXI'))
            if n == 'min': return ret(mk('sym', 'MINPOS') if strip_type(f.get('rt', '')) in FLT else num(-2**31))
            if n == 'epsilon': return ret(mk('sym', 'EPSILON'))
        if n == 'zero' and 'chrono' in q: return ret(ZERO)
        if n == 'now' and 'chrono' in q:
            v = mk('call', 'now', num(self.occ('now'))) if self.trace is None else mk('call', 'now', self.load(WORLD, True))
            self.ev_emit('now')
            return ret(v)
        if n in ('duration_cast', 'time_point_cast'): return ret(self.ev(A[0]))
        if n == 'for_each' and len(A) == 3:
            b, en = self.ev(A[0]), self.ev(A[1])
            lam = self.ev(A[2])
            if b.op in ('itb', 'itrb'):
                self.range_loop_value(b.args[0], lambda elemloc: self.call_lambda(lam, [('l', elemloc)]), rev=b.op == 'itrb', maplike=b.args[2])
                return ret(lam)
            return ret(self.unk('for_each'))
        if n == 'accumulate' and len(A) >= 3:
            b, en = self.ev(A[0]), self.ev(A[1])
            acc = self.tmp(as_num(self.ev(A[2])))
            lam = self.ev(A[3]) if len(A) > 3 else None
            if b.op == 'itb':
                def body(el):
                    if lam is None: self.store(acc, add(as_num(self.load(acc)), as_num(self.load(el))))
                    else: self.store(acc, self.call_lambda(lam, [('v', self.load(acc)), ('l', el)]))
                self.range_loop_value(b.args[0], body, maplike=b.args[2])
                return ret(self.load(acc))
            return ret(self.unk('accumulate'))
        if n in ('sort', 'stable_sort') and len(A) in (2, 3):
            b, en = self.ev(A[0]), self.ev(A[1])
            if b.op == 'itb' and en.op == 'itend' and b.args[2] == 'v':
                C = b.args[0]
                cmp = NULL
                if len(A) == 3:
                    lam = self.ev(A[2])
                    et = mk('sym', '$a'), mk('sym', '$b')
                    self.mute += 1
                    try: cmp = as_bool(self.call_lambda(lam, [('v', et[0]), ('v', et[1])]))
                    except Exception: cmp = self.unk('sort-cmp')
                    finally: self.mute -= 1
                self.store(b.args[1], mk('sorted', C, cmp))
                self.ev_emit('sort', coll=C, cmp=cmp)
                return VOID
            return ret(self.unk('sort'))
        if n in ('back_inserter', 'inserter') and A:
            for a in A[1:]: self.ev(a)
            return ret(mk('bins', self.ev_loc(A[0])))
        if n in ('copy', 'copy_if', 'transform', 'remove_copy_if') and len(A) == (3 if n == 'copy' else 4):
            b, en, out = self.ev(A[0]), self.ev(A[1]), self.ev(A[2])
            lam = self.ev(A[3]) if len(A) == 4 else None
            if b.op in ('itb', 'itrb') and out.op == 'bins' and not (strip_type(A[0].get('t', '')).startswith('std::') and 'map' in strip_type(A[0].get('t', ''))):
                ol = out.args[0]
                def body(el):
                    if n == 'copy': c, x = TRUE, self.load(el)
                    elif n == 'transform': c, x = TRUE, self.call_lambda(lam, [('l', el)])
                    else:
                        c, x = as_bool(self.call_lambda(lam, [('l', el)])), self.load(el)
                        if n == 'remove_copy_if': c = b_not(c)
                    v = self.load(ol, True)
                    self.store(ol, mk_ite(c, v_push(v, x), v))
                self.range_loop_value(b.args[0], body, rev=b.op == 'itrb', maplike=b.args[2])
                return ret(out)
            if out.op == 'bins': self.store(out.args[0], self.unk(n))
            return ret(self.unk(n))
        if n in ('max_element', 'min_element') and len(A) in (2, 3):
            b, en = self.ev(A[0]), self.ev(A[1]); lam = self.ev(A[2]) if len(A) == 3 else None
            if b.op == 'itb':
                sgn = n == 'max_element'
                best = self.tmp((mk('sym', 'LOWEST') if sgn else mk('sym', 'HIGHEST')) if lam is None else mk('undef', 'max_element'))
                seen = self.tmp(FALSE)
                def body(el):
                    x, y = self.load(best), self.load(el)
                    if not sgn: x, y = y, x
                    if lam is None: c = lt(as_num(x), as_num(y))
                    else: c = b_or(b_not(as_bool(self.load(seen))), as_bool(self.call_lambda(lam, [('v', x), ('v', y)])))
                    self.store(best, mk_ite(c, self.load(el), self.load(best)))
                    if lam is not None: self.store(seen, TRUE)
                self.range_loop_value(b.args[0], body, maplike=b.args[2])
                return ret(mk('itv', b.args[0], self.load(best)))
            return ret(self.unk(n))
        if n in ('any_of', 'all_of', 'none_of', 'count_if') and len(A) == 3:
            b, en = self.ev(A[0]), self.ev(A[1]); lam = self.ev(A[2])
            if b.op == 'itb':
                cnt = self.tmp(ZERO)
                def body(el):
                    c = as_bool(self.call_lambda(lam, [('l', el)]))
                    if n == 'all_of': c = b_not(c)
                    self.store(cnt, add(self.load(cnt), mk_ite(c, ONE, ZERO)))
                self.range_loop_value(b.args[0], body, maplike=b.args[2])
                v = self.load(cnt)
                if n == 'count_if': return ret(v)
                r = lt(ZERO, v, True)
                return ret(r if n == 'any_of' else b_not(r))
            return ret(self.unk(n))
        if n in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend', 'size', 'empty') and len(A) == 1 and 'chrono' not in q:
            return self.std_method(tbase(A[0].get('t', 'std::vector')), A[0].get('t', ''), f, self.ev_loc(A[0]), dict(e, a=[]), w)
        if n in ('next', 'prev', 'advance', 'distance'): 
            for a in A: self.ev(a)
            return ret(self.unk(n))
        if n == 'getline' or n == 'endl':
            return ret(self.unk(n))
        if n == 'to_string': return ret(mk('cat', self.ev(A[0])))
        if n in ('rand', 'random', 'drand48', 'time', 'clock', 'srand'):
            v = mk('call', n, num(self.occ(n)))
            self.ev_emit('extrand', name=n)
            for a in A: self.ev(a)
            return ret(v)
        if n == 'isnan' or n == 'isinf' or n == 'isfinite': return ret(mk('bcall', n, self.ev(A[0])))
        if n == 'lock' and q == 'std::lock':
            for a in A: self.acquire(self.mutex_of(self.ev_loc(a)))
            return VOID
        # unknown: opaque in its value arguments, havocs non-const reference arguments
        vals = []
        pm = f.get('pm', [])
        for i, a in enumerate(A):
            if i < len(pm) and pm[i] == 'r':
                l = self.ev_loc(a); vals.append(self.load(l)); self.store(l, self.unk('out:' + n))
            else: vals.append(self.ev(a))
        return ret(self.unk('call:' + q))
    def make_new(self, t, A):
        b = tbase(t)
        if t in self.p.classes:
            self.nnew += 1
            p = mk('new', t, self.nnew)
            cs = self.p.ctors(t)
            cand = [c for c in cs if len(c['ps']) == len(A) and not c.get('copy')]
            if not cand: cand = [c for c in cs if len(c['ps']) > len(A) and all('def' in x for x in c['ps'][len(A):])]
            if not cand: cand = [c for c in cs if len(c['ps']) == len(A)]
            if not cand:
                if len(A) == 0: self.default_fields(t, p); return p
                if len(A) == 1:
                    l = self.ev_loc(A[0]); self.copy_object(self.obj_ptr(l), p, t)
                    self.ev_emit('alloc', cls=t, ptr=p, args=[self.obj_ptr(l)])
                    return p
                for a in A: self.ev(a)
                return p
            c = cand[0]
            if len(cand) > 1:
                def score(c):
                    s = 0
                    for a, x in zip(A, c['ps']):
                        if tbase(strip_type(a.get('t', '?'))) == tbase(strip_type(x['t'])): s += 1
                    return s
                c = max(cand, key=score)
            args = self.ev_args(c, A)
            self.ev_emit('alloc', cls=t, ptr=p, args=[x if k == 'v' else self.obj_ptr(x) for k, x in args])
            self.call_fn(c, p, args)
            return p
        v = self.std_ctor(t, b, {'copy': len(A) == 1 and tbase(A[0].get('t', '') or '') == b}, A, None)
        self.nnew += 1
        p = mk('new', t, self.nnew)
        self.st.heap[mk('deref', p)] = v
        return p
    def std_method(self, b, cls, f, ol, e, w):
        n = f['n']; A = e['a']
        def ret(v): return self.tmp(v) if w else v
        if b in MUTEXES:
            if n == 'lock': self.acquire(ol); return VOID
            if n == 'unlock': self.release(ol); return VOID
            if n == 'try_lock':
                c = mk('bcall', 'try_lock', num(self.occ('try_lock')))
                base = self.st
                s2 = base.copy()
                self.acquire(ol, 'try')
                self.st = self.merge(c, self.st, s2)
                return c
        if b in GUARDS:
            p = self.obj_ptr(ol)
            m = self.st.heap.get(mk('fld', p, '$mtx0'))
            if n == 'unlock' and m is not None:
                self.release(m); self.st.heap[mk('fld', p, '$own0')] = FALSE; return VOID
            if n == 'lock' and m is not None:
                self.acquire(m); self.st.heap[mk('fld', p, '$own0')] = TRUE; return VOID
            if n == 'owns_lock' or n.startswith('operator bool'): return self.st.heap.get(mk('fld', p, '$own0'), FALSE)
            if n == 'release':
                self.st.heap[mk('fld', p, '$own0')] = FALSE; return VOID
            if n == 'mutex': return self.obj_ptr(m) if m is not None else self.unk('guard')
            return self.unk('guard:' + n)
        if b in CVS:
            if n in ('notify_all', 'notify_one'):
                self.ev_emit('notify', cv=ol, how=n); return VOID
            if n in ('wait', 'wait_for', 'wait_until'):
                lk = self.mutex_of(self.ev_loc(A[0]))
                extra = A[1:]
                dur = None
                if n != 'wait':
                    dur = self.ev(extra[0]); extra = extra[1:]
                pred = self.ev(extra[0]) if extra else None
                h = self.held(lk)
                try: h = under(h, self.st.pc)
                except Blowup: pass
                timed = n != 'wait'
                def do_wait():
                    self.ev_emit('wait', cv=ol, lock=lk, held=h, timed=timed, pred=pred is not None, dur=dur)
                    if self.traced(lk): self.trace_rel(lk, 'wait'); self.trace_acq(lk)
                    elif lk.op == 'fld': self.havoc_object(lk.args[0])
                if pred is None:
                    do_wait()
                    return mk('bcall', 'timeout', num(self.occ('timeout'))) if timed else VOID
                def cond(): return b_not(as_bool(self.call_lambda(pred, [])))
                if timed:
                    self.do_loop(self.line, cond, lambda: (do_wait(), True)[1], None, kind='waitpred', maybreak=True)
                    r = as_bool(self.call_lambda(pred, []))
                    return r
                self.do_loop(self.line, cond, lambda: (do_wait(), True)[1], None, kind='waitpred')
                return VOID
        if b == 'std::thread':
            if n == 'join': self.ev_emit('tjoin', thr=self.load(ol, True)); return VOID
            if n == 'detach': self.ev_emit('tdetach'); return VOID
            return mk('bcall', 'thread::' + n, num(self.occ(n)))
        if b in SPTR:
            v = self.load(ol)
            if n in ('get', 'lock', 'shared_from_this'):
                if n == 'shared_from_this': return ret(self.obj_ptr(ol))
                return ret(v)
            if n == 'weak_from_this': return ret(self.obj_ptr(ol))
            if n.startswith('operator bool'): return ptr_bool(v)
            if n == 'reset':
                self.store(ol, self.ev(A[0]) if A else NULL); return VOID
            if n == 'expired': return mk('bcall', 'expired', v)
            if n == 'release': self.store(ol, NULL); return ret(v)
            if n == 'swap':
                o2 = self.ev_loc(A[0]); y = self.load(o2); self.store(o2, v); self.store(ol, y); return VOID
            return ret(self.unk('sptr:' + n))
        if b in DUR: 
            if n == 'count' or n == 'time_since_epoch': return ret(self.load(ol))
        if b in STREAMS:
            if n == 'str': return ret(self.load(ol)) if not A else VOID
            return ret(self.unk('stream:' + n)) if n not in ('flush', 'precision', 'width', 'setf') else (ol if w else self.load(ol))
        if b == 'std::basic_string':
            v = self.load(ol)
            if n in ('size', 'length'): return size(v)
            if n == 'empty': return eq(size(v), ZERO)
            if n in ('append', 'push_back'):
                self.store(ol, cat(v, self.ev(A[0]))); return ol if w else VOID
            if n in ('c_str', 'data'): return ret(v)
            return ret(self.unk('string:' + n))
        if b in VECS: return self.vec_method(n, f, ol, A, e, w, cls)
        if b in MAPS or b in SETS or b in MMAPS: return self.map_method(n, f, ol, A, e, w, cls, b)
        if b.startswith('std::mersenne') or b.startswith('std::uniform') or b.startswith('std::random_device'):
            for a in A: self.ev(a)
            self.ev_emit('rnguse', loc=ol, name=n, cls=b)
            return ret(mk('call', 'rng.' + n, num(self.occ('rng'))))
        if b == 'std::atomic':
            v = self.load(ol)
            if n in ('load',) or n.startswith('operator '): return ret(v)
            if n in ('store', 'operator='): self.store(ol, self.ev(A[0])); return VOID
            if n in ('fetch_add', 'fetch_sub'):
                self.store(ol, add(as_num(v), mul(num(1 if n == 'fetch_add' else -1), as_num(self.ev(A[0]))))); return ret(v)
            if n in ('exchange',):
                self.store(ol, self.ev(A[0])); return ret(v)
        if b == 'std::optional':
            v = self.load(ol)
            if n in ('value', 'operator*'): return ret(v)
            return ret(self.unk('optional'))
        if n == 'operator()' : return ret(self.unk('functor:' + b))
        vals = [self.ev(a) for a in A]
        if not f.get('cst') and ol.op not in ('tmp',):
            self.store(ol, self.unk('mut:' + b + '::' + n))
        return ret(self.unk('method:' + b + '::' + n))
    def mutates(self, ol, what):
        """the structure of the container changes; remember it for loops that iterate over it"""
        for l, m in self.iterating:
            if l is ol and self.st is not None:
                self.st.heap[m] = TRUE
                self.imod_at = '%s at %s:%s' % (what, self.frames[-1].file, self.line)
        for l, fid, d, m in self.vrefs:
            if l is ol and self.st is not None and (what != 'pop_back' or m in self.backrefs):
                self.st.heap[m] = TRUE
                self.imod_at = '%s at %s:%s' % (what, self.frames[-1].file, self.line)
    def erased(self, e, it):
        """container.erase(iterator variable): the variable refers to nothing until it is assigned again"""
        v = self.iter_var(e)
        if v is None: return
        t = strip_type(str(v.get('t', '')))
        if not re.search(r'iterator', t): return
        fr = self.frames[-1]
        m = self.irefs.setdefault((fr.id, v['d']), mk('var', -3, 'it%d.%s' % (fr.id, v['d'])))
        self.st.heap[m] = TRUE
        self.imod_at = '%s:%s' % (fr.file, self.line)
    def elem_type(self, cls, i):
        a = targs(cls)
        return a[i] if i < len(a) else ''
    def vec_method(self, n, f, ol, A, e, w, cls):
        def ret(v): return self.tmp(v) if w else v
        if (self.iterating or self.vrefs) and n in ('push_back', 'emplace_back', 'pop_back', 'clear', 'resize', 'insert', 'emplace', 'erase', 'assign', 'shrink_to_fit', 'reserve', 'swap'): self.mutates(ol, n)
        if n == 'size' or n == 'length': return ret(size(self.load(ol)))
        if n == 'empty': return eq(size(self.load(ol)), ZERO)
        if n in ('push_back', 'emplace_back'):
            if n == 'emplace_back' and len(A) != 1:
                et = strip_type(self.elem_type(cls, 0))
                if et in self.p.classes and self.valclass(et):
                    x = self.make_new(et, A); v = self.valof(mk('objval', x), et)
                elif et in self.p.classes: v = self.make_new(et, A)
                elif tbase(et) == 'std::pair' and len(A) == 2: v = pair(self.ev(A[0]), self.ev(A[1]))
                elif et == 'std::thread' and A: v = self.std_ctor(et, et, {}, A, e)
                else: v = self.unk('emplace')
            else:
                et = strip_type(self.elem_type(cls, 0))
                if et in self.p.classes: v = self.valof(self.ev_byval(A[0], et), et)
                elif et == 'std::thread' and tbase(A[0].get('t', '')) != 'std::thread': v = self.std_ctor(et, et, {}, A, e)
                else: v = self.ev(A[0])
            m = self.load(ol, True)
            if ol.op == 'fld': pass
            self.store(ol, v_push(m, v))
            return VOID
        if n == 'pop_back':
            m = self.load(ol, True); self.store(ol, v_pop(m)); return VOID
        if n == 'back':
            v = self.load(ol); return self.elem_obj(v_back(v), w, cls)
        if n == 'front':
            return self.elem_obj(sel(self.load(ol), ZERO), w, cls)
        if n in ('at', 'operator[]'):
            i = as_num(self.ev(A[0]))
            self.ev_emit('index', cont=self.load(ol, True), idx=i, checked=(n == 'at'), loc=ol)
            if ol.op == 'fld' and ol.args[1] in self.onevec: i = ZERO
            l = mk('elem', ol, i, 'v')
            if w:
                v = self.load(l)
                if v.op == 'objval': return self.ptr_loc(v.args[0])
                return l
            return self.load(l)
        if n in ('begin', 'cbegin'): return ret(mk('itb', self.load(ol), ol, 'v'))
        if n in ('end', 'cend'): return ret(mk('itend', self.load(ol), ol, 'v'))
        if n in ('rbegin', 'crbegin'): return ret(mk('itrb', self.load(ol), ol, 'v'))
        if n in ('rend', 'crend'): return ret(mk('itrend', self.load(ol), ol, 'v'))
        if n == 'clear': self.store(ol, VNEW); return VOID
        if n in ('reserve', 'shrink_to_fit'):
            for a in A: self.ev(a)
            return VOID
        if n == 'resize':
            k = as_num(self.ev(A[0])); self.store(ol, mk('resized', self.load(ol, True), k)); return VOID
        if n == 'capacity': return ret(self.unk('capacity'))
        for a in A: self.ev(a)
        if not f.get('cst'): self.store(ol, self.unk('vec:' + n))
        return ret(self.unk('vec:' + n))
    def elem_obj(self, v, w, cls):
        if w:
            if v.op == 'objval': return self.ptr_loc(v.args[0])
            return self.tmp(v)
        return v
    def map_method(self, n, f, ol, A, e, w, cls, b):
        def ret(v): return self.tmp(v) if w else v
        kind = 'mm' if b in MMAPS else ('s' if b in SETS else 'm')
        if self.iterating and n in ('clear', 'insert', 'emplace', 'erase', 'try_emplace', 'rehash', 'reserve', 'swap', 'extract', 'merge'): self.mutates(ol, n)
        if n == 'size': return ret(size(self.load(ol)))
        if n == 'empty': return eq(size(self.load(ol)), ZERO)
        if n == 'clear': self.store(ol, MMNEW if kind == 'mm' else MNEW); return VOID
        if n == 'reserve': self.ev(A[0]); return VOID
        if n in ('begin', 'cbegin'): return ret(mk('itb', self.load(ol), ol, kind))
        if n in ('end', 'cend'): return ret(mk('itend', self.load(ol), ol, kind))
        if n in ('rbegin', 'crbegin'): return ret(mk('itrb', self.load(ol), ol, kind))
        if n in ('rend', 'crend'): return ret(mk('itrend', self.load(ol), ol, kind))
        if kind == 'mm':
            if n == 'insert':
                v = self.ev(A[0]); m = self.load(ol, True)
                self.store(ol, mk('mminsert', m, proj(v, 0), proj(v, 1))); return ret(mk('sym', 'mmit'))
            if n == 'emplace':
                k, v = self.ev(A[0]), self.ev(A[1]); m = self.load(ol, True)
                self.store(ol, mk('mminsert', m, k, v)); return ret(mk('sym', 'mmit'))
            if n == 'erase':
                it = self.ev(A[0]); m = self.load(ol, True)
                self.erased(A[0], it)
                self.store(ol, mk('mmerase', m, it)); return ret(mk('sym', 'mmit'))
            if n in ('find', 'lower_bound', 'upper_bound', 'equal_range'):
                k = self.ev(A[0])
                return ret(mk('mmit', n, self.load(ol), k, ol))
            if n == 'count':
                return ret(mk('call', 'mmcount', self.load(ol), self.ev(A[0])))
        if n == 'find':
            k = self.ev(A[0]); return ret(mk('itf', self.load(ol), k, ol))
        if n in ('count', 'contains'):
            k = self.ev(A[0]); h = has(self.load(ol), k)
            return ret(h if n == 'contains' else mk_ite(h, ONE, ZERO))
        if n == 'at':
            k = self.ev(A[0])
            m = self.load(ol)
            try: hh = under(has(m, k), self.st.pc)
            except Blowup: hh = mk('has', m, k)
            self.ev_emit('at', map=m, key=k, has=hh, loc=ol)
            l = mk('elem', ol, k, 'm')
            if w:
                v = self.load(l)
                if v.op == 'objval': return self.ptr_loc(v.args[0])
                return l
            return sel(m, k)
        if n == 'operator[]':
            k = self.ev(A[0])
            if not w and self.st is not None: self.ev_emit('mapread', loc=ol, cond=b_not(has(self.load(ol, True), k)))
            for l, m in self.iterating:          # inserts when the key is absent; a key taken from the loop itself is there
                if l is ol and self.st is not None and kind == 'm' and not contains_op(k, ('bv', 'bx')):
                    c = b_not(has(self.load(ol, True), k))
                    if c is not FALSE: self.st.heap[m] = b_or(self.st.heap.get(m, FALSE), c); self.imod_at = '[] at %s:%s' % (self.frames[-1].file, self.line)
            return self.rd(mk('elem', ol, k, 'md', self.elem_type(cls, 1)), w)
        if n in ('insert_or_assign',):
            k, v = self.ev(A[0]), self.ev(A[1])
            m = self.load(ol, True); h = has(m, k)
            self.store(ol, _m_store1(m, k, v)); return ret(pair(mk('itf', self.load(ol, True), k, ol), b_not(h)))
        if n in ('insert', 'emplace', 'try_emplace'):
            m = self.load(ol, True)
            if n == 'insert' and len(A) == 1:
                v = self.ev(A[0]); k, v = (proj(v, 0), proj(v, 1)) if kind == 'm' else (v, TRUE)
            elif len(A) >= 2: k, v = self.ev(A[0]), self.ev(A[1])
            else: k, v = self.ev(A[0]), TRUE
            h = has(m, k)
            self.store(ol, self.s_ite(h, m, _m_store1(m, k, v)))
            return ret(pair(mk('itf', self.load(ol, True), k, ol), b_not(h)))
        if n == 'erase':
            it = self.ev(A[0])
            k = it.args[1] if it.op == 'itf' else it
            self.erased(A[0], it)
            self.store(ol, m_erase(self.load(ol, True), k)); return ret(mk('call', 'erase', k))
        for a in A: self.ev(a)
        if not f.get('cst'): self.store(ol, self.unk('map:' + n))
        return ret(self.unk('map:' + n))
    def it_eq(self, a, b):
        if a.op == 'itend' and b.op != 'itend': a, b = b, a
        if a.op == 'itf' and b.op == 'itend': return b_not(has(a.args[0], a.args[1]))
        if a.op == 'itf' and b.op == 'itf': return eq(a.args[1], b.args[1])
        if a.op == 'itb' and b.op == 'itend': return eq(size(a.args[0]), ZERO)
        return eq(a, b)
    def std_op(self, op, f, A, e, w):
        def ret(v): return self.tmp(v) if w else v
        c0 = tbase(f['c']) if 'c' in f else ''
        t0 = tbase(A[0].get('t', '') or '') if A else ''
        if c0 in ITERS or t0 in ITERS or c0.startswith('std::reverse_iterator'):
            if op in ('*', '->'):
                it = self.ev(A[0])
                l = self.it_deref(it)
                if op == '->': return mk('addr', l) if not w else self.tmp(mk('addr', l))
                return self.rd(l, w)
            if op in ('++', '--'):
                l = self.ev_loc(A[0]); it = self.load(l)
                v = mk('itnext' if op == '++' else 'itprev', it)
                self.store(l, v)
                return l if w else (it if len(A) > 1 else v)
            if op in ('==', '!='):
                r = lift(self.it_eq, self.ev(A[0]), self.ev(A[1]))
                return r if op == '==' else b_not(r)
            if op == '=':
                v = self.ev(A[1]); l = self.ev_loc(A[0]); self.store(l, v); return l if w else v
            if op in ('-', '+', '+=', '[]'):
                return ret(self.unk('iter' + op))
        if op == '->' :
            v = self.ev(A[0])
            return ret(v)
        if op == '*' and len(A) == 1:
            p = self.ev(A[0])
            l = self.ptr_loc(p) if p.op != 'ite' else mk('deref', p)
            return self.rd(l, w)
        if op == '[]':
            ol = self.ev_loc(A[0])
            if c0 in VECS: return self.vec_method('operator[]', f, ol, A[1:], e, w, f['c'])
            if c0 in MAPS: return self.map_method('operator[]', f, ol, A[1:], e, w, f['c'], c0)
            return ret(self.unk('[]'))
        if op == '=' and c0 in GUARDS:
            k = A[1]
            while k.get('k') in ('temp', 'cast'): k = k['e']
            d = self.obj_ptr(self.ev_loc(A[0]))
            if k.get('k') == 'ctor':
                self.keep_guard = not k['f'].get('copy')
                v = self.ev(k); src = v.args[0] if v.op == 'objval' else None
                self.keep_guard = False
            elif k.get('k') in ('call', 'mcall') and tbase(strip_type(k.get('t', ''))) in GUARDS and k.get('f', {}).get('n') not in ('move', 'forward'):
                v = self.ev(k); src = v.args[0] if v.op == 'objval' else None
            else: src = self.obj_ptr(self.ev_loc(A[1]))
            self.run_dtor(('guard', d, 1))
            if src is not None: self.guard_move(src, d)
            else: return ret(self.unk('guard='))
            return ret(VOID)
        if op == '=':
            v = self.ev(A[1]); l = self.ev_loc(A[0])
            if c0 in DUR: v = as_num(v)
            self.store(l, v)
            return l if w else v
        if op == '<<' and (c0 in STREAMS or 'ostream' in str(f.get('rt', ''))):
            l = self.ev_loc(A[0])
            a1 = A[1]
            if a1.get('k') == 'fn' or (a1.get('k') == 'cast' and a1['e'].get('k') == 'fn'):
                v = mk('str', '\n') if 'endl' in str(a1) else EMPTYSTR
            else: v = self.ev(a1)
            if v.op == 'num' and 'char' == strip_type(a1.get('t', '')): v = mk('str', chr(int(v.args[0])))
            if a1.get('ch'): v = mk('str', chr(int(v.args[0])))
            isstr = 'basic_string' in str(a1.get('t', '')) or strip_type(a1.get('t', '')) in ('std::string', 'string')
            self.store(l, cat(self.load(l), v if isstr or v.op in ('str', 'cat') else mk('shown', v)), quiet=True)
            return l if w else self.load(l, True)
        if op in ('==', '!='):
            a, b = self.ev(A[0]), self.ev(A[1])
            if a.op.startswith('it') and a.op != 'ite' or b.op.startswith('it') and b.op != 'ite': r = lift(self.it_eq, a, b)
            elif tbase(strip_type(A[0].get('t', '') or '')) == 'std::pair' == tbase(strip_type(A[1].get('t', '') or '')): r = b_and(eq(proj(a, 0), proj(b, 0)), eq(proj(a, 1), proj(b, 1)))
            else: r = eq(a, b)
            return r if op == '==' else b_not(r)
        if op == '<=>' :
            a, b = as_num(self.ev(A[0])), as_num(self.ev(A[1]))
            return mk('cmp3', a, b)
        if op in ('<', '>', '<=', '>='):
            a, b = self.ev(A[0]), self.ev(A[1])
            if a.op == 'cmp3': return self.arith(op, a.args[0], a.args[1], 'bool', 'double')
            if b.op == 'cmp3': return self.arith(op, b.args[1], b.args[0], 'bool', 'double')
            return self.arith(op, as_num(a), as_num(b), 'bool', 'double')
        if op in ('+', '-', '*', '/') and len(A) == 2:
            a, b = self.ev(A[0]), self.ev(A[1])
            if 'basic_string' in str(f.get('rt', '')): return ret(cat(a, b))
            return ret(self.arith(op, a, b, 'double', 'double'))
        if op in ('+=', '-=', '*=', '/='):
            b = self.ev(A[1]); l = self.ev_loc(A[0]); a = self.load(l)
            v = cat(a, b) if c0 == 'std::basic_string' else self.arith(op[0], a, b, 'double', 'double')
            self.store(l, v); return l if w else v
        if op in ('++', '--') and c0 == 'std::atomic':
            l = self.ev_loc(A[0]); a = self.load(l); v = add(as_num(a), num(1 if op == '++' else -1)); self.store(l, v); return ret(v)
        if op == '()':
            if c0.startswith('std::uniform') or c0.startswith('std::mersenne') or c0.startswith('std::random_device') or '_distribution' in c0 or '_engine' in c0:
                l = self.ev_loc(A[0])
                gens = [self.ev_loc(a) for a in A[1:]]
                self.ev_emit('rngdraw', cls=c0, loc=l, gens=gens, distr=self.load(l))
                for g in gens: self.load(g); self.rw('write', g)
                return ret(mk('call', 'draw', c0, num(self.occ('draw'))))
            if c0 == 'std::function':
                fnv = self.ev(A[0]); args = [('l', self.ev_loc(a)) for a in A[1:]]
                return ret(self.call_lambda(fnv, args))
            if c0 in ('std::hash', 'std::__str_hash_base', 'std::__hash_base', 'std::_Hash_impl') or 'hash' in c0:
                vs = [self.ev(a) for a in A[1:]]
                if A[1:] and strip_type(A[1].get('t') or '').endswith('*'): vs = [mk('addr', mk('deref', mk('sym', 'address of ' + str(v)[:40]))) for v in vs]      # an address, not what it points to
                return ret(mk('call', 'hash', *vs))
            if c0 in ('std::equal_to', 'std::less', 'std::plus'):
                vs = [self.ev(a) for a in A[1:]]
                return ret({'std::equal_to': lambda: eq(*vs), 'std::less': lambda: lt(*vs), 'std::plus': lambda: add(*vs)}[c0]())
        vs = [self.ev(a) for a in A]
        return ret(self.unk('op' + op + ':' + c0))
    def it_deref(self, it):
        if it.op == 'itf': return mk('itpair', it.args[1], mk('elem', it.args[2], it.args[1], 'm'))
        if it.op == 'itv': return self.tmp(it.args[1])
        if it.op == 'itm': return self.tmp(pair(mk('mmkey', it.args[1]), mk('mmval', it.args[1])))
        if it.op == 'ite' : return self.tmp(lift(lambda x: self.load(self.it_deref(x)), it))
        if it.op == 'itb' and it.args[2] == 'v': return mk('elem', it.args[1], ZERO, 'v')
        if it.op == 'mmit': return self.tmp(mk('mmelem', it))
        return self.tmp(mk('itderef', it))
    # -------------------------------------------------------- statements
    def exec(self, s):
        """returns True when control continues"""
        if s is None: return True
        self.steps += 1
        if self.steps > self.maxsteps: raise Undecided('step budget')
        k = s['k']
        if 'l' in s: self.line = s['l']
        m = getattr(self, 's_' + k, None)
        if m is None:
            self.unk('stmt:' + k); return True
        try:
            return m(s)
        except PathEnd:
            self.st = None
            return False
    def s_expr(self, s):
        e = s['e']
        k = e
        while k.get('k') in ('temp', 'cast') and isinstance(k.get('e'), dict): k = k['e']
        if e.get('k') in LV and not (k.get('k') in ('call', 'mcall') and tbase(strip_type(k.get('t', '') or '')) in GUARDS): self.ev_loc_quiet(e)
        else:
            v = self.ev(e)
            if v.op == 'objval' and mk('fld', v.args[0], '$mtx0') in self.st.heap: self.run_dtor(('guard', v.args[0], 1))      # a lock handle nobody keeps
        return True
    def ev_loc_quiet(self, e): return self.ev_loc(e)
    def s_nop(self, s): return True
    def s_label(self, s): return self.exec(s['s'])
    def s_block(self, s):
        self.push_scope()
        n = len(self.scopes)
        alive = True
        for x in s['s']:
            alive = self.exec(x)
            if not alive: break
        if alive: self.line = s.get('el', self.line)
        self.pop_scope(alive)
        return alive
    def s_decl(self, s):
        for v in s['v']: self.declare(v)
        return True
    def declare(self, v):
        fr = self.frames[-1]
        self.line = v.get('l', self.line)
        l = mk('var', fr.id, v['d'])
        if v.get('static'):
            g = mk('glob', 'static:%s:%s' % (fr.fn.get('u'), v['n']))
            fr.env[v['d']] = g
            if g not in self.st.heap: self.st.heap[g] = mk('init', g)
            self.ev_emit('staticlocal', name=v['n'], t=v['t'])
            return
        self.orefs.pop((fr.id, v['d']), None)
        if (fr.id, v['d']) in self.irefs: self.st.heap[self.irefs[(fr.id, v['d'])]] = FALSE
        if v.get('ref'):
            fr.env[v['d']] = self.ev_loc(v['i'])
            if v.get('i'): self.check_dangling(v['n'], v['i'], fr.env[v['d']])
            x = fr.env[v['d']]
            while x.op == 'projl': x = x.args[0]
            if v.get('i'): self.borrow(v, fr.env[v['d']])
            end = self.vec_end(v['i']) if v.get('i') else None
            if end is not None:
                m = mk('var', -2, 'ref%d.%s' % (fr.id, v['d']))
                self.vrefs.append((end[0], fr.id, v['d'], m)); self.st.heap[m] = FALSE
                if end[1] == 'back': self.backrefs.add(m)
            elif x.op == 'elem' and x.args[2] == 'v':
                m = mk('var', -2, 'ref%d.%s' % (fr.id, v['d']))
                self.vrefs.append((x.args[0], fr.id, v['d'], m)); self.st.heap[m] = FALSE
        else:
            fr.env[v['d']] = l
            if 'i' in v:
                self.init_loc(l, v['t'], v['i'])
                if v['t'].endswith('*') and l in self.st.heap: self.check_dangling(v['n'], v['i'], self.st.heap[l])
            else:
                b = tbase(v['t'])
                self.st.heap[l] = mk('undef', l)
        for b in v.get('binds', []):
            if 'hv' in b:
                hv = b['hv']; fr.env[v['d']] = fr.env.get(v['d'], l)
                self.declare(hv); fr.env[b['d']] = fr.env[hv['d']]
            elif 'e' in b: fr.env[b['d']] = self.ev_loc(b['e'])
    def vec_end(self, k):
        """v.back(), v.front() (or a member of it) for a vector variable or member v"""
        while k.get('k') in ('cast', 'paren') or k.get('k') == 'mem' and 'e' in k and not k.get('arrow'): k = k['e']
        if k.get('k') != 'mcall' or k['f'].get('n') not in ('back', 'front') or tbase(strip_type(k['f'].get('c') or '')) != 'std::vector': return None
        o = k.get('o') or {}
        while o.get('k') in ('cast', 'paren', 'load'): o = o['e']
        if o.get('k') not in ('var', 'mem'): return None
        return self.ev_loc(o), k['f']['n']
    def borrow(self, v, loc):
        """reference bound to the target of a local smart pointer variable"""
        k = v['i']
        while k.get('k') in ('cast', 'load', 'paren'): k = k['e']
        if k.get('k') == 'un' and k.get('op') == '*':
            k = k['e']
            while k.get('k') in ('cast', 'load', 'paren'): k = k['e']
            a = k.get('o') if k.get('k') == 'mcall' and k['f'].get('n') == 'get' and tbase(strip_type(k['f'].get('c') or '')) in SPTR else None
        else: a = k['a'][0] if k.get('k') == 'opcall' and k['op'] == '*' and k['a'] else None
        if a is None: return
        while a.get('k') in ('cast', 'load', 'paren'): a = a['e']
        if a.get('k') != 'var' or 'g' in a: return
        fr = self.frames[-1]
        ol = fr.env.get(a['d'])
        if ol is None or ol.op != 'var': return
        x = self.st.heap.get(ol)
        if x is None or not (x.op == 'new' or x.op == 'pcall' or x.op in ('call', 'nd') and str(x.args[0]).startswith('thts::ThtsEnv::')): return
        self.orefs[(fr.id, v['d'])] = (ol, x)
    def check_dangling(self, name, e, loc):
        """reference bound to something owned only by a temporary smart pointer"""
        k = e
        while k.get('k') in ('cast', 'load'): k = k['e']
        a = None
        if k.get('k') == 'un' and k.get('op') == '*':
            k = k['e']
            while k.get('k') in ('cast', 'load', 'paren'): k = k['e']
        if k.get('k') == 'opcall' and k['op'] == '*' and k['a']: a = k['a'][0]
        elif k.get('k') == 'mcall' and k['f'].get('n') == 'get' and tbase(strip_type(k['f'].get('c') or '')) in SPTR: a = k.get('o')
        if a is None: return
        while a.get('k') in ('cast',): a = a['e']
        if a.get('k') != 'temp' or a.get('ext'): return
        src = a['e']
        while src.get('k') in ('cast', 'temp'): src = src['e']
        bad = None
        p = self.obj_ptr(loc) if loc.op in ('deref', 'ite') else loc
        for x in ite_leaves(p):
            while x.op == 'addr' and x.args[0].op == 'deref': x = x.args[0].args[0]
            if x.op == 'new':
                own = False
                for l, v in self.st.heap.items():
                    if l.op == 'tmp': continue
                    if l.op == 'fld' and l.args[0] is x: continue
                    if l.op in ('alias', 'refof'): continue
                    if v is x or any(y is x for y in subterms(v)): own = True; break
                if not own: bad = 'a new object owned by nothing else'
            elif x.op == 'pcall': bad = 'the object a configured function hands over, which nothing else need own'
            elif x.op in ('call', 'nd') and str(x.args[0]).startswith('thts::ThtsEnv::'): bad = 'the object %s hands over, which nothing else need own' % x.args[0]
        self.ev_emit('tempref', var=name, src=src.get('f', {}).get('q', src.get('k')), bad=bad)
    def branch(self, c, fa, fb):
        try: c2 = under(c, self.st.pc)
        except Blowup: c2 = c
        if c2 is TRUE: return fa()
        if c2 is FALSE: return fb()
        base = self.st
        s1 = base.copy(); s1.pc = self.s_ite(base.pc, c2, FALSE)
        s2 = base; s2.pc = self.s_ite(base.pc, b_not(c2), FALSE)
        if s1.pc.op == 'unk': s1.pc = base.pc
        if s2.pc.op == 'unk': s2.pc = base.pc
        self.st = s1
        a1 = fa()
        t1 = self.st if a1 else None
        self.st = s2
        a2 = fb()
        t2 = self.st if a2 else None
        self.st = self.merge(c2, t1, t2)
        return self.st is not None
    def s_if(self, s):
        self.push_scope()
        alive = True
        if s.get('init'): alive = self.exec(s['init'])
        if alive and s.get('cv'): self.declare(s['cv'])
        if alive:
            c = as_bool(self.ev(s['c']))
            alive = self.branch(c, lambda: self.exec(s['a']), lambda: self.exec(s.get('b')))
        self.pop_scope(alive)
        return alive
    def s_ret(self, s):
        fr = self.frames[-1]
        v = None
        if s.get('e') is not None:
            if fr.fn.get('rr'):
                l = self.ev_loc(s['e'])
                v = mk('locval', l)
            else:
                rt = fr.fn.get('rt', '')
                if tbase(strip_type(rt)) in GUARDS:
                    k = s['e']
                    while k.get('k') in ('temp', 'cast'): k = k['e']
                    self.keep_guard = k.get('k') == 'ctor' and not k['f'].get('copy')
                v = self.ev(s['e'])
                self.keep_guard = False
                if strip_type(rt) in self.p.classes and v.op != 'objval': pass
        lp = next((x for x in reversed(self.ctl or []) if x.get('frame') == fr.id), None)
        if lp is not None and {k: g for k, g in self.st.locks.items() if g is not FALSE} == lp['locks0'] and not (v is not None and v.op in ('objval',)):
            # leave the loop carrying the value; the enclosing do_loop returns it
            self.run_dtors(lp['scope'])
            self.st.heap[mk('var', fr.id, '$rf')] = TRUE
            self.st.heap[mk('var', fr.id, '$rv')] = v if v is not None else VOID
            lp['breaks'].append(self.st); lp['retbreaks'] += 1
            self.st = None
            return False
        self.run_dtors(fr.base_scope)
        fr.returns.append((self.st, v))
        self.st = None
        return False
    def s_break(self, s):
        lp = self.ctl[-1]
        self.run_dtors(lp['scope'])
        lp['breaks'].append(self.st); self.st = None
        return False
    def s_continue(self, s):
        lp = [x for x in self.ctl if x['kind'] == 'loop'][-1]
        self.run_dtors(lp['scope'])
        lp['conts'].append(self.st); self.st = None
        return False
    ctl = None
    def s_switch(self, s):
        self.push_scope()
        if s.get('init'): self.exec(s['init'])
        v = as_num(self.ev(s['c']))
        body = s['s']['s'] if s['s']['k'] == 'block' else [s['s']]
        # flatten to (labels, stmts)
        groups = []
        for x in body:
            labels = []
            while x and x['k'] in ('case', 'default'):
                labels.append(x['v'] if x['k'] == 'case' else None)
                x = x['s']
            if labels: groups.append((labels, [x]))
            elif groups: groups[-1][1].append(x)
        conds = []
        for labels, _ in groups:
            c = FALSE
            for l in labels:
                if l is not None: c = b_or(c, eq(v, as_num(self.ev(l))))
            conds.append(c)
        other = TRUE
        for c in conds: other = b_and(other, b_not(c))
        conds = [b_or(c, other) if any(l is None for l in g[0]) else c for c, g in zip(conds, groups)]
        ctl = {'kind': 'switch', 'breaks': [], 'conts': [], 'scope': len(self.scopes)}
        self.ctl = (self.ctl or []) + [ctl]
        outs = []
        base = self.st
        try:
            for i in range(len(groups)):
                st = base.copy(); st.pc = self.s_ite(base.pc, conds[i], FALSE)
                if st.pc is FALSE: continue
                self.st = st
                alive = True
                for j in range(i, len(groups)):
                    for x in groups[j][1]:
                        alive = self.exec(x)
                        if not alive: break
                    if not alive: break
                if alive: outs.append((self.st, None))
        finally: self.ctl = self.ctl[:-1]
        if not any(None in g[0] for g in groups):
            st = base.copy(); st.pc = self.s_ite(base.pc, other, FALSE)
            outs.append((st, None))
        outs += [(b, None) for b in ctl['breaks']]
        self.st, _ = self.merge_list(outs)
        alive = self.st is not None
        self.pop_scope(alive)
        return alive
    def s_try(self, s):
        tr = {'throws': [], 'scope': len(self.scopes)}
        self.tries.append(tr)
        try: alive = self.exec(s['s'])
        finally: self.tries.pop()
        outs = []
        if alive: outs.append((self.st, None))
        for st, typ in tr['throws']:
            handled = False
            for h in s['h']:
                ht = strip_type(h.get('t', '')) if 't' in h else None
                if ht is None or ht == typ or ht in ('std::exception',) or typ == '':
                    self.st = st
                    if self.exec(h['s']): outs.append((self.st, None))
                    handled = True
                    break
            if not handled:
                self.st = st
                self.run_dtors_quiet(self.tries[-1]['scope'] if self.tries else 0)
                if self.tries: self.tries[-1]['throws'].append((self.st, typ))
                else: self.throws_out.append((self.st, typ, dict(self.st.locks)))
        self.st, _ = self.merge_list(outs)
        return self.st is not None
    # -------------------------------------------------------- loops
    def s_while(self, s):
        self.push_scope()
        def cond():
            if s.get('cv'): self.declare(s['cv'])
            return as_bool(self.ev(s['c']))
        alive = self.do_loop(s['l'], cond, lambda: self.exec(s['s']), None)
        self.pop_scope(alive)
        return alive
    def s_do(self, s):
        # body; while(cond) body
        self.push_scope()
        lp = {'kind': 'loop', 'breaks': [], 'conts': [], 'scope': len(self.scopes)}
        # first iteration inlined, then a while loop
        self.ctl = (self.ctl or []) + [lp]
        try: alive = self.exec(s['s'])
        finally: self.ctl = self.ctl[:-1]
        sts = ([(self.st, None)] if alive else []) + [(x, None) for x in lp['conts']]
        self.st, _ = self.merge_list(sts)
        outs = [(x, None) for x in lp['breaks']]
        if self.st is not None:
            alive = self.do_loop(s['l'], lambda: as_bool(self.ev(s['c'])), lambda: self.exec(s['s']), None)
            if alive: outs.append((self.st, None))
        self.st, _ = self.merge_list(outs)
        alive = self.st is not None
        self.pop_scope(alive)
        return alive
    def s_for(self, s):
        self.push_scope()
        alive = True
        if s.get('init'): alive = self.exec(s['init'])
        if alive:
            cond = (lambda: as_bool(self.ev(s['c']))) if s.get('c') else (lambda: TRUE)
            inc = (lambda: (self.ev_inc(s['inc']), True)[1]) if s.get('inc') else None
            alive = self.do_loop(s['l'], cond, lambda: self.exec(s['s']), inc)
        self.pop_scope(alive)
        return alive
    def ev_inc(self, e):
        if e.get('k') in LV: self.ev_loc(e)
        else: self.ev(e)
    def s_rfor(self, s):
        self.push_scope()
        alive = True
        if s.get('init'): alive = self.exec(s['init'])
        if alive:
            rl = self.ev_loc(s['r'])
            self.check_dangling('range', s['r'], rl)
            C = self.load(rl)
            b = tbase(s['rt'])
            maplike = 'm' if b in MAPS else 'mm' if b in MMAPS else 's' if b in SETS else 'v'
            v = s['v']
            def body(el):
                fr = self.frames[-1]
                self.push_scope()
                if v.get('ref'): fr.env[v['d']] = el
                else:
                    l = mk('var', fr.id, v['d']); fr.env[v['d']] = l
                    x = self.load(el)
                    self.st.heap[l] = x
                for bd in v.get('binds', []):
                    if 'hv' in bd:
                        hv = bd['hv']
                        fr.env[v['d']] = el if v.get('ref') else fr.env[v['d']]
                        self.declare(hv); fr.env[bd['d']] = fr.env[hv['d']]
                    elif 'e' in bd: fr.env[bd['d']] = self.ev_loc(bd['e'])
                fr_it = (rl, mk('var', -1, 'imod%d' % len(self.iterating)))
                self.iterating.append(fr_it)
                self.st.heap[fr_it[1]] = FALSE
                try: a = self.exec(s['s'])
                finally: self.iterating.pop()
                lps = [x for x in self.ctl or () if x['kind'] == 'loop']
                if lps:
                    for z in lps[-1]['conts']:
                        c = z.heap.get(fr_it[1], FALSE)
                        if c is not FALSE:
                            sv = self.st; self.st = z
                            self.ev_emit('itermod', loc=rl, cond=c, at=self.imod_at)
                            self.st = sv; z.heap[fr_it[1]] = FALSE
                if a and self.st is not None:
                    c = self.st.heap.get(fr_it[1], FALSE)
                    if c is not FALSE: self.ev_emit('itermod', loc=rl, cond=c, at=self.imod_at)
                    self.st.heap[fr_it[1]] = FALSE
                self.pop_scope(a)
                return a
            alive = self.range_loop_value(C, body, maplike=maplike, line=s['l'], loc=rl, ordered=b in ('std::set', 'std::map'))
        self.pop_scope(alive)
        return alive
    def range_loop_value(self, C, body, rev=False, maplike='v', line=None, loc=None, ordered=False):
        line = line or self.line
        if C.op in ('mnew', 'vnew', 'mmnew'): return True
        # statically known short vectors: unroll
        if C.op == 'vpush' and not rev:
            items = []; x = C
            while x.op == 'vpush' and len(items) < 6: items.append(x.args[1]); x = x.args[0]
            if x is VNEW:
                lp = {'kind': 'loop', 'breaks': [], 'conts': [], 'scope': len(self.scopes)}
                for it in reversed(items):
                    self.ctl = (self.ctl or []) + [lp]
                    try: alive = body(self.tmp(it) if it.op != 'objval' else self.ptr_loc(it.args[0])) is not False
                    except PathEnd: alive = False
                    finally: self.ctl = self.ctl[:-1]
                    sts = ([(self.st, None)] if alive else []) + [(z, None) for z in lp['conts']]
                    lp['conts'] = []
                    self.st, _ = self.merge_list(sts)
                    if self.st is None: break
                outs = ([(self.st, None)] if self.st is not None else []) + [(z, None) for z in lp['breaks']]
                self.st, _ = self.merge_list(outs)
                return self.st is not None
        if C.op == 'ite':
            c = C.args[0]
            return self.branch(c, lambda: self.range_loop_value(C.args[1], body, rev, maplike, line, loc, ordered),
                               lambda: self.range_loop_value(C.args[2], body, rev, maplike, line, loc, ordered))
        level = len(self.loops)
        base = C; srt = False
        while base.op in ('sorted', 'reversed'):
            srt = True; base = base.args[0]
        if maplike == 'v' and base.op == 'vcomp' and base.args[4] is VNEW and (srt or rev is False):
            d2, h, val, g, _ = base.args
            bv = mk('bv', level, d2)
            val = subst(val, {mk('bx', h): bv}); g = subst(g, {mk('bx', h): bv})
            def bodyf():
                def go():
                    try: return body(self.tmp(val)) is not False
                    except PathEnd: return False
                if g is TRUE: return go()
                return self.branch(g, go, lambda: True)
            return self.do_loop(line, None, bodyf, None, dom=mk('sdom', d2, C) if srt else d2, bv=bv)
        if maplike in ('s', 'm') and not rev and base.op == 'mcomp' and base.args[5] is MNEW:
            d2, h, key, val, g, _ = base.args
            bx = mk('bx', h)
            if key is bx or key.op == 'sel' and key.args[1] is bx and not contains(key.args[0], lambda x: x is bx):
                # the set holds one element per element of the domain it was built from
                bv = mk('bv', level, d2)
                key, val, g = (subst(x, {bx: bv}) for x in (key, val, g))
                def bodys():
                    def go():
                        try: return body(self.tmp(key) if maplike == 's' else mk('itpair', key, self.tmp(val))) is not False
                        except PathEnd: return False
                    if g is TRUE: return go()
                    return self.branch(g, go, lambda: True)
                return self.do_loop(line, None, bodys, None, dom=mk('sdom', d2, C) if ordered else d2, bv=bv)
        dom = mk('rrange' if rev else 'range', C)
        bv = mk('bv', level, dom)
        def mkel():
            if maplike == 'm':
                return mk('itpair', bv, mk('elem', loc, bv, 'm')) if loc is not None and self.load(loc, True) is C else mk('itpair', bv, self.tmp(sel(C, bv)))
            if maplike == 'mm': return self.tmp(pair(mk('mmkey', bv), mk('mmval', bv)))
            return self.tmp(bv)
        def bodyw():
            r = body(mkel())
            return r is not False
        return self.do_loop(line, None, bodyw, None, dom=dom, bv=bv)
    def do_loop(self, line, cond, body, inc, dom=None, bv=None, kind='loop', maybreak=False):
        level = len(self.loops)
        st0 = self.st
        nret0 = len(self.frames[-1].returns)
        RF = mk('var', self.frames[-1].id, '$rf'); RV = mk('var', self.frames[-1].id, '$rv')
        st0.heap[RF] = FALSE; st0.heap[RV] = mk('sym', 'noret')
        W = []
        epochs_changed = set()
        induct = None            # (loc, bvterm, dom, how)
        loopinfo = [dom if dom is not None else mk('while', line), level, line, kind]
        def one(st, record):
            """run one abstract iteration from state st -> dict"""
            self.st = st
            if not record: self.mute += 1
            self.loops = self.loops + [tuple(loopinfo)]
            lp = {'kind': 'loop', 'breaks': [], 'conts': [], 'scope': len(self.scopes), 'frame': self.frames[-1].id, 'retbreaks': 0,
                  'locks0': {k: g for k, g in st.locks.items() if g is not FALSE}}
            self.ctl = (self.ctl or []) + [lp]
            nt = len(self.throws_out); ntr = [len(t['throws']) for t in self.tries]
            fr = self.frames[-1]
            retn = len(fr.returns)
            res = {'cond': TRUE, 'dead': False}
            try:
                alive = True
                c = TRUE
                try:
                    if cond is not None:
                        c = cond()
                        try: c = under(c, self.st.pc)
                        except Blowup: pass
                        res['cond'] = c
                        res['condstate'] = self.st.copy()
                        if c is FALSE: alive = False
                        else: self.st.pc = self.s_ite(self.st.pc, c, FALSE)
                    if alive: alive = body() is not False
                except PathEnd:
                    alive = False
                sts = ([(self.st, None)] if alive and self.st is not None else []) + [(x, None) for x in lp['conts']]
                end, _ = self.merge_list(sts)
                if end is not None and inc is not None:
                    self.st = end
                    try: inc(); end = self.st
                    except PathEnd: end = None
                res['end'] = end
                res['breaks'] = lp['breaks']; res['retbreaks'] = lp['retbreaks']
            finally:
                self.ctl = self.ctl[:-1]
                self.loops = self.loops[:-1]
                if not record: self.mute -= 1
            res['rets'] = fr.returns[retn:]
            if not record:
                del fr.returns[retn:]
                del self.throws_out[nt:]
                for t, n in zip(self.tries, ntr): del t['throws'][n:]
            return res
        def head(W):
            st = st0.copy()
            for l in W:
                st.heap[l] = mk('lc', level, l)
            for fnm in epochs_changed:
                self.nep += 1; st.epoch[fnm] = self.nep
                for l in [l for l in st.heap if l.op == 'fld' and l.args[1] == fnm and l.args[0].op != 'new' and l not in W]: del st.heap[l]
            if induct is not None:
                st.heap[induct[0]] = induct[1]
            # pc inside the loop: facts about loop-carried values do not survive
            st.pc = st0.pc
            return st
        def changed(h, res):
            ch = []
            for st in ([res['end']] if res['end'] is not None else []) + res['breaks']:
                for l, v in st.heap.items():
                    if l.op in ('var', 'tmp') and l not in st0.heap: continue
                    if l.op in ('refof', 'alias'): continue
                    if l.op == 'fld' and l.args[0].op == 'addr' and l.args[0].args[0].op in ('var', 'tmp') and l not in st0.heap and l.args[0].args[0] not in st0.heap: continue
                    if l.op == 'fld' and l.args[0].op == 'new' and l not in st0.heap: continue
                    if l.op == 'deref' and l.args[0].op == 'new' and l not in st0.heap: continue
                    sv = self.st
                    self.st = h; ov = self.load(l, True); self.st = sv
                    if ov is not v and l not in ch: ch.append(l)
                for fnm, ep in st.epoch.items():
                    if ep != h.epoch.get(fnm, 0): epochs_changed.add(fnm)
            return ch
        hst = None; res = None
        for it in range(7):
            hst = head(W)
            h2 = hst.copy()
            ne = len(epochs_changed)
            res = one(hst, False)
            if cond is not None and res['cond'] is FALSE and not W:
                # never entered
                self.st = st0
                if res.get('condstate') is not None: self.st = res['condstate']
                return True
            ch = changed(h2, res)
            new = [l for l in ch if l not in W and not (induct and l is induct[0])]
            if not new and len(epochs_changed) == ne: break
            W = W + new
        # induction variable / iterator recognition
        if dom is None and cond is not None and res['end'] is not None:
            ind = self.find_induction(level, W, st0, res)
            if ind is not None:
                loc, bvt, dm = ind
                induct = (loc, bvt)
                dom = dm
                bv = bvt if bvt.op == 'bv' else (bvt.args[1])
                loopinfo[0] = dom
                W = [l for l in W if l is not loc]
        hst = head(W)
        h2 = hst.copy()
        locks0 = dict(h2.locks)
        if self.st is None: self.st = st0
        self.ev_emit('loop', dom=dom, lkind=kind, level=level)
        res = one(hst, True)
        if self.st is None: self.st = st0
        self.ev_emit('endloop', dom=dom, level=level)
        # ---- returns from inside the loop: their values depend on the iteration
        lvl_syms = lambda t: contains(t, lambda x: (x.op == 'lc' and x.args[0] == level) or (x is bv))
        for (rst, rv) in self.frames[-1].returns[nret0:]:
            pass
        rets = self.frames[-1].returns
        for i in range(nret0, len(rets)):
            rst, rv = rets[i]
            if rv is not None and lvl_syms(rv): rv = mk('unk', 'loop-return', line)
            rst.pc = self.s_ite(st0.pc, mk('loopdone', line, i), FALSE)
            for l in list(rst.heap):
                if lvl_syms(l): del rst.heap[l]
                elif lvl_syms(rst.heap[l]): rst.heap[l] = mk('unk', 'loop-return', line)
            rets[i] = (rst, rv)
        hasret = len(rets) > nret0
        # ---- locks
        post = st0.copy()
        end = res['end']
        endl = end.locks if end is not None else locks0
        for k in set(endl) | set(locks0):
            a = self.held(k, locks0); b = self.held(k, endl)
            if a is b: continue
            if bv is not None and contains(k, lambda x: x is bv):
                hgt, (pat, g) = bind([k, b], bv)
                if b is not FALSE:
                    fam = mk('fam', dom, pat, hgt, g if g is not TRUE else TRUE)
                    post.locks[fam] = TRUE
                    self.ev_emit('lockall', dom=dom, pat=pat, h=hgt, guard=g)
                else:
                    for f2 in list(post.locks):
                        if f2.op == 'fam' and match(f2.args[1], k, mk('bx', f2.args[2])) is not None:
                            del post.locks[f2]
                    self.ev_emit('unlockall', dom=dom, pat=pat, h=hgt)
                post.locks.pop(k, None)
            else:
                self.ev_emit('looplock', lock=k, before=a, after=b)
                post.locks[k] = b
        for bst in res['breaks']:
            for k in set(bst.locks) | set(locks0):
                a = self.held(k, locks0); b = self.held(k, bst.locks)
                if a is not b: self.ev_emit('looplock', lock=k, before=a, after=b)
        # ---- values
        brk = FALSE
        ends = []
        if end is not None: ends.append((end, 0))
        for b in res['breaks']: ends.append((b, 1))
        if not ends:
            # body never completes an iteration normally (always returns/throws)
            self.st = post
            if cond is not None and res['cond'] is TRUE:
                self.st = None; return False
            if hasret: post.pc = self.s_ite(st0.pc, mk('loopdone', line, -1), FALSE)
            return True
        if res['breaks']:
            bs, _ = self.merge_list([(b, None) for b in res['breaks']])
            if end is not None:
                try: bc = under(bs.pc, b_or(bs.pc, end.pc))
                except Blowup: bc = mk('batom', self.unk('brk'))
                if bc is TRUE: bc = mk('batom', mk('sym', 'brk'))
                itend = self.merge(bc, bs, end)
                brk = bc
            else:
                itend = bs; brk = TRUE
        else: itend = end
        # relative to iteration head pc
        try:
            brk = under(brk, h2.pc)
        except Blowup: pass
        for l in epochs_changed:
            self.nep += 1; post.epoch[l] = self.nep
            for x in [x for x in post.heap if x.op == 'fld' and x.args[1] == l and x.args[0].op != 'new']: del post.heap[x]
        nexts = {}
        for l in W:
            sv = self.st; self.st = itend; nexts[l] = self.load(l, True); self.st = sv
        loopcond = res['cond'] if dom is None else TRUE
        if maybreak: brk = mk('batom', self.unk('timeout'))
        for l in W:
            if l.op == 'fld' and l.args[1] in epochs_changed:
                post.heap.pop(l, None); continue
            if bv is not None and contains(l, lambda x: x is bv) or contains(l, lambda x: x.op == 'lc' and x.args[0] == level):
                if l.op == 'fld': 
                    nm = l.args[1]
                    self.nep += 1; post.epoch[nm] = self.nep
                    for x in [x for x in post.heap if x.op == 'fld' and x.args[1] == nm and x.args[0].op != 'new']: del post.heap[x]
                post.heap.pop(l, None)
                continue
            sv = self.st; self.st = st0; x0 = self.load(l, True); self.st = sv
            try:
                v = self.summarise(level, dom, bv, l, W, nexts, st0, loopcond, brk, line)
            except (Blowup, RecursionError):
                v = self.unk('loop-summary')
            post.heap[l] = v
        if induct is not None:
            l = induct[0]
            if dom.op == 'irange':
                a, b = dom.args
                post.heap[l] = mk_ite(lt(a, b, True), b, a) if brk is FALSE else mk('unk', 'idx', line)
            else: post.heap[l] = mk('unk', 'iter-after', line)
        for k, n in itend.occ.items(): post.occ[k] = max(post.occ.get(k, 0), n)
        self.st = post
        if hasret: post.pc = self.s_ite(st0.pc, mk('loopdone', line, -1), FALSE)
        rf = post.heap.get(RF, FALSE)
        if rf is not FALSE:
            s1 = post.copy(); s1.pc = self.s_ite(post.pc, as_bool(rf), FALSE)
            if s1.pc.op == 'unk': s1.pc = post.pc
            rv = post.heap.get(RV)
            self.st = s1
            for x in (RF, RV): self.st.heap.pop(x, None)
            if rv is VOID or not self.frames[-1].fn.get('rt') or self.frames[-1].fn.get('rt') == 'void': rv = None
            fr = self.frames[-1]
            olp = next((x for x in reversed(self.ctl or []) if x.get('frame') == fr.id), None)
            if olp is not None and {k: g for k, g in self.st.locks.items() if g is not FALSE} == olp['locks0']:
                self.run_dtors(olp['scope'])
                self.st.heap[RF] = TRUE; self.st.heap[RV] = rv if rv is not None else VOID
                olp['breaks'].append(self.st); olp['retbreaks'] += 1
            else:
                self.run_dtors(fr.base_scope)
                fr.returns.append((self.st, rv))
            self.st = post
            if dom is None and res['cond'] is TRUE and len(res['breaks']) == res['retbreaks']:
                self.st = None; return False
            npc = self.s_ite(post.pc, b_not(as_bool(rf)), FALSE)
            if npc.op != 'unk': post.pc = npc
        post.heap.pop(RF, None); post.heap.pop(RV, None)
        if dom is None and cond is not None:
            # exit condition on the final values
            self.mute += 1
            try:
                c = cond()
                if brk is FALSE:
                    npc = self.s_ite(self.st.pc, b_not(c), FALSE)
                    if npc is FALSE and res['cond'] is TRUE: 
                        self.st = None
                        return False
                    if npc is not FALSE and npc.op != 'unk': self.st.pc = npc
            except (PathEnd, Blowup):
                self.st = post
            finally: self.mute -= 1
        return True
    def find_induction(self, level, W, st0, res):
        end = res['end']; c = res['cond']
        for l in W:
            if l.op not in ('var', 'tmp'): continue
            lc = mk('lc', level, l)
            nx = end.heap.get(l)
            x0 = st0.heap.get(l)
            if nx is None or x0 is None: continue
            # integer counter
            d = None
            try:
                if x0.op in ('num', 'poly', 'init', 'size', 'call', 'undef') : d = sub(nx, lc)
            except Exception: d = None
            if d is ONE:
                # condition  lc < hi   (c == ltz(lc - hi) or negation of ltz(hi - lc -1)...)
                hi = solve_lt(c, lc)
                if hi is not None and not contains(hi, lambda x: x.op == 'lc' and x.args[0] == level):
                    if not any(res2 is not None for res2 in [None]):
                        pass
                    if x0 is ZERO and hi.op == 'size':
                        dom = mk('irange', x0, hi)
                    else: dom = mk('irange', x0, hi)
                    return (l, mk('bv', level, dom), dom)
            # iterator
            if x0.op in ('itb', 'itrb') and nx.op == 'itnext' and nx.args[0] is lc:
                fin = [x for x in subterms(c) if x.op == 'eq' and lc in x.args]
                if c.op == 'ite' and fin and c is b_not(fin[0]):
                    other = [a for a in fin[0].args if a is not lc]
                    if other and other[0].op == ('itend' if x0.op == 'itb' else 'itrend') and other[0].args[0] is x0.args[0]:
                        C = x0.args[0]
                        dom = mk('range' if x0.op == 'itb' else 'rrange', C)
                        bv = mk('bv', level, dom)
                        if x0.args[2] == 'mm': return (l, mk('itm', C, bv, x0.args[1]), dom)
                        if x0.args[2] == 'm': return (l, mk('itf', C, bv, x0.args[1]), dom)
                        return (l, mk('itv', C, bv, x0.args[1]), dom)
        return None
    def summarise(self, level, dom, bv, l, W, nexts, st0, loopcond, brk, line):
        lc = {x: mk('lc', level, x) for x in W}
        sv = self.st; self.st = st0
        init = {x: self.load(x, True) for x in W}
        self.st = sv
        x0 = init[l]; nx = nexts[l]; me = lc[l]
        islc = lambda t: t.op == 'lc' and t.args[0] == level
        simple = dom is not None and dom.op in ('range', 'rrange', 'irange', 'sdom') and brk is FALSE
        if nx is me: return x0
        # split on loop-invariant atoms
        inv_atoms = [a for a in ite_atoms(nx) if not contains(a, lambda t: islc(t) or t is bv)]
        if inv_atoms and len(inv_atoms) <= 6:
            a = inv_atoms[0]
            r = []
            for val in (True, False):
                n2 = {x: restrict(v, {a: val}) for x, v in nexts.items()}
                st2 = st0.copy(); st2.heap = dict(st0.heap)
                for x in W: st2.heap[x] = restrict(init[x], {a: val})
                r.append(self.summarise(level, dom, bv, l, W, n2, st2, restrict(loopcond, {a: val}), restrict(brk, {a: val}), line))
            return mk_ite(a, r[0], r[1])
        if simple:
            v = self.reduce(level, dom, bv, me, x0, nx, islc)
            if v is not None: return v
        # generic fold on the dependency slice
        order = [l]; i = 0
        while i < len(order):
            for t in subterms(nexts[order[i]]):
                if islc(t) and t.args[1] not in order and t.args[1] in nexts: order.append(t.args[1])
            i += 1
            if i == len(order):
                for cnd in (loopcond, brk):
                    for t in subterms(cnd):
                        if islc(t) and t.args[1] not in order and t.args[1] in nexts: order.append(t.args[1])
        nx_ = [nexts[x] for x in order]
        terms = nx_ + [loopcond if dom is None else TRUE, brk]
        h = 1 + max([height(t) for t in terms + [dom] if t is not None] + [0])
        mp = {lc[x]: mk('lx', h, j) for j, x in enumerate(order)}
        if bv is not None: mp[bv] = mk('bx', h)
        terms = [subst(t, mp) for t in terms]
        d = dom if dom is not None else mk('while')
        return mk('fold', d, h, tuple(init[x] for x in order), tuple(terms[:len(order)]), terms[-2], terms[-1])
    def reduce(self, level, dom, bv, me, x0, nx, islc):
        hasme = lambda t: contains(t, lambda x: x is me)
        haslc = lambda t: contains(t, islc)
        # index ranges over a whole container become element ranges
        def close(*ts):
            d = dom
            ts = list(ts)
            if d.op == 'irange' and d.args[0] is ZERO and d.args[1].op == 'size':
                C = d.args[1].args[0]
                nd = mk('range', C); nb = mk('bv', bv.args[0], nd)
                ts2 = [subst(t, {mk('sel', C, bv): nb}) for t in ts]
                if not any(contains(t, lambda x: x is bv) for t in ts2):
                    h, ts2 = bind(ts2, nb)
                    return nd, h, ts2
            h, ts = bind(ts, bv)
            return d, h, ts
        if not haslc(nx):
            if not contains(nx, lambda x: x is bv):
                return mk_ite(lt(ZERO, dom_size(dom), True), nx, x0)
            d, h, (b,) = close(nx)
            return mk('lastf', d, h, b, x0)
        others = [x for x in subterms(nx) if islc(x) and x is not me]
        # additive
        leaves = ite_leaves(nx)
        numeric = all(t is me or t.op in ('poly', 'num') or not hasme(t) for t in leaves)
        cond_has = any(haslc(a) for a in ite_atoms(nx))
        if not others and not cond_has and numeric and x0.op not in ('vnew', 'mnew', 'vpush', 'mstore'):
            try:
                d_ = sub(nx, me)
                if not haslc(d_):
                    d, h, (b,) = close(d_)
                    return add(x0, mk_sum_h(d, h, b))
            except Exception: pass
        # min / max
        if not others:
            r = self.minmax(me, nx, islc, bv)
            if r is not None:
                kind, val, g = r
                d, h, (b, gg) = close(val, g)
                return mk(kind, d, h, b, gg, x0)
        # containers
        if not others:
            kinds = set()
            ok = True
            for t in leaves:
                if t is me: continue
                if t.op == 'mstore' and t.args[0] is me: kinds.add('mstore')
                elif t.op == 'vpush' and t.args[0] is me: kinds.add('vpush')
                elif t.op == 'merase' and t.args[0] is me: kinds.add('merase')
                elif t.op == 'mminsert' and t.args[0] is me: kinds.add('mminsert')
                else: ok = False
            if ok and len(kinds) == 1:
                k = kinds.pop()
                g = _map_leaves(nx, lambda t: FALSE if t is me else TRUE)
                if k == 'mstore':
                    key = _map_leaves(nx, lambda t: None if t is me else t.args[1])
                    val = _map_leaves(nx, lambda t: None if t is me else t.args[2])
                    if key is not None and val is not None:
                        if key is bv or (key.op == 'sel' and key.args[1] is bv):
                            # one visit per key: reads of the map at this key see the initial map
                            mp = {mk('sel', me, key): sel(x0, key), mk('has', me, key): has(x0, key)}
                            val = subst(val, mp); g = subst(g, mp); 
                        if not haslc(val) and not haslc(g) and not haslc(key):
                            d, h, (kk, vv, gg) = close(key, val, g)
                            bx = mk('bx', h)
                            if x0 is MNEW and gg is TRUE and d.op == 'range' and kk is bx and vv is mk('sel', d.args[0], bx): return d.args[0]
                            return mk('mcomp', d, h, kk, vv, gg, x0)
                elif k == 'vpush':
                    val = _map_leaves(nx, lambda t: None if t is me else t.args[1])
                    if val is not None and not haslc(val) and not haslc(g):
                        d, h, (vv, gg) = close(val, g)
                        if x0 is VNEW and gg is TRUE and vv is mk('bx', h) and d.op == 'range': return d.args[0]
                        return mk('vcomp', d, h, vv, gg, x0)
                elif k == 'merase':
                    key = _map_leaves(nx, lambda t: None if t is me else t.args[1])
                    if key is not None and not haslc(key) and not haslc(g):
                        d, h, (kk, gg) = close(key, g)
                        return mk('merasec', d, h, kk, gg, x0)
                elif k == 'mminsert':
                    key = _map_leaves(nx, lambda t: None if t is me else t.args[1])
                    val = _map_leaves(nx, lambda t: None if t is me else t.args[2])
                    if key is not None and val is not None and not haslc(key) and not haslc(g) and not haslc(val):
                        d, h, (kk, vv, gg) = close(key, val, g)
                        return mk('mmcomp', d, h, kk, vv, gg, x0)
        return None
    def minmax(self, me, nx, islc, bv):
        """nx = me<g ? g : me  under extra conditions -> ('maxf'|'minf', g, guard)"""
        def go(t, depth):
            if t is me: return ('skip',)
            ats = ite_atoms(t)
            B = [a for a in ats if not contains(a, islc)]
            if B:
                if depth > 10: return None
                a = B[0]
                r1 = go(restrict(t, {a: True}), depth+1); r2 = go(restrict(t, {a: False}), depth+1)
                if r1 is None or r2 is None: return None
                if r1[0] == 'skip' and r2[0] == 'skip': return r1
                if r1[0] == 'skip': return (r2[0], r2[1], mk_ite(a, FALSE, r2[2]))
                if r2[0] == 'skip': return (r1[0], r1[1], mk_ite(a, r1[2], FALSE))
                if r1[0] != r2[0]: return None
                return (r1[0], mk_ite(a, r1[1], r2[1]), mk_ite(a, r1[2], r2[2]))
            if t.op != 'ite': return None
            at, hi, lo = t.args
            if at.op != 'ltz' or ite_atoms(hi) or ite_atoms(lo): return None
            for g, first in ((hi, True), (lo, False)):
                o = lo if first else hi
                if o is not me or contains(g, islc): continue
                a1 = lt(me, g); a2 = lt(g, me)
                c = at if first else b_not(at)
                # g chosen iff c
                if c is a1 or c is b_not(a2) or c is lt(me, g, True) or c is b_not(lt(g, me, True)): return ('maxf', g, TRUE)
                if c is a2 or c is b_not(a1) or c is lt(g, me, True) or c is b_not(lt(me, g, True)): return ('minf', g, TRUE)
                # scaled comparison (k*me < k*g)
            return None
        try: r = go(nx, 0)
        except Blowup: return None
        if r is None or r[0] == 'skip': return None
        return r

def ite_leaves(t):
    seen = set(); st = [t]; out = []
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'ite': st.append(x.args[1]); st.append(x.args[2])
        else: out.append(x)
    return out
def _map_leaves(t, f):
    """apply f to leaves, f may return None for 'irrelevant'"""
    memo = {}
    def go(t):
        if t in memo: return memo[t]
        if t.op == 'ite':
            a, b = go(t.args[1]), go(t.args[2])
            r = b if a is None else a if b is None else mk_ite(t.args[0], a, b)
        else: r = f(t)
        memo[t] = r
        return r
    return go(t)
def solve_lt(c, lc):
    """c is (lc < hi) -> hi"""
    pos = c
    negd = False
    if c.op == 'ite' and c.args[1] is FALSE and c.args[2] is TRUE: pos = c.args[0]; negd = True
    if pos.op == 'ltz':
        p = topoly(pos.args[0])
        k = p.get(((lc, 1),))
        if k is None: 
            return None
        rest = frompoly({m: v for m, v in p.items() if m != ((lc, 1),)})
        if contains(rest, lambda x: x is lc): return None
        if not negd and k > 0: return mul(num(-1/k), rest)      # k*lc + rest < 0
        if negd and k < 0:                                       # not(-lc+rest<0) => rest >= lc => lc < rest+1
            return add(mul(num(-1/k), rest), ONE)
    if pos.op == 'eqz' and negd:
        p = topoly(pos.args[0])
        k = p.get(((lc, 1),))
        if k is None: return None
        rest = frompoly({m: v for m, v in p.items() if m != ((lc, 1),)})
        if contains(rest, lambda x: x is lc): return None
        return mul(num(-1/k), rest)
    return None
def match(pat, t, var):
    """structural match of pat (with variable var) against t -> binding or None"""
    b = [None]
    def go(p, x):
        if p is var:
            if b[0] is None: b[0] = x; return True
            return b[0] is x
        if p is x: return True
        if not isinstance(p, T) or not isinstance(x, T) or p.op != x.op or len(p.args) != len(x.args): return False
        for a, c in zip(p.args, x.args):
            if isinstance(a, T):
                if not isinstance(c, T) or not go(a, c): return False
            elif a != c: return False
        return True
    if not contains(pat, lambda y: y is var): return None
    return b[0] if go(pat, t) else None

LV = {'var', 'mem', 'mcall', 'call', 'opcall', 'idx', 'temp', 'cast', 'cond', 'assign', 'cassign', 'un', 'load', 'icall', 'lambda', 'ctor_', 'fn'}
