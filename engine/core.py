"""Analysis driver: runs of the value-flow engine on library functions and on reference transitions, and their comparison."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from interp import *
import frontend, rinterp

FAMILIES = ['Uct', 'Puct', 'Ments', 'DBMents', 'Dents', 'Est', 'Rents', 'Tents']
def family(k): return {'thts::ThtsDNode': 'thts::%sDNode' % k, 'thts::ThtsCNode': 'thts::%sCNode' % k}
NONDET = ('thts::helper::sample_from_distribution', 'thts::helper::get_max_key_break_ties_randomly', 'thts::RandManager::get_rand_int', 'thts::RandManager::get_rand_uniform')
CREATE = {'thts::ThtsDNode::create_child_node_itfc', 'thts::ThtsCNode::create_child_node_itfc'}

def node_opaque(f):
    """what a node-level analysis does not look into: random draws, the environment, child creation (each has its own check)"""
    q = f['q']
    b = q.split('<')[0]
    if b in NONDET: return 'nondet'
    if q.startswith('thts::ThtsEnv::'): return 'pure'
    if q in CREATE: return 'create'
    return None

class AnalysisError(Exception): pass

class Result: pass

class Core:
    def __init__(self):
        self.ir = frontend.extract()
        self.p = Prog(self.ir)
        self.cmp = rinterp.Cmp(self.p)
        self.analysed = set()
        self.cache = {}
    def fn(self, q):
        l = self.p.by_q.get(q)
        if not l: raise AnalysisError('anchor %s not found in the program' % q)
        return l[0]
    def method(self, cls, name):
        f = self.p.method(cls, name)
        if f is None: raise AnalysisError('anchor %s::%s not found in the program' % (cls, name))
        return f
    def args_for(self, ps):
        out = []
        for i, prm in enumerate(ps):
            s = mk('sym', ('refarg%d' if prm.get('ref') else 'arg%d') % i)
            out.append(('l', mk('deref', s)) if prm.get('ref') else ('v', s))
        return out
    def run(self, fn, this=None, dyn=None, fam=None, opaque=node_opaque, args=None, pre=None, **kw):
        it = Interp(self.p, family=family(fam) if fam else {}, opaque=opaque, **kw)
        if this is not None and dyn: it.dyn[this] = dyn
        if pre: pre(it)
        r = Result()
        r.it = it; r.fn = fn; r.root = this if this is not None and this.op == 'new' else None
        try:
            r.ret = it.call_fn(fn, this, args if args is not None else self.args_for(fn['ps']))
            r.st = it.st; r.ended = True
        except PathEnd:
            r.ret = None; r.st = None; r.ended = False
        r.events = it.events; r.unmodelled = it.unmodelled
        self.analysed |= it.fnset
        return r
    def run_method(self, cls, name, fam=None, **kw):
        f = self.method(cls, name)
        return self.run(f, mk('this'), cls, fam, **kw)
    def spec(self, q):
        l = self.p.by_q.get('vspec::' + q)
        if not l: raise AnalysisError('reference transition %s did not resolve against the program: %s' % (q, str(self.ir.get('badspec'))[:400]))
        return l[0]
    def run_spec(self, q, cls, fam=None, **kw):
        """reference transition: first parameter is the object itself"""
        f = self.spec(q)
        this = mk('this')
        args = [('l', mk('deref', this))] + [a for a in self.args_for(f['ps'][1:])]
        pre0 = kw.pop('pre', None)
        def pre(it):
            it.dyn[this] = cls
            if pre0: pre0(it)
        return self.run(f, None, None, fam, args=args, pre=pre, **kw)
    def term(self, q, cls, **kw):
        """truth value of a reference predicate over the object, as a term"""
        r = self.run_spec(q, cls, None, **kw)
        if not r.ended or r.ret is None: raise AnalysisError('reference predicate %s not evaluated' % q)
        return r.ret
    def ctor(self, cls, nmin=0):
        c = [f for f in self.p.fns.values() if f.get('ctor') and f.get('c') == cls and f.get('body') and len(f['ps']) >= nmin and not f.get('copy')]
        if not c: raise AnalysisError('anchor: constructor of %s not found' % cls)
        return max(c, key=lambda f: len(f['ps']))
    def run_ctor(self, cls, fam=None, nmin=0, **kw):
        return self.run(self.ctor(cls, nmin), mk('new', cls, '$this'), cls, fam, **kw)
    def run_init_spec(self, q, cls, fam=None, **kw):
        this = mk('new', cls, '$this')
        f = self.spec(q)
        pre0 = kw.pop('pre', None)
        def pre(it):
            it.dyn[this] = cls
            it.default_fields(cls, this)
            if pre0: pre0(it)
        b = self.run(f, None, None, fam, args=[('l', mk('deref', this))] + self.args_for(f['ps'][1:]), pre=pre, **kw)
        b.root = this
        return b
    # ---- comparison of post states
    def visible(self, st):
        out = {}
        for l, v in st.heap.items():
            if l is WORLD: out[l] = v
            elif l.op == 'fld':
                p = l.args[0]
                if not isinstance(l.args[1], str) or l.args[1].startswith('$'): continue
                if p.op == 'addr' and p.args[0].op in ('var', 'tmp'): continue
                out[l] = v
            elif l.op in ('deref', 'glob'): out[l] = v
        return out
    def fieldname(self, l):
        if l.op == 'fld': return l.args[1]
        if l.op == 'glob' and str(l.args[0]).startswith('$'): return l.args[0]
        return repr(l)[:60]
    def reach(self, res, vis):
        """objects allocated by the run that stay reachable from its result, in a canonical order; others are dropped"""
        order = []; todo = []
        def scan(t):
            for x in subterms(t):
                if x.op == 'new' and x not in order: order.append(x); todo.append(x)
        if res.ret is not None: scan(res.ret)
        isnew = lambda l: l.op in ('fld', 'deref') and l.args[0].op == 'new'
        for l in sorted((l for l in vis if not isnew(l)), key=lambda l: repr(l)): scan(vis[l])
        while todo:
            o = todo.pop(0)
            for l in sorted((l for l in vis if isnew(l) and l.args[0] is o), key=lambda l: repr(l)): scan(vis[l])
        cnt = {}; ren = {}
        for o in order:
            if o.args[0] == '$this': continue
            n = cnt[o.args[0]] = cnt.get(o.args[0], 0) + 1
            ren[o] = mk('new', o.args[0], 'r%d' % n)
        keep = {}
        for l, v in vis.items():
            if isnew(l) and l.args[0] not in order and not (res.root is not None and l.args[0] is res.root): continue
            keep[subst(l, ren)] = subst(v, ren)
        return keep, (subst(res.ret, ren) if res.ret is not None else None)
    def loop_writes(self, run):
        """members of other objects written inside loops, one object per iteration: [(field, event)]"""
        out = []
        for e in run.events:
            if e.kind not in ('write', 'ewrite'): continue
            l = e.loc
            while l.op in ('elem', 'projl'): l = l.args[0]
            if l.op != 'fld' or not isinstance(l.args[1], str) or l.args[1].startswith('$'): continue
            if not contains_op(l.args[0], {'bv', 'bx', 'lc'}) or contains_op(l.args[0], {'new', 'tmp', 'var', 'unk'}): continue
            if e.kind == 'write' and isinstance(e.value, T) and e.value is mk('init', l): continue
            out.append((l.args[1], e))
        return out
    def compare(self, a, b, only=None, skip=None, assume=TRUE, completion=False):
        """-> list of (what, verdict, detail)"""
        out = []
        if not a.ended or not b.ended:
            if a.ended != b.ended: out.append(('normal completion', False, 'the code %s' % ('never completes' if not a.ended else 'completes')))
            return out
        (va, ra), (vb, rb) = self.reach(a, self.visible(a.st)), self.reach(b, self.visible(b.st))
        if completion:
            w = [e for e in a.it.events if e.kind == 'throw' and e.typ == 'std::bad_weak_ptr' and e.loops]
            if w and not [e for e in b.it.events if e.kind == 'throw' and e.typ == 'std::bad_weak_ptr' and e.loops]:
                out.append(('completion', False, 'line %s makes a shared_ptr of a weak_ptr that may have expired' % w[0].line))
            if not (a.st.pc is TRUE and b.st.pc is TRUE): out.append(('completion',) + self.cmp.equal(a.st.pc, b.st.pc, assume))
        if only is None or 'ret' in only:
            out.append(('ret',) + self.cmp.equal(ra, rb, assume))
        known = {nm for nm, e in self.loop_writes(b)}
        for nm, e in self.loop_writes(a):
            if nm in known or only is not None and nm not in only and nm.split('::')[-1] not in only: continue
            if skip is not None and (nm in skip or nm.split('::')[-1] in skip): continue
            known.add(nm)
            ok, d = self.cmp.equal(b_and(assume, e.pc), FALSE)
            if ok is False: out.append((nm, False, 'line %s changes it for objects visited by a loop' % e.line))
        for l in list(va) + [x for x in vb if x not in va]:
            nm = self.fieldname(l)
            if only is not None and nm not in only and nm.split('::')[-1] not in only: continue
            if skip is not None and (nm in skip or nm.split('::')[-1] in skip): continue
            x = va.get(l)
            if x is None:
                sv = a.it.st; a.it.st = a.st; x = a.it.load(l, True); a.it.st = sv
            y = vb.get(l)
            if y is None:
                sv = b.it.st; b.it.st = b.st; y = b.it.load(l, True); b.it.st = sv
            out.append((nm,) + self.cmp.equal(x, y, assume))
        return out
