"""Random interpretation of value terms (Gulwani-Necula style identity test).

Two terms in different normal forms are compared under random interpretations of their atoms (a small random structure:
a universe of objects, random fields, maps as random subsets, vectors enumerating the universe).  Only terms that differ
under some interpretation are reported as different; terms with unmodelled parts are 'undecided'.
"""
import hashlib, math, random, re
from terms import *
import terms as TT
from prog import strip_type, tbase, targs, pointee

SEED = 1
CONSTS = {'LOWEST': -1.7976931348623157e308, 'HIGHEST': 1.7976931348623157e308, 'MINPOS': 2.2250738585072014e-308, 'EPSILON': 2.220446049250313e-16, 'LOWESTI': -2**63, 'MAXI': 2**63 - 1}
class Undec(Exception): pass
class Skip(Exception): pass
class Undef(Skip):
    """the value is undefined here: a division by zero, a logarithm or root of a negative number, an element that does not exist"""

def hsh(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), 'big')

class U:
    __slots__ = ('h', 'idx', 'mp')
    def __init__(self, h, idx=None): self.h = h; self.idx = idx; self.mp = None
    def __repr__(self): return 'U%x' % (self.h & 0xffffff) if self.idx is None else 'K%d' % self.idx
class Mp:          # map: base U or None, overlay dict  key -> value | None(deleted)
    __slots__ = ('base', 'ov')
    def __init__(self, base, ov): self.base = base; self.ov = ov
class VList:
    __slots__ = ('xs',)
    def __init__(self, xs): self.xs = xs
NULLV = ('null',)

INTTY = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short', 'char'}

ENUM = re.compile(r'^std::vector<std::shared_ptr<const (thts::)?\w*(Action|State|Observation)>')
class Types:
    """types of access paths, from the resolved program"""
    def __init__(self, prog):
        self.f = {}
        if prog is not None:
            for c in prog.classes.values():
                for f in c['fields']: self.f[c['n'] + '::' + f['n']] = strip_type(f['t'])
            for q, l in prog.by_q.items():
                ts = {strip_type(f.get('rt') or '') for f in l}
                if len(ts) == 1: self.f['()' + q] = ts.pop()
        self.memo = {}
    def of_loc(self, l):
        if l.op == 'fld': return self.f.get(l.args[1])
        if l.op == 'deref':
            t = self.of(l.args[0])
            return pointee(t) if t else None
        if l.op == 'elem': 
            t = self.of_loc(l.args[0]); return self.elemty(t)
        return None
    def elemty(self, t):
        if not t: return None
        b = tbase(t); a = targs(t)
        if b in ('std::unordered_map', 'std::map'): return strip_type(a[1])
        if b in ('std::vector', 'std::deque', 'std::list'): return strip_type(a[0])
        return None
    def of(self, t):
        r = self.memo.get(t, 0)
        if r == 0:
            r = None
            try:
                if t.op == 'init': r = self.of_loc(t.args[0])
                elif t.op == 'sel': r = self.elemty(self.of(t.args[0]))
                elif t.op in ('mstore', 'merase', 'vpush', 'vpop', 'vset'): r = self.of(t.args[0])
                elif t.op == 'shared': r = self.f.get(t.args[0])
                elif t.op == 'bop' or t.op == 'call' and t.args[0] == 'hash': r = 'unsigned long'
                elif t.op in ('call', 'nd') and t.args and isinstance(t.args[0], str): r = self.f.get('()' + t.args[0])
                elif t.op == 'back': r = self.elemty(self.of(t.args[0]))
            except Exception: r = None
            self.memo[t] = r
        return r

class Model:
    def __init__(self, seed, types, mapterms, hints, pool=(), ipool=()):
        self.wide = False; self.only = (); self.digits = 9; self.seed = seed; self.pool = pool; self.ipool = ipool
        rnd = random.Random(seed)
        self.n = rnd.choice([1, 2, 2, 3, 3, 4])
        self.types = types; self.mapterms = mapterms
        self.hints = hints
        self.memo = {}; self.force = {}; self.cprev = {}
        self.small = rnd.random() < 0.4
        self.bias = rnd.choice([0.5, 0.5, 0.2, 0.8])
    # ---- coercions
    def num(self, v, ty=None):
        if isinstance(v, bool): return 1.0 if v else 0.0
        if isinstance(v, (int, float)): return v
        if isinstance(v, U):
            h = hsh(self.seed, 'n', v.h, v.idx)
            if ty in INTTY:
                if self.ipool and h % 5 == 0: return self.ipool[(h // 5) % len(self.ipool)]
                return (h // 5) % 7
            h //= 10
            if self.only and ty in (None, 'double', 'float'): return self.only[(h // 4) % len(self.only)]
            if self.pool and h % 4 == 0:
                x = self.pool[(h // 4) % len(self.pool)]
                return abs(x) if ty == 'nn' else x
            h //= 4
            if ty == 'nn': return (1 + h % 97) / 16.0
            return ((h % 2001) - 1000) / 173.0 * ((2000, 0.1, 1)[h // 2001 % 3] if self.wide else 1)
        if v == NULLV: return 0
        raise Undec('num of %r' % (v,))
    def bit(self, *a): return (hsh(self.seed, 'b', *a) % 1000) < 1000 * self.bias
    def nchildren(self, o, w):
        """number of children of node o when the tree's shape is w"""
        k = 0
        while w.h in self.cprev:
            p, n = self.cprev[w.h]
            if isinstance(n, U) and n.h == o.h: k += hsh(self.seed, 'grow', w.h) % 2
            if not isinstance(p, U): break
            w = p
        return hsh(self.seed, 'nch', o.h, w.h) % 4 + k
    def obj(self, v):
        if v is NULLV or v == NULLV: return NULLV
        if isinstance(v, U):
            if v.idx is not None: return ('K', v.idx)
            if hsh(self.seed, 'null', v.h) % 4 == 0: return NULLV
            return ('K', hsh(self.seed, 'o', v.h) % self.n)
        if isinstance(v, tuple): return tuple(self.obj(x) if isinstance(x, (U, tuple)) else x for x in v)
        if isinstance(v, float) and v == int(v) and abs(v) < 1e15: return int(v)
        return v
    def key(self, v):
        k = self.obj(v)
        if k == NULLV and isinstance(v, U): return ('K', hsh(self.seed, 'o', v.h) % self.n)
        return k
    def mkey(self, v):
        """a value used as a map key: always one of the universe's keys"""
        k = self.key(v)
        if isinstance(k, tuple) and len(k) == 2 and k[0] == 'K' and k[1] >= self.n: return ('K', hsh(self.seed, 'mk', k[1]) % self.n)
        return k
    def boolv(self, v, t=None):
        if isinstance(v, bool): return v
        if isinstance(v, (int, float)): return v != 0
        if isinstance(v, U):
            if v.idx is not None: return True
            return self.bit('bool', v.h)
        if v == NULLV: return False
        if isinstance(v, tuple): return True
        raise Undec('bool')
    def can(self, v):
        """canonical hashable"""
        if isinstance(v, U): return ('U', v.h, v.idx)
        if isinstance(v, float):
            if math.isinf(v) or math.isnan(v): return str(v)
            if abs(v) < 1e-9: return 0
            if abs(v - round(v)) < 1e-9 * max(1, abs(v)) and abs(v) < 1e15: return int(round(v))
            return '%.*g' % (self.digits, v)
        if isinstance(v, tuple): return tuple(self.can(x) for x in v)
        if isinstance(v, VList): return ('V',) + tuple(self.can(x) for x in v.xs)
        if isinstance(v, Mp):
            return ('M',) + tuple(sorted((repr(k), repr(self.can(self.mget(v, k)))) for k in self.keys(v)))
        return v
    def mk(self, *a): return U(hsh(self.seed, *a))
    # ---- containers
    def is_map(self, t):
        x = t
        while x.op in ('mstore', 'merase', 'mcomp', 'merasec'): return True
        if t in self.mapterms: return True
        ty = self.types.of(t)
        if ty: return tbase(ty) in ('std::unordered_map', 'std::map', 'std::set', 'std::unordered_set')
        return False
    def mhas(self, m, k):
        if isinstance(m, Mp):
            if k in m.ov: return m.ov[k] is not None
            return self.mhas(m.base, k) if m.base is not None else False
        if isinstance(m, U): return self.bit('has', m.h, m.idx, k)
        raise Undec('has on %r' % type(m))
    def mget(self, m, k):
        if isinstance(m, Mp):
            if k in m.ov and m.ov[k] is not None: return m.ov[k]
            if k in m.ov or m.base is None: return self.mk('missing', self.can(m), k)
            return self.mget(m.base, k)
        if isinstance(m, VList):
            if isinstance(k, int) and 0 <= k < len(m.xs): return m.xs[k]
            raise Undef('element %s of %d' % (k, len(m.xs)))
        if isinstance(m, U):
            h = hsh(self.seed, 'sel', m.h, m.idx, k)
            return U(h, 100 + h % 50)
        raise Undec('get')
    def keys(self, m):
        ks = [('K', i) for i in range(self.n)]
        extra = []
        x = m
        while isinstance(x, Mp):
            extra += [k for k in x.ov if k not in ks and k not in extra]
            x = x.base
        return [k for k in ks + extra if self.mhas(m, k)]
    def fromkey(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == 'K': return U(hsh('K', k[1]), k[1])
        return k
    def vlist(self, v):
        if isinstance(v, VList): return v.xs
        if isinstance(v, U): return [U(hsh('el', v.h, i), i) for i in range(self.n)]
        raise Undec('vec')
    # ---- domains
    def dom(self, d, env):
        if d.op in ('range', 'rrange'):
            m = self.ev(d.args[0], env)
            if isinstance(m, Mp) or (isinstance(m, U) and self.is_map(d.args[0])):
                xs = [self.fromkey(k) for k in self.keys(m)]
            else: xs = list(self.vlist(m))
            if d.op == 'rrange': xs = xs[::-1]
            return xs
        if d.op == 'irange':
            a = self.num(self.ev(d.args[0], env), 'int'); b = self.num(self.ev(d.args[1], env), 'int')
            if b - a > 60: raise Skip()
            return list(range(int(a), int(b)))
        if d.op == 'sdom': raise Undec('sorted domain')
        raise Undec('dom ' + d.op)
    # ---- terms
    def ev(self, t, env):
        key = (t, tuple(sorted(env.items(), key=lambda x: repr(x[0]))) if env and self.open(t) else None)
        try:
            r = self.memo.get(key)
        except TypeError:
            key = None; r = None
        if r is None:
            r = self.ev1(t, env)
            if key is not None: self.memo[key] = r
        return r
    _open = {}
    def open(self, t):
        r = Model._open.get(t)
        if r is None:
            r = contains_op(t, ('bx', 'lx'))
            Model._open[t] = r
        return r
    def tnum(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, U):
            ty = self.hints.get(t) or self.types.of(t)
            return self.num(v, ty)
        return self.num(v)
    def same_inf(self, p, env):
        """x - y where both are the same infinity: the comparison it stands for is defined"""
        if p.op not in ('poly', 'psum') or len(p.args) != 2: return False
        r = []
        for m, c in p.args:
            x = float(c)
            for at, e in m:
                v = self.tnum(at, env)
                if e < 0 and v == 0: return False
                x *= float(v) ** e
            r.append(x)
        return math.isinf(r[0]) and r[0] == -r[1]
    def ev1(self, t, env):
        op = t.op; a = t.args
        if self.force and t in self.force: return self.force[t]
        if op == 'num':
            v = a[0]
            return int(v) if v.denominator == 1 else float(v)
        if op == 'bool': return a[0]
        if op == 'null': return NULLV
        if op == 'inf': return math.inf
        if op == 'undef': return self.mk('undef', repr(a[0]))
        if op in ('unk', 'exc'): raise Undec('%s %s' % (op, a))
        if op == 'inv0': return math.inf
        if op == 'box': return self.ev(a[0], env)
        if op in ('poly', 'psum'):
            s = 0; mx = 0
            for m, c in a:
                x = float(c) if c.denominator != 1 else int(c)
                for at, e in m:
                    v = self.tnum(at, env)
                    if e < 0:
                        if v == 0: raise Undef('division by zero')
                        v = 1.0 / v; e = -e
                    for _ in range(e):
                        x = x * v
                        if isinstance(x, float) and math.isnan(x): raise Undef('not a number')
                s = s + x
                if mx < abs(x) < math.inf: mx = abs(x)
            if isinstance(s, float):
                if math.isnan(s): raise Undef('not a number')
                if mx > 1e9 and abs(s) < 1e-7 * mx: raise Skip()       # all digits cancelled: the value is rounding noise
            return s
        if op == 'ite':
            try: c = self.boolv(self.ev(a[0], env), a[0])
            except Undef:        # conditions are kept in a canonical order, not in that of the program
                x, y = self.ev(a[1], env), self.ev(a[2], env)
                if self.can(x) == self.can(y): return x
                raise
            return self.ev(a[1] if c else a[2], env)
        if op == 'ltz':
            try: v = self.tnum(a[0], env)
            except Undef:
                if self.same_inf(a[0], env): return False
                raise
            return v < 0 if abs(v) > 1e-12 else False
        if op == 'eqz':
            try: return abs(self.tnum(a[0], env)) < 1e-12
            except Undef:
                if self.same_inf(a[0], env): return True
                raise
        if op == 'eq':
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            if isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == 'it' and y[0] == 'it': return x[2] == y[2]
            for t1, v1, v2 in ((a[0], x, y), (a[1], y, x)):
                if v2 is NULLV or v2 == NULLV:
                    if isinstance(v1, U) and v1.idx is not None and tbase(self.types.of(t1) or '') == 'std::weak_ptr': return self.bit('expired', v1.h)
                    if isinstance(v1, U): return not self.boolv(v1)
            if isinstance(x, (int, float)) or isinstance(y, (int, float)):
                x, y = self.num(x), self.num(y)
                return x == y or abs(x - y) < 1e-12
            if isinstance(x, U) and isinstance(y, U) and x.h == y.h and x.idx == y.idx: return True
            return self.key(x) == self.key(y)
        if op == 'odd': return int(self.tnum_int(a[0], env)) % 2 == 1
        if op == 'mod':
            y = int(self.tnum_int(a[1], env))
            if y == 0: raise Undef('division by zero')
            return int(math.fmod(int(self.tnum_int(a[0], env)), y))
        if op == 'idiv':
            y = int(self.tnum_int(a[1], env))
            if y == 0: raise Undef('division by zero')
            return int(int(self.tnum_int(a[0], env)) / y)
        if op == 'trunc': return int(self.tnum(a[0], env))
        if op == 'bop' and a[0] in ('|', '^'):
            x, y = self.ev(a[1], env), self.ev(a[2], env)
            if isinstance(x, int) and isinstance(y, int): return int(x) | int(y) if a[0] == '|' else int(x) ^ int(y)
        if op == 'band': return int(self.tnum_int(a[0], env)) & int(self.tnum_int(a[1], env))
        if op == 'batom':
            v = self.ev(a[0], env)
            if isinstance(v, U):
                ty = self.types.of(a[0])
                if ty in INTTY or ty in ('double', 'float'): return self.num(v, ty) != 0
            return self.boolv(v)
        if op == 'narrow':
            x = self.tnum(a[1], env)
            return x if 0 <= x < 4 else (x + 4) % 8 - 4
        if op == 'fn':
            try:
                xs = [self.tnum(x, env) for x in a[1:]]
                f = a[0]
                if f == 'exp':
                    if self.wide and xs[0] > 700: return math.inf
                    if xs[0] > 300: raise Skip()
                    return math.exp(xs[0])
                if f == 'f32': return xs[0] * (1 + (1e-3 if self.seed % 2 else 0.3) * math.sin(1e4 * xs[0])) if abs(xs[0]) < 1e9 else xs[0]
                if f == 'log':
                    if xs[0] <= 0:
                        if xs[0] == 0: return -math.inf
                        raise Undef('logarithm of a negative number')
                    return math.log(xs[0])
                if f == 'sqrt':
                    if xs[0] < 0: raise Undef('square root of a negative number')
                    return math.sqrt(xs[0])
                if f in ('fabs', 'abs'): return abs(xs[0])
                if f == 'pow':
                    r = xs[0] ** xs[1]
                    if isinstance(r, complex): raise Skip()
                    return r
                if f == 'tanh': return math.tanh(xs[0])
                if f == 'floor': return math.floor(xs[0])
                if f == 'ceil': return math.ceil(xs[0])
                return self.mk('fn', f, tuple(self.can(x) for x in xs))
            except (ValueError, OverflowError, ZeroDivisionError): raise Skip()
        if op == 'bx':
            if ('b', a[0]) in env: return env[('b', a[0])]
            raise Undec('unbound bx')
        if op == 'lx':
            if ('l', a[0], a[1]) in env: return env[('l', a[0], a[1])]
            raise Undec('unbound lx')
        if op == 'has': return self.mhas_t(a[0], a[1], env)
        if op == 'sel':
            m = self.ev(a[0], env); k = self.ev(a[1], env)
            if isinstance(m, VList):
                return self.mget(m, int(self.num(k, 'int')))
            if isinstance(m, U) and not self.is_map(a[0]) and isinstance(k, (int, float)):
                xs = self.vlist(m)
                i = int(k)
                if 0 <= i < len(xs): return xs[i]
                raise Undef('element %d of %d' % (i, len(xs)))
            return self.mget(m, self.mkey(k))
        if op == 'size':
            m = self.ev(a[0], env)
            if isinstance(m, VList): return len(m.xs)
            if isinstance(m, Mp) or self.is_map(a[0]): return len(self.keys(m))
            return len(self.vlist(m))
        if op == 'dsize': return len(self.dom(a[0], env))
        if op == 'mnew': return Mp(None, {})
        if op == 'vnew': return VList([])
        if op == 'mmnew': return VList([])
        if op == 'mstore':
            m = self.ev(a[0], env); k = self.mkey(self.ev(a[1], env)); v = self.ev(a[2], env)
            return self.ovl(m, {k: v})
        if op == 'merase':
            m = self.ev(a[0], env); k = self.mkey(self.ev(a[1], env))
            return self.ovl(m, {k: None})
        if op == 'vpush': return VList(self.vlist(self.ev(a[0], env)) + [self.ev(a[1], env)])
        if op == 'vpop':
            xs = self.vlist(self.ev(a[0], env))
            if not xs: raise Undef('pop of an empty vector')
            return VList(xs[:-1])
        if op == 'back':
            xs = self.vlist(self.ev(a[0], env))
            if not xs: raise Undef('last element of an empty vector')
            return xs[-1]
        if op == 'vset':
            xs = list(self.vlist(self.ev(a[0], env))); i = int(self.num(self.ev(a[1], env)))
            if not 0 <= i < len(xs): raise Undef('element %d of %d' % (i, len(xs)))
            xs[i] = self.ev(a[2], env)
            return VList(xs)
        if op == 'vfill':
            n = int(self.tnum_int(a[0], env))
            if n > 60 or n < 0: raise Skip()
            return VList([self.ev(a[1], env)] * n)
        if op == 'sorted':
            xs = self.vlist(self.ev(a[0], env))
            if a[1].op != 'null': raise Undec('sort order')
            if all(isinstance(x, (int, float)) for x in xs): return VList(sorted(xs))
            return VList(sorted(xs, key=lambda x: repr(self.key(x))))
        if op in ('pair', 'tuple'): return tuple(self.ev(x, env) for x in a)
        if op == 'proj':
            v = self.ev(a[0], env)
            if isinstance(v, tuple) and v is not NULLV and a[1] < len(v): return v[a[1]]
            return self.mk('proj', self.can(v), a[1])
        if op == 'sum':
            s = 0; mx = 0
            for e, x in self.iter(a[0], a[1], env):
                v = self.tnum(a[2], x)
                s += v
                if mx < abs(v) < math.inf: mx = abs(v)
            if isinstance(s, float):
                if math.isnan(s): raise Undef('not a number')
                if mx > 1e9 and abs(s) < 1e-7 * mx: raise Skip()
            return s
        if op in ('maxf', 'minf'):
            d, h, b, g, x0 = a
            cur = self.tnum(x0, env)
            for e, x in self.iter(d, h, env):
                if not self.boolv(self.ev(g, x)): continue
                v = self.tnum(b, x)
                cur = max(cur, v) if op == 'maxf' else min(cur, v)
            return cur
        if op == 'lastf':
            d, h, b, x0 = a
            cur = None
            for e, x in self.iter(d, h, env): cur = self.ev(b, x)
            return self.ev(x0, env) if cur is None else cur
        if op == 'mcomp':
            d, h, kk, vv, gg, x0 = a
            ov = {}
            for e, x in self.iter(d, h, env):
                if self.boolv(self.ev(gg, x)): ov[self.mkey(self.ev(kk, x))] = self.ev(vv, x)
            return self.ovl(self.ev(x0, env), ov)
        if op == 'merasec':
            d, h, kk, gg, x0 = a
            ov = {}
            for e, x in self.iter(d, h, env):
                if self.boolv(self.ev(gg, x)): ov[self.mkey(self.ev(kk, x))] = None
            return self.ovl(self.ev(x0, env), ov)
        if op == 'vcomp':
            d, h, vv, gg, x0 = a
            xs = list(self.vlist(self.ev(x0, env)))
            for e, x in self.iter(d, h, env):
                if self.boolv(self.ev(gg, x)): xs.append(self.ev(vv, x))
            return VList(xs)
        if op == 'mminsert':
            return self.mmsort(self.mml(a[0], env) + [(self.tnum(a[1], env), self.norm(self.ev(a[2], env)))])
        if op == 'mmcomp':
            d, h, kk, vv, gg, x0 = a
            xs = list(self.mml(x0, env))
            for e, x in self.iter(d, h, env):
                if self.boolv(self.ev(gg, x)): xs.append((self.tnum(kk, x), self.norm(self.ev(vv, x))))
            return self.mmsort(xs)
        if op in ('mmkey', 'mmval'):
            v = self.ev(a[0], env)
            if isinstance(v, tuple) and len(v) == 2: return v[0 if op == 'mmkey' else 1]
            raise Undec('mm element')
        if op == 'mmit':
            xs = self.mml(a[1], env); k = self.tnum(a[2], env)
            lo = next((i for i, x in enumerate(xs) if x[0] >= k), len(xs))
            up = next((i for i, x in enumerate(xs) if x[0] > k), len(xs))
            if a[0] == 'find': return ('it', VList(xs), lo if lo < len(xs) and xs[lo][0] == k else len(xs))
            if a[0] == 'lower_bound': return ('it', VList(xs), lo)
            if a[0] == 'upper_bound': return ('it', VList(xs), up)
            return (('it', VList(xs), lo), ('it', VList(xs), up))
        if op in ('itb', 'itend') and a[2] == 'mm':
            xs = self.mml(a[0], env)
            return ('it', VList(xs), 0 if op == 'itb' else len(xs))
        if op in ('itnext', 'itprev'):
            v = self.ev(a[0], env)
            if not (isinstance(v, tuple) and len(v) == 3 and v[0] == 'it'): raise Undec('iterator')
            return ('it', v[1], v[2] + (1 if op == 'itnext' else -1))
        if op in ('itderef', 'mmelem'):
            v = self.ev(a[0], env)
            if not (isinstance(v, tuple) and len(v) == 3 and v[0] == 'it'): raise Undec('iterator')
            if not 0 <= v[2] < len(v[1].xs): raise Skip()
            return v[1].xs[v[2]]
        if op == 'mmerase':
            xs = self.mml(a[0], env); v = self.ev(a[1], env)
            if not (isinstance(v, tuple) and len(v) == 3 and v[0] == 'it'): raise Undec('erase')
            if not 0 <= v[2] < len(xs): raise Skip()
            return VList(xs[:v[2]] + xs[v[2]+1:])
        if op == 'fold':
            d, h, init, nx, cond, brk = a
            cur = [self.ev(x, env) for x in init]
            def envof(cur, el=None):
                e = dict(env)
                for j, v in enumerate(cur): e[('l', h, j)] = v
                if el is not None: e[('b', h)] = el
                return e
            if d.op == 'while':
                for _ in range(40):
                    e = envof(cur)
                    if not self.boolv(self.ev(cond, e)): break
                    b = self.boolv(self.ev(brk, e))
                    cur = [self.ev(x, e) for x in nx]
                    if b: break
                else: raise Skip()
                return cur[0]
            for el in self.dom(d, env):
                e = envof(cur, el)
                b = self.boolv(self.ev(brk, e))
                cur = [self.ev(x, e) for x in nx]
                if b: break
            return cur[0]
        if op == 'str': return ('s', a[0])
        if op == 'cat':
            s = ''
            for x in a:
                v = self.ev(x, env)
                s += v[1] if isinstance(v, tuple) and v and v[0] == 's' else repr(self.can(v))
            return ('s', s)
        if op == 'shown':
            v = self.ev(a[0], env)
            if isinstance(v, tuple) and v and v[0] == 's': return v
            return ('s', repr(self.can(v)))
        if op == 'sym':
            if a[0] in CONSTS: return CONSTS[a[0]]
            return self.mk('sym', a)
        if op == 'effc':
            # children are only ever added, and only to the node the call is made on
            u = self.mk('eff', (self.arg(a[0], env, op),)); c = a[0]
            if c.op in ('call', 'bcall') and len(c.args) > 1: self.cprev[u.h] = (self.ev(a[1], env), self.ev(c.args[1], env))
            return u
        if op in ('init', 'fld', 'deref', 'addr', 'glob', 'elem', 'call', 'bcall', 'pcall', 'this', 'new', 'reversed'):
            if op == 'reversed': return VList(self.vlist(self.ev(a[0], env))[::-1])
            if op == 'bcall' and isinstance(a[0], str) and a[0].endswith('::equals_itfc') and len(a) == 3:
                return self.mkey(self.ev(a[1], env)) == self.mkey(self.ev(a[2], env))
            if op == 'call' and isinstance(a[0], str) and a[0].endswith('::get_num_children') and len(a) == 3:
                o, w = self.ev(a[1], env), self.ev(a[2], env)
                if isinstance(o, U) and isinstance(w, U): return self.nchildren(o, w)
            if op == 'call' and a[0] == 'mmcount':
                k = self.tnum(a[2], env)
                return sum(1 for x in self.mml(a[1], env) if x[0] == k)
            args = tuple(self.arg(x, env, op) for x in a)
            if op == 'this': return U(hsh(self.seed, 'this'), 0)
            if op == 'new': return U(hsh(self.seed, 'new', a), 1000 + hsh(a) % 100000)
            r = self.mk(op, args)
            if op == 'bcall': return self.bit('bcall', r.h)
            if op == 'init':
                ty = self.types.of(t)
                if ty in INTTY: return self.num(r, ty)
                if ty == 'bool': return self.bit('f', r.h)
                if ty in ('double', 'float'): return self.num(r, ty)
                if ty and tbase(ty) == 'std::vector' and not ENUM.search(ty):
                    # actions enumerate the universe; any other vector can have any length
                    m = hsh(self.seed, 'len', r.h) % (2 * self.n + 3)
                    return VList(self.vlist(r)[:m])
            return r
        args = tuple(self.arg(x, env, op) for x in a)
        r = self.mk(op, args)
        if op == 'shared':
            ty = self.types.of(t)
            if ty in INTTY: return self.num(r, ty) - 1
            if ty == 'bool': return self.bit('f', r.h)
            return r
        if op in TT.BOOLOPS: return self.bit(op, r.h)
        return r
    def arg(self, x, env, op):
        if isinstance(x, T):
            v = self.ev(x, env)
            if op in ('fld', 'deref', 'elem') and isinstance(v, (U, tuple)): return self.key(v)
            return self.can(v)
        if isinstance(x, tuple): return tuple(self.arg(y, env, op) for y in x)
        return x
    def tnum_int(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, U): return self.num(v, 'int')
        return self.num(v)
    def mhas_t(self, m, k, env):
        mv = self.ev(m, env)
        return self.mhas(mv, self.mkey(self.ev(k, env)))
    def ovl(self, m, ov):
        if isinstance(m, Mp):
            d = dict(m.ov); d.update(ov)
            return Mp(m.base, d)
        if isinstance(m, U): return Mp(m, dict(ov))
        raise Undec('ovl')
    def norm(self, v): return self.fromkey(self.mkey(v)) if isinstance(v, U) else v
    def mml(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, VList): return v.xs
        raise Undec('multimap')
    def mmsort(self, xs): return VList(sorted(xs, key=lambda x: (x[0], repr(self.can(x[1])))))
    def iter(self, d, h, env):
        for el in self.dom(d, env):
            e = dict(env); e[('b', h)] = el
            yield el, e
    def same(self, x, y, tx=None, ty=None):
        if isinstance(x, bool) or isinstance(y, bool):
            return self.boolv(x) == self.boolv(y)
        if isinstance(x, (int, float)) or isinstance(y, (int, float)):
            hx = (tx and (self.hints.get(tx) or self.types.of(tx))) or None
            hy = (ty and (self.hints.get(ty) or self.types.of(ty))) or None
            a = self.num(x, hx or hy); b = self.num(y, hy or hx)
            if math.isinf(a) or math.isinf(b): return a == b
            if abs(a) > 1e12 or abs(b) > 1e12: raise Skip()
            return abs(a-b) <= 1e-7 * max(1.0, abs(a), abs(b))
        if isinstance(x, U) and isinstance(y, U):
            return x.h == y.h and x.idx == y.idx or (x.idx is not None and x.idx == y.idx)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.same(p, q) if not isinstance(p, str) else p == q for p, q in zip(x, y))
        if isinstance(x, Mp) or isinstance(y, Mp):
            kx, ky = set(self.keys(x)), set(self.keys(y))
            if kx != ky: return False
            return all(self.same(self.mget(x, k), self.mget(y, k)) for k in kx)
        if isinstance(x, VList) or isinstance(y, VList):
            a, b = self.vlist(x), self.vlist(y)
            return len(a) == len(b) and all(self.same(p, q) for p, q in zip(a, b))
        if isinstance(x, U) or isinstance(y, U):
            # opaque vs structured: pointer comparison
            if x == NULLV or y == NULLV:
                u = x if isinstance(x, U) else y
                return not self.boolv(u)
            return False
        return x == y

    def finite(self, v):
        if isinstance(v, float): return not (math.isinf(v) or math.isnan(v))
        if isinstance(v, Mp): return all(self.finite(self.mget(v, k)) for k in self.keys(v))
        if isinstance(v, VList): return all(self.finite(x) for x in v.xs)
        if isinstance(v, tuple): return all(self.finite(x) for x in v)
        return True

def mapterms_of(*ts):
    out = set()
    for t in ts:
        for x in subterms(t):
            if x.op == 'has': out.add(x.args[0])
            elif x.op in ('mstore', 'merase'): out.add(x.args[0])
            elif x.op == 'mcomp': out.add(x.args[5])
            elif x.op in BIND:
                d, h = x.args[0], x.args[1]
                if isinstance(d, T) and d.op == 'range':
                    m = d.args[0]; bx = mk('bx', h)
                    if any(y.op == 'sel' and y.args[0] is m and y.args[1] is bx for z in x.args[2:] for w in (z if isinstance(z, tuple) else (z,)) if isinstance(w, T) for y in subterms(w)): out.add(m)
    return out
BIND = {'sum', 'maxf', 'minf', 'mcomp', 'vcomp', 'fold', 'merasec', 'lastf', 'mmcomp'}

_subs = {}
def subs(t):
    r = _subs.get(t)
    if r is None: r = _subs[t] = frozenset(subterms(t))
    return r
class Cmp:
    def __init__(self, prog, hints=None, need=60, tries=1500, most=500):
        self.types = Types(prog); self.hints = hints or {}
        self.need = need; self.tries = tries; self.most = most
        self.infs = False
        self.stats = {'syntactic': 0, 'algebraic': 0, 'random': 0, 'undecided': 0, 'differ': 0}
    def equal(self, a, b, assume=TRUE, extra_maps=()):
        """-> (True, how) | (False, witness) | (None, why)"""
        if a is b:
            self.stats['syntactic'] += 1; return True, 'identical normal form'
        try:
            if assume is not TRUE:
                a = under(a, assume); b = under(b, assume)
            if a is b:
                self.stats['syntactic'] += 1; return True, 'identical normal form'
            if alg_equal(a, b):
                self.stats['algebraic'] += 1; return True, 'algebraically equal'
        except (Blowup, RecursionError): pass
        maps = mapterms_of(a, b, assume) | set(extra_maps)
        pool = set()
        for t in (a, b, assume):
            for x in subterms(t):
                if x.op in ('ltz', 'eqz') and x.args[0].op in ('poly', 'psum'):
                    for mono, c in x.args[0].args:
                        if not mono: pool.add(float(-c)); pool.add(float(c))
                elif x.op == 'num': pool.add(float(x.args[0]))
        pool = sorted(x for x in pool if abs(x) < 1e6)
        ipool = [int(x) for x in pool if x >= 0 and x == int(x)]
        ipool += [x + 1 for x in ipool if x > 6]        # counters past every constant they are compared with or masked by
        atoms = self.eqatoms(a, b, assume)
        n = sum(1 for _ in subterms(a)) + sum(1 for _ in subterms(b))
        need = max(self.need, min(self.most, 60000 // (n + 1)))
        hit = 0; und = 0; why = 'no interpretation satisfied the assumption'
        def model(seed, digits=9):
            m = Model(seed * 7919 + 13 + 1000003 * (SEED - 1), self.types, maps, self.hints, pool, ipool)
            if self.infs and seed % 3 == 0:
                # values that include infinities, with all of them equal every now and then
                m.only = ((-math.inf,), (math.inf,), (-math.inf, 0.0), (math.inf, -math.inf, 1.5))[seed // 3 % 4]
                return m
            if seed % 10 == 6: m.only = ((1.5,), (0.5, -2.0), (0.25,))[seed // 10 % 3]       # ties everywhere
            if atoms and seed % 2: self.direct(m, atoms, random.Random(m.seed))
            m.digits = digits
            if assume is not TRUE and seed % 2:
                w = walks.get(('s', seed))
                if w is None:
                    self.satisfy(m, assume, random.Random(m.seed + 2)); walks['s', seed] = dict(m.force)
                else: m.force = dict(w)
                m.memo.clear()
            if seed < 5000 and seed % 3 != 0:
                w = walks.get(seed)
                if w is None:
                    self.walk(m, a if seed % 3 == 1 else b, cov, random.Random(m.seed + 1))
                    walks[seed] = dict(m.force)
                else: m.force = dict(w)
                m.memo.clear()
            return m
        cov = {}; walks = {}
        for seed in range(max(self.tries, 4 * need)):
            try:
                m = model(seed)
                if assume is not TRUE and not m.boolv(m.ev(assume, {})): continue
                y = m.ev(b, {})
                try: x = m.ev(a, {})
                except Undef as e:
                    if not all(self.undef(model, seed, d, a, b) for d in (8, 7, 5)): continue
                    und += 1
                    if und < 3: continue
                    self.stats['differ'] += 1
                    return False, 'interpretation %d: the code computes an undefined value (%s), required %s' % (seed, e, self.pp(y))
                if not m.same(x, y, a, b) and all(self.differ(model, seed, d, a, b) for d in (8, 7, 5)):
                    self.stats['differ'] += 1
                    return False, 'interpretation %d: code computes %s, required %s' % (seed, self.pp(x), self.pp(y))
                hit += 1
                if hit >= need: break
            except Skip: continue
            except Undec as e:
                self.stats['undecided'] += 1
                return None, str(e)
            except RecursionError:
                self.stats['undecided'] += 1
                return None, 'too deep'
        if hit == 0:
            self.stats['undecided'] += 1
            return None, why
        w = self.overflow(model, a, b, assume)
        if w is not None:
            self.stats['differ'] += 1
            return False, w
        self.stats['random'] += 1
        return True, 'equal under %d random interpretations' % hit
    def overflow(self, model, a, b, assume):
        """values of large magnitude: the code must not overflow or lose everything in an exponential where the reference does not"""
        if not any(x.op == 'fn' and x.args[0] == 'exp' for x in subterms(a)): return None
        bad = 0
        for seed in range(5000, 5120):
            try:
                m = model(seed); m.wide = True; m.pool = ()
                m.memo.clear()
                if assume is not TRUE and not m.boolv(m.ev(assume, {})): continue
                y = m.ev(b, {})
                if not m.finite(y): continue
                try: fx = m.finite(m.ev(a, {}))
                except Undef: fx = False
                if not fx:
                    bad += 1
                    if bad >= 3: return 'with large values (interpretation %d) the code overflows to a non-finite value, required %s' % (seed, self.pp(y))
            except Skip: continue
            except (Undec, RecursionError, OverflowError): return None
        return None
    def eqatoms(self, *ts):
        """closed conditions on numbers, with a stored quantity each can be solved for: random values practically never hit an
        equality (or a narrow range) by themselves, so half of the interpretations are directed at the boundary of some of them"""
        out = []
        for t in ts:
            for x in subterms(t):
                if x.op in ('eqz', 'ltz') and x.args[0].op in ('poly', 'psum') and not contains_op(x, ('bx', 'lx')):
                    p = x.args[0]
                    cand = [(mono[0][0], c) for mono, c in p.args if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op in ('init', 'sym', 'call')]
                    occ = [at for mono, c in p.args for at, e in mono]
                    cand = [(v, c) for v, c in cand if occ.count(v) == 1]
                    if cand and (x, cand) not in out: out.append((x, cand))
        return out
    def direct(self, m, atoms, rnd):
        k = rnd.choice([1, 1, 2, 3])
        for x, cand in rnd.sample(atoms, min(k, len(atoms))):
            v, c = rnd.choice(cand)
            if v in m.force: continue
            try:
                r = m.tnum(x.args[0], {})
                cur = m.tnum(v, {})
            except (Skip, Undec): continue
            if isinstance(r, float) and (math.isinf(r) or math.isnan(r)): continue
            nv = cur - r / float(c)
            if abs(nv - round(nv)) < 1e-9: nv = int(round(nv))
            ty = self.types.of(v)
            if ty in INTTY:
                nv = int(round(nv)) + rnd.choice([0, 0, -1, 1])
                if ty.startswith('unsigned') and nv < 0: nv = 0
            elif ty == 'bool' or (ty and ty not in ('double', 'float')): continue
            elif x.op == 'ltz': nv = nv + rnd.choice([0, -0.5, 0.5])
            m.force[v] = nv; m.memo.clear()
    _solv = {}
    def solvable(self, x):
        r = Cmp._solv.get(x)
        if r is None:
            r = []
            p = x.args[0]
            if p.op in ('poly', 'psum'):
                occ = [at for mono, c in p.args for at, e in mono]
                for mono, c in p.args:
                    for v, e in mono:
                        if e == 1 and v.op in ('init', 'sym', 'call') and occ.count(v) == 1 and not any(v in subs(y) for y in occ if y is not v): r.append((v, c, [z for z in mono if z[0] is not v]))
            elif p.op in ('init', 'sym', 'call'): r = [(p, 1, [])]
            Cmp._solv[x] = r
        return r
    def feasible(self, pc):
        """is there an interpretation in which the path condition holds?"""
        if pc is TRUE: return True
        for seed in range(300):
            m = Model(seed * 7919 + 13, self.types, mapterms_of(pc), self.hints)
            rnd = random.Random(m.seed)
            try:
                self.satisfy(m, pc, rnd)
                if m.boolv(m.ev(pc, {})): return True
            except (Skip, Undec, RecursionError): continue
        return False
    def satisfy(self, m, t, rnd):
        for _ in range(40):
            if t.op != 'ite': break
            c, x, y = t.args
            if m.open(c): break
            want = False if x is FALSE else True if y is FALSE else rnd.random() < 0.5
            try:
                if c not in m.force: self.fix(m, c, want, rnd)
                got = m.boolv(m.ev(c, {}), c)
            except (Skip, Undec): break
            t = x if got else y
        if t.op != 'ite' and t.op != 'bool':
            try: self.fix(m, t, True, rnd)
            except (Skip, Undec): pass
        m.memo.clear()
    def walk(self, m, t, cov, rnd):
        """steer an interpretation down the branches of a term that earlier ones have taken least often, by fixing the truth of the
        (closed, atomic) conditions met on the way"""
        stack = [t]; seen = set(); steps = 0
        while stack and steps < 60:
            t = stack.pop()
            if not isinstance(t, T):
                if isinstance(t, tuple): stack.extend(t)
                continue
            if t in seen: continue
            seen.add(t)
            if t.op != 'ite':
                if any(True for _ in t.args): stack.extend(x for x in t.args if isinstance(x, (T, tuple)))
                continue
            c = t.args[0]
            if m.open(c): stack += [t.args[2], t.args[1]]; continue
            steps += 1
            n1, n0 = cov.get((t, True), 0), cov.get((t, False), 0)
            want = n1 < n0 if n1 != n0 else rnd.random() < 0.5
            try:
                if c not in m.force: self.fix(m, c, want, rnd)
                got = m.boolv(m.ev(c, {}), c)
            except (Skip, Undec): stack += [t.args[2], t.args[1]]; continue
            cov[(t, got)] = cov.get((t, got), 0) + 1
            stack.append(t.args[1] if got else t.args[2])
    def fix(self, m, c, want, rnd):
        if c.op == 'batom':
            x = c.args[0]
            if x.op == 'init' and x not in m.force and self.types.of(x) == 'bool': m.force[x] = want; m.memo.clear()
        elif c.op in ('bcall', 'isa'): m.force[c] = want
        elif c.op == 'eq' and (c.args[0] is NULL or c.args[1] is NULL):
            x = c.args[1] if c.args[0] is NULL else c.args[0]
            if x.op in ('init', 'call', 'pcall', 'sym'): m.force[c] = want
        elif c.op == 'odd' and c.args[0].op == 'init' and c.args[0] not in m.force:
            m.force[c.args[0]] = 2 * rnd.randrange(4) + (1 if want else 0); m.memo.clear()
        elif c.op in ('ltz', 'eqz'):
            cand = [x for x in self.solvable(c) if x[0] not in m.force]
            if not cand: return
            if m.boolv(m.ev(c, {}), c) == want: return
            v, k, rest = rnd.choice(cand)
            r = m.tnum(c.args[0], {}); cur = m.tnum(v, {})
            if isinstance(r, float) and (math.isinf(r) or math.isnan(r) or abs(r) > 1e15): return
            k = float(k)
            for at, e in rest:
                x = float(m.tnum(at, {}))
                if x == 0: return
                k *= x ** e
            if abs(k) < 1e-9: return
            ty = self.types.of(v)
            if c.op == 'eqz': d = 0 if want else rnd.choice([1, 2])
            else: d = -rnd.choice([1, 1, 2, 0.5]) if want else rnd.choice([0, 0, 1, 2])
            if abs(r) > 1e6: d *= abs(r)
            nv = cur + (d - r) / float(k)
            if ty in INTTY:
                nv = math.floor(nv) if (d - r) / float(k) < 0 else math.ceil(nv)
                if nv < 0: return           # counts and sizes
            elif ty is None and v.op == 'sym': nv = math.floor(nv) if (d - r) / float(k) < 0 else math.ceil(nv)     # an argument: int or double
            elif ty not in ('double', 'float'): return
            m.force[v] = nv; m.memo.clear()
    def differ(self, model, seed, digits, a, b):
        """a difference must not depend on how numbers are rounded when they become arguments of opaque functions"""
        try:
            m = model(seed, digits)
            return not m.same(m.ev(a, {}), m.ev(b, {}), a, b)
        except Skip: return False
    def undef(self, model, seed, digits, a, b):
        try:
            m = model(seed, digits); m.ev(b, {})
        except Skip: return False
        try: m.ev(a, {})
        except Undef: return True
        except Skip: return False
        return False
    def pp(self, v):
        s = repr(v) if not isinstance(v, (Mp, VList)) else type(v).__name__
        return s[:80]
