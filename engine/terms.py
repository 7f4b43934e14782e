"""Value terms of the value-flow analysis: hash-consed expressions in a normal form.

* numbers: polynomials (with negative powers for divisions) over opaque atoms, rational coefficients
* booleans / gated values: ordered decision diagrams  ite(atom, hi, lo)  (gated SSA in normal form)
* everything else (pointers, containers, calls, folds): interned opaque operators
Two program fragments that compute the same value by different statements end up as the same term.
"""
import sys, hashlib, math
from fractions import Fraction
sys.setrecursionlimit(20000)

class Blowup(Exception):
    pass

class T:
    __slots__ = ('op', 'args', 'uid', '_fv')
    def __repr__(self):
        s = show(self, 8)
        return s if len(s) < 400 else s[:400] + '...'

_tab = {}
_cnt = [0]
def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T.__new__(T)
        t.op = op; t.args = args
        _cnt[0] += 1
        t.uid = _cnt[0]
        t._fv = None
        _tab[k] = t
    return t

TRUE = mk('bool', True)
FALSE = mk('bool', False)
NULL = mk('null')
VOID = mk('void')
def boolc(b): return TRUE if b else FALSE

# ---------------------------------------------------------------- numbers
def num(x):
    if isinstance(x, T): return x
    if isinstance(x, float):
        x = Fraction(repr(x))
    return mk('num', Fraction(x))
ZERO = num(0); ONE = num(1)
INF = mk('inf')

def is_num(t): return t.op == 'num'

_polycache = {}
def topoly(t):
    """dict monomial -> Fraction ; monomial = tuple of (atom,power) sorted by uid"""
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return dict(t.args)
    return {((t, 1),): Fraction(1)}

def frompoly(p):
    items = [(m, c) for m, c in p.items() if c != 0]
    if not items: return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == (): return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    items.sort(key=lambda mc: tuple((a.uid, e) for a, e in mc[0]))
    if len(items) > 400: raise Blowup('poly')
    return mk('poly', *items)

def _monmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda ae: ae[0].uid))

def _expand_psum(p):
    """positive powers of psum atoms get expanded away"""
    out = {}
    todo = list(p.items())
    while todo:
        m, c = todo.pop()
        for i, (a, e) in enumerate(m):
            if a.op == 'psum' and e > 0:
                rest = m[:i] + (((a, e-1),) if e > 1 else ()) + m[i+1:]
                for m2, c2 in a.args:
                    todo.append((_monmul(rest, m2), c*c2))
                break
        else:
            out[m] = out.get(m, 0) + c
    return out

def lift(fn, *ts):
    """apply fn to terms, pushing it below ite nodes"""
    for t in ts:
        if t.op == 'ite': break
    else:
        return fn(*ts)
    return _lift(fn, ts, {})
def _lift(fn, ts, memo, budget=1500):
    r = memo.get(ts)
    if r is not None: return r
    top = None
    for t in ts:
        if t.op == 'ite':
            a = t.args[0]
            if top is None or a.uid < top.uid: top = a
    if top is None:
        r = fn(*ts)
    else:
        hi = tuple(t.args[1] if t.op == 'ite' and t.args[0] is top else t for t in ts)
        lo = tuple(t.args[2] if t.op == 'ite' and t.args[0] is top else t for t in ts)
        h = _lift(fn, hi, memo, budget); l = _lift(fn, lo, memo, budget)
        r = mk_ite(top, h, l)
    if len(memo) > budget: raise Blowup('lift')
    memo[ts] = r
    return r

def box(t): return mk('box', t) if t.op == 'ite' else t
def nlift(fn, *ts):
    """lift for numeric operators: when the gated normal form gets too large the operands are kept as opaque boxes"""
    for t in ts:
        if t.op == 'ite': break
    else:
        return fn(*ts)
    try: return _lift(fn, ts, {}, 250)
    except Blowup: return fn(*[box(t) for t in ts])
def add(a, b): return nlift(_add, a, b)
def _add(a, b):
    if a.op == 'num' and a.args[0] == 0: return b
    if b.op == 'num' and b.args[0] == 0: return a
    p = topoly(a)
    for m, c in topoly(b).items():
        p[m] = p.get(m, 0) + c
    return frompoly(p)
def neg(a): return mul(num(-1), a)
def sub(a, b): return add(a, neg(b))
def mul(a, b): return nlift(_mul, a, b)
def _mul(a, b):
    if a is ONE: return b
    if b is ONE: return a
    pa, pb = topoly(a), topoly(b)
    # cancel  (c*Q) * Q^-1
    for x, y in ((pa, pb), (pb, pa)):
        if len(x) > 1:
            s, lead = _normsum(x)
            for m in y:
                if any(at is s and e < 0 for at, e in m):
                    if len(y) == 1:
                        (mm, cc), = y.items()
                        return frompoly(_expand_psum({_monmul(mm, ((s, 1),)): cc*lead}) if not any(at is s and e < -0 for at, e in _monmul(mm, ((s, 1),))) else {_monmul(mm, ((s, 1),)): cc*lead})
    p = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _monmul(m1, m2)
            p[m] = p.get(m, 0) + c1*c2
        if len(p) > 600: raise Blowup('mul')
    return frompoly(_expand_psum(p))
def _normsum(p):
    items = sorted(p.items(), key=lambda mc: tuple((a.uid, e) for a, e in mc[0]))
    lead = items[-1][1]
    return mk('psum', *[(m, c/lead) for m, c in items]), lead
def inv(a): return nlift(_inv, a)
def _inv(a):
    if a.op == 'num':
        if a.args[0] == 0: return mk('inv0')
        return num(1/a.args[0])
    if a is INF: return ZERO
    p = topoly(a)
    if len(p) == 1:
        (m, c), = p.items()
        return frompoly(_expand_psum({tuple((x, -e) for x, e in m): 1/c}))
    s, lead = _normsum(p)
    return frompoly({((s, -1),): 1/lead})
def div(a, b): return mul(a, inv(b))

def fn(name, *args):
    return nlift(lambda *a: _fn(name, *a), *args)
def _fn(name, *args):
    if name in ('exp', 'log', 'sqrt', 'fabs', 'pow'):
        if name == 'pow' and args[1].op == 'num' and args[1].args[0].denominator == 1 and 0 <= args[1].args[0] <= 6:
            r = ONE
            for _ in range(int(args[1].args[0])): r = mul(r, args[0])
            return r
        if name == 'pow' and args[1].op == 'num' and args[1].args[0] == Fraction(1, 2):
            return fn('sqrt', args[0])
        if name == 'exp' and args[0] is ZERO: return ONE
        if name == 'log' and args[0] is ONE: return ZERO
    return mk('fn', name, *args)

# ---------------------------------------------------------------- booleans
def _top(t):
    return t.args[0] if t.op == 'ite' else None

_itecache = {}
_itebudget = [1000000]
def reset_budget(n=1000000):
    _itebudget[0] = n
    if len(_itecache) > 1500000: _itecache.clear()
def mk_ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    k = (c, a, b)
    r = _itecache.get(k)
    if r is not None: return r
    # top atom
    if c.op == 'ite': top = c.args[0]
    else: top = c
    for t in (a, b):
        x = _top(t)
        if x is not None and x.uid < top.uid: top = x
    def cof(t, v):
        if t.op == 'ite' and t.args[0] is top: return t.args[1] if v else t.args[2]
        if t is top: return boolc(v)
        return t
    h = mk_ite(cof(c, True), cof(a, True), cof(b, True))
    l = mk_ite(cof(c, False), cof(a, False), cof(b, False))
    if h is l: r = h
    elif h is TRUE and l is FALSE: r = top
    else: r = mk('ite', top, h, l)
    _itebudget[0] -= 1
    if _itebudget[0] < 0: raise Blowup('ite')
    _itecache[k] = r
    return r
def b_not(a): return mk_ite(a, FALSE, TRUE)
def b_and(a, b): return mk_ite(a, b, FALSE)
def b_or(a, b): return mk_ite(a, TRUE, b)

def restrict(t, facts):
    """cofactor t by a dict atom->bool"""
    if not facts: return t
    memo = {}
    def go(t):
        if t.op != 'ite':
            if t in facts: return boolc(facts[t])
            return t
        r = memo.get(t)
        if r is not None: return r
        at, h, l = t.args
        v = facts.get(at)
        if v is True: r = go(h)
        elif v is False: r = go(l)
        else: r = mk_ite(at, go(h), go(l))
        memo[t] = r
        return r
    return go(t)

def under(t, pc):
    """simplify t knowing pc holds (generalised cofactor, exact on the care set)"""
    if pc is TRUE or t.op in ('num', 'bool'): return t
    memo = {}
    def go(t, pc):
        if pc is FALSE or pc is TRUE: return t
        k = (t, pc)
        r = memo.get(k)
        if r is not None: return r
        pt = pc.args[0] if pc.op == 'ite' else pc
        ph, pl = (pc.args[1], pc.args[2]) if pc.op == 'ite' else (TRUE, FALSE)
        tt = t.args[0] if t.op == 'ite' else (t if _isboolatom(t) else None)
        if tt is None: return t
        th, tl = (t.args[1], t.args[2]) if t.op == 'ite' else (TRUE, FALSE)
        if len(memo) > 20000: raise Blowup('under')
        if tt is pt:
            if ph is FALSE: r = go(tl, pl)
            elif pl is FALSE: r = go(th, ph)
            else: r = mk_ite(tt, go(th, ph), go(tl, pl))
        elif pt.uid < tt.uid:
            if ph is FALSE: r = go(t, pl)
            elif pl is FALSE: r = go(t, ph)
            else: r = mk_ite(pt, go(t, ph), go(t, pl))
        else:
            r = mk_ite(tt, go(th, pc), go(tl, pc))
        memo[k] = r
        return r
    return go(t, pc)
BOOLOPS = {'ltz', 'eqz', 'eq', 'has', 'odd', 'isa', 'batom', 'nonempty', 'bcall', 'loopdone', 'wk'}
def _isboolatom(t): return t.op in BOOLOPS

NONNEG = {'size'}
def _intpoly(t):
    return True
def lt(a, b, integer=False):
    return nlift(lambda x, y: _lt(x, y, integer), a, b)
def _sgn_inf(t):
    if t is INF: return 1
    if t.op == 'poly' and len(t.args) == 1 and len(t.args[0][0]) == 1 and t.args[0][0][0][0] is INF:
        return 1 if t.args[0][1] > 0 else -1
    return 0
def _lt(a, b, integer):
    sa, sb = _sgn_inf(a), _sgn_inf(b)
    if sa and sb: return boolc(sa < sb)
    d = _add(a, _mul(num(-1), b))
    if d.op == 'num': return boolc(d.args[0] < 0)
    if d.op == 'ite': return lift(lambda x: _ltz(x, integer), d)
    return _ltz(d, integer)
def _leadcoef(p):
    items = sorted(((m, c) for m, c in p.items() if m != ()), key=lambda mc: tuple((a.uid, e) for a, e in mc[0]))
    return items[-1][1]
def _ltz(d, integer):
    p = topoly(d)
    lead = _leadcoef(p)
    if integer and lead < 0 and all(c.denominator == 1 for c in p.values()):
        # d<0  <=>  not (-d-1 < 0)
        q = {m: -c for m, c in p.items()}
        q[()] = q.get((), 0) - 1
        return b_not(_ltz(frompoly(q), integer))
    # nonneg quantity: size - k
    s = abs(lead)
    q = frompoly({m: c/s for m, c in p.items()})
    if integer and len(p) == 2 and () in p or integer and len(p) == 1:
        for m, c in topoly(q).items():
            if m != () and len(m) == 1 and m[0][1] == 1 and m[0][0].op in NONNEG and c == 1:
                k = -topoly(q).get((), Fraction(0))
                if k <= 0: return FALSE       # size < 0
    return mk('ltz', q, 'i' if integer else 'r')
def le(a, b, integer=False): return b_not(lt(b, a, integer))
def eq(a, b): return lift(_eq, a, b)
def _eq(a, b):
    if a is b: return TRUE
    if a.op in ('num', 'poly') or b.op in ('num', 'poly') or a is INF or b is INF:
        if a.op in ('bool',) or b.op in ('bool',):
            if a.op == 'bool': a = num(1 if a.args[0] else 0)
            if b.op == 'bool': b = num(1 if b.args[0] else 0)
        d = _add(a, _mul(num(-1), b))
        if d.op == 'num': return boolc(d.args[0] == 0)
        p = topoly(d)
        lead = _leadcoef(p)
        q = frompoly({m: c/lead for m, c in p.items()})
        if len(p) <= 2:
            for m, c in topoly(q).items():
                if m != () and len(m) == 1 and m[0][1] == 1:
                    k = -topoly(q).get((), Fraction(0))
                    at = m[0][0]
                    if at.op in NONNEG:
                        if k < 0: return FALSE
                        if k == 0: return _ltz(add(at, num(-1)), True)
        return mk('eqz', q)
    if _isboolatom(a) or a.op == 'bool' or _isboolatom(b) or b.op == 'bool':
        return mk_ite(a, b, b_not(b))
    for x, y in ((a, b), (b, a)):
        if x is NULL and y.op in ('new', 'addr', 'this', 'fnref', 'nn', 'lambda') or x is NULL and y.op == 'sym' and str(y.args[0]).startswith('refarg'): return FALSE
    if a.op in ('new', 'fnref', 'str') and b.op == a.op: return FALSE
    if a.uid > b.uid: a, b = b, a
    return mk('eq', a, b)
def ne(a, b): return b_not(eq(a, b))

def odd(x): return lift(_odd, x)
def _odd(x):
    if x.op == 'num': return boolc(int(x.args[0]) % 2 == 1)
    return mk('odd', x)
def mod(a, b):
    return lift(_mod, a, b)
def _mod(a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0: return num(math.fmod(int(a.args[0]), int(b.args[0])).__int__())
    if b.op == 'num' and b.args[0] == 2: return mk_ite(odd(a), ONE, ZERO)
    return mk('mod', a, b)
def band(a, b):
    return lift(_band, a, b)
def _band(a, b):
    if a.op == 'num' and b.op == 'num': return num(int(a.args[0]) & int(b.args[0]))
    if b.op == 'num' and b.args[0] == 1: return mk_ite(odd(a), ONE, ZERO)
    if a.op == 'num' and a.args[0] == 1: return mk_ite(odd(b), ONE, ZERO)
    return mk('band', a, b)
def idiv(a, b):
    return lift(lambda x, y: num(int(x.args[0] / y.args[0])) if x.op == 'num' and y.op == 'num' and y.args[0] != 0 else mk('idiv', x, y), a, b)

def as_bool(t):
    """truth value of a numeric / pointer / bool term"""
    return lift(_as_bool, t)
def _as_bool(t):
    if t.op == 'bool' or _isboolatom(t): return t
    if t.op == 'num': return boolc(t.args[0] != 0)
    if t is NULL: return FALSE
    if t.op in ('new', 'addr', 'this', 'fnref', 'nn', 'lambda'): return TRUE
    if t.op == 'poly': return b_not(_eq(t, ZERO))
    if t.op == 'size': return b_not(_eq(t, ZERO))
    return mk('batom', t)
def ptr_bool(t):
    """truth value of a pointer: the same atom as a comparison with null"""
    return lift(_ptr_bool, t)
def _ptr_bool(t):
    r = _as_bool(t)
    if r.op != 'batom' or r.args[0] is not t: return r
    return b_not(_eq(t, NULL))
def as_num(t):
    return lift(_as_num, t)
def _as_num(t):
    if t.op == 'bool': return ONE if t.args[0] else ZERO
    if _isboolatom(t): return mk_ite(t, ONE, ZERO)
    return t

# ---------------------------------------------------------------- traversal
def kids(t):
    if t.op in ('poly', 'psum'):
        for m, c in t.args:
            for a, e in m: yield a
    else:
        for a in t.args:
            if isinstance(a, T): yield a
            elif isinstance(a, tuple):
                for x in a:
                    if isinstance(x, T): yield x
def subterms(t):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        yield x
        st.extend(kids(x))
def contains(t, pred):
    return any(pred(x) for x in subterms(t))
def contains_op(t, ops):
    return any(x.op in ops for x in subterms(t))

def rebuild(t, f):
    """rebuild t with kids mapped by f, renormalising"""
    op = t.op
    if op == 'poly' or op == 'psum':
        r = ZERO
        for m, c in t.args:
            x = num(c)
            for a, e in m:
                fa = f(a)
                if e < 0:
                    fa = inv(fa); e = -e
                for _ in range(e): x = mul(x, fa)
            r = add(r, x)
        return r
    if op == 'ite': return mk_ite(f(t.args[0]), f(t.args[1]), f(t.args[2]))
    if op == 'ltz': 
        d = f(t.args[0])
        if d is t.args[0]: return t
        return lt(d, ZERO, integer=(t.args[1] == 'i'))
    if op == 'eqz':
        d = f(t.args[0])
        return t if d is t.args[0] else eq(d, ZERO)
    if op == 'eq': return eq(f(t.args[0]), f(t.args[1]))
    if op == 'odd': return odd(f(t.args[0]))
    if op == 'mod': return mod(f(t.args[0]), f(t.args[1]))
    if op == 'fn': return fn(t.args[0], *[f(a) for a in t.args[1:]])
    if op == 'batom': return as_bool(f(t.args[0]))
    new = tuple((f(a) if isinstance(a, T) else tuple(f(x) if isinstance(x, T) else x for x in a) if isinstance(a, tuple) else a) for a in t.args)
    if new == t.args: return t
    h = REBUILD.get(op)
    if h: return h(*new)
    return lift_op(op, new)
REBUILD = {'box': lambda t: box(t)}
def contains_int(t): return False
def lift_op(op, args):
    ts = [a for a in args if isinstance(a, T)]
    if op in LIFTED and any(a.op == 'ite' for a in ts):
        idx = [i for i, a in enumerate(args) if isinstance(a, T)]
        def g(*xs):
            l = list(args)
            for i, x in zip(idx, xs): l[i] = x
            return mk(op, *l)
        return lift(g, *ts)
    return mk(op, *args)
LIFTED = {'init', 'sel', 'fld', 'has', 'size', 'pair', 'proj', 'call', 'pcall', 'deref', 'addr'}

def subst(t, mp):
    memo = {}
    def go(x):
        if x in mp: return mp[x]
        r = memo.get(x)
        if r is None:
            if not isinstance(x, T): return x
            r = rebuild(x, go) if any(True for _ in kids(x)) else x
            memo[x] = r
        return r
    return go(t)

def show(t, depth=0):
    if not isinstance(t, T): return repr(t) if not isinstance(t, tuple) else '(' + ','.join(show(x) for x in t) + ')'
    op = t.op
    if depth > 14: return '...'
    d = depth + 1
    if op == 'num':
        v = t.args[0]
        return str(v) if v.denominator == 1 else str(float(v))
    if op == 'bool': return 'true' if t.args[0] else 'false'
    if op == 'null': return 'null'
    if op in ('poly', 'psum'):
        parts = []
        for m, c in t.args:
            s = '*'.join((show(a, d) if e == 1 else '%s^%d' % (show(a, d), e)) for a, e in m)
            if c == 1 and s: parts.append(s)
            elif not s: parts.append(show(num(c)))
            else: parts.append(show(num(c)) + '*' + s)
        return '(' + ' + '.join(parts) + ')'
    if op == 'ite': return '(%s ? %s : %s)' % tuple(show(a, d) for a in t.args)
    if op == 'ltz': return '(%s < 0)' % show(t.args[0], d)
    if op == 'eqz': return '(%s == 0)' % show(t.args[0], d)
    if op == 'eq': return '(%s == %s)' % (show(t.args[0], d), show(t.args[1], d))
    if op == 'init': return show(t.args[0], d) + ("'%d" % t.args[1] if len(t.args) > 1 else '')
    if op == 'fld': return '%s.%s' % (show(t.args[0], d), t.args[1].split('::')[-1])
    if op == 'deref': return '*' + show(t.args[0], d)
    if op == 'addr': return '&' + show(t.args[0], d)
    if op == 'this': return 'this'
    if op == 'sym': return str(t.args[0])
    if op == 'fn': return '%s(%s)' % (t.args[0], ', '.join(show(a, d) for a in t.args[1:]))
    if op == 'str': return repr(t.args[0])
    if op == 'sel': return '%s[%s]' % (show(t.args[0], d), show(t.args[1], d))
    return '%s(%s)' % (op, ', '.join(show(a, d) for a in t.args))

# ---------------------------------------------------------------- exact algebraic equality (clearing denominators)
def alg_equal(a, b):
    """exact: a==b as rational functions over their atoms; sound (True => equal)"""
    if a is b: return True
    try:
        if a.op == 'ite' or b.op == 'ite':
            return lift(lambda x, y: boolc(_alg_eq_leaf(x, y)), a, b) is TRUE
        return _alg_eq_leaf(a, b)
    except Blowup:
        return False
def _alg_eq_leaf(a, b):
    if a is b: return True
    try:
        d = topoly(_add(a, _mul(num(-1), b)))
    except Exception:
        return False
    for _ in range(12):
        den = None
        for m in d:
            for at, e in m:
                if at.op == 'psum' and e < 0:
                    den = at; break
            if den: break
        if den is None: break
        k = max(-e for m in d for at, e in m if at is den and e < 0)
        nd = {}
        for m, c in d.items():
            mm = _monmul(m, ((den, k),))
            nd[mm] = nd.get(mm, 0) + c
        d = {m: c for m, c in _expand_psum(nd).items() if c != 0}
        if len(d) > 3000: raise Blowup('alg')
    return not {m: c for m, c in d.items() if c != 0}
