"""Resolved program: functions, classes, hierarchy, virtual dispatch."""
import re
class Prog:
    def __init__(self, ir):
        self.ir = ir
        self.fns = ir['fns']
        self.classes = ir['classes']
        self.globals = ir['globals']
        self.by_q = {}
        for f in self.fns.values(): self.by_q.setdefault(f['q'], []).append(f)
        self.methods = {}          # usr -> (class, method record)
        for c in self.classes.values():
            for m in c['methods']: self.methods[m['u']] = (c['n'], m)
        self._over = {}
        self.subs = {}
        for c in self.classes.values():
            for b in c['bases']: self.subs.setdefault(b, set()).add(c['n'])
        self._gw = None
    def bases(self, c):
        """c and all transitive repo bases, nearest first"""
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x in out: continue
            out.append(x)
            if x in self.classes: todo.extend(self.classes[x]['bases'])
        return out
    def is_sub(self, c, b): return b in self.bases(c)
    def all_subs(self, b): return [c for c in self.classes if self.is_sub(c, b)]
    def _overrides(self, u):
        """all methods (transitively) overridden by u, including u"""
        r = self._over.get(u)
        if r is None:
            r = {u}
            m = self.methods.get(u)
            if m:
                for o in m[1]['ov']: r |= self._overrides(o)
            self._over[u] = r
        return r
    def resolve(self, usr, dyn):
        """final overrider of method usr for dynamic class dyn -> usr or None"""
        for c in self.bases(dyn):
            if c not in self.classes: continue
            for m in self.classes[c]['methods']:
                if usr in self._overrides(m['u']):
                    return m['u'] if not m.get('pure') else None
        return None
    def method(self, cls, name):
        """function record of the method `name` as seen from class cls (final overrider by name)"""
        for c in self.bases(cls):
            if c not in self.classes: continue
            for m in self.classes[c]['methods']:
                if m['n'] == name and m['u'] in self.fns: return self.fns[m['u']]
        return None
    def field_class(self, cls, name):
        for c in self.bases(cls):
            if c in self.classes and any(f['n'] == name for f in self.classes[c]['fields']): return c
        return None
    def ctors(self, cls):
        return [f for f in self.fns.values() if f.get('ctor') and f.get('c') == cls]
    def global_written(self, usr):
        if self._gw is None:
            self._gw = set()
            def go(x, lhs=False):
                if isinstance(x, dict):
                    k = x.get('k')
                    if k in ('assign', 'cassign'):
                        t = x['a']
                        while isinstance(t, dict) and t.get('k') in ('cast',): t = t['e']
                        if t.get('k') == 'var' and 'g' in t: self._gw.add(t['g'])
                    if k == 'un' and x['op'] in ('++', '--') and x['e'].get('k') == 'var' and 'g' in x['e']: self._gw.add(x['e']['g'])
                    for v in x.values():
                        if isinstance(v, (dict, list)): go(v)
                elif isinstance(x, list):
                    for v in x: go(v)
            for f in self.fns.values(): go(f.get('body'))
        return usr in self._gw

def strip_type(t):
    t = t.strip()
    while True:
        o = t
        if t.startswith('const '): t = t[6:]
        if t.startswith('volatile '): t = t[9:]
        t = t.rstrip()
        for s in ('&&', '&', ' const'):
            if t.endswith(s): t = t[:-len(s)].rstrip()
        if t == o: return t
def pointee(t):
    """class named by a raw / smart pointer type, or None"""
    t = strip_type(t)
    if t.endswith('*'): return strip_type(t[:-1])
    m = re.match(r'std::(shared_ptr|unique_ptr|weak_ptr|__shared_ptr|__weak_ptr)<(.*)>$', t)
    if m: return strip_type(targs(t)[0])
    return None
def tbase(t):
    t = strip_type(t)
    i = t.find('<')
    return t if i < 0 else t[:i]
def targs(t):
    t = strip_type(t)
    i = t.find('<')
    if i < 0: return []
    d = 0; out = []; cur = ''
    for ch in t[i+1:-1]:
        if ch == '<' or ch == '(': d += 1
        elif ch == '>' or ch == ')': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
