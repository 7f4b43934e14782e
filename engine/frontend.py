"""Runs the clang-based extractor on every translation unit of /repo (as it is now) and merges the result."""
import os, re, subprocess, hashlib, json, sys, glob, tempfile, shutil, pickle
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
LLVM = '/usr/lib/llvm-18'

class ExtractError(Exception): pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()

def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    key = sha(open(src, 'rb').read())[:16]
    exe = os.path.join(BUILD, 'extract-' + key)
    if os.path.exists(exe): return exe
    tmp = exe + '.tmp%d' % os.getpid()
    cmd = ['g++', '-O1', '-std=c++17', '-fno-rtti', '-w', '-I' + LLVM + '/include', src,
           LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM-18.so', '-o', tmp, '-Wl,-rpath,' + LLVM + '/lib']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0: raise ExtractError('extractor build failed:\n' + r.stderr[-3000:])
    os.rename(tmp, exe)
    return exe

def sources():
    s = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'src')):
        for f in files:
            if f.endswith('.cpp'): s.append(os.path.join(root, f))
    s.sort()
    return s

def tree_files():
    out = []
    for d in ('src', 'include'):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            for f in files: out.append(os.path.join(root, f))
    out.sort()
    return out

def specs():
    return sorted(glob.glob(os.path.join(VERIF, 'spec', '*.cpp')))

def extract():
    """-> merged dict {types per fn resolved, fns:{usr:fn}, classes:{name:cls}, globals:{usr:g}, units:[...]}"""
    exe = build_tool()
    inst = os.path.join(VERIF, 'tool', 'inst.cpp')
    sp = specs()
    srcs = sources() + [inst] + sp
    ren = {}
    if len(srcs) < 5: raise ExtractError('no sources found under %s/src' % REPO)
    h = hashlib.sha256()
    h.update(open(exe, 'rb').read()); h.update(open(inst, 'rb').read()); h.update(open(os.path.join(HERE, 'frontend.py'), 'rb').read())
    if os.path.exists(SCHEMA): h.update(open(SCHEMA, 'rb').read())
    for f in sp + sorted(glob.glob(os.path.join(VERIF, 'spec', '*.h'))): h.update(f.encode()); h.update(open(f, 'rb').read())
    for f in tree_files():
        h.update(f.encode()); h.update(b'\0'); h.update(open(f, 'rb').read()); h.update(b'\0')
    key = h.hexdigest()[:24]
    cache = os.path.join(BUILD, 'ir-' + key + '.pickle')
    if os.path.exists(cache):
        try: return pickle.load(open(cache, 'rb'))
        except Exception: pass
    hdr = hashlib.sha256()
    for f in tree_files():
        if not f.endswith('.cpp'): hdr.update(f.encode()); hdr.update(b'\0'); hdr.update(open(f, 'rb').read()); hdr.update(b'\0')
    for f in sorted(glob.glob(os.path.join(VERIF, 'spec', '*.h'))): hdr.update(open(f, 'rb').read())
    hdr.update(open(exe, 'rb').read()); hdr.update(open(os.path.join(HERE, 'frontend.py'), 'rb').read())
    hk = hdr.digest()
    tuc = os.path.join(BUILD, 'tu')
    os.makedirs(tuc, exist_ok=True)
    tmpd = tempfile.mkdtemp(prefix='extract-', dir=BUILD)
    try:
        def one(i):
            src = srcs[i]
            cf = os.path.join(tuc, sha(hk, src, open(src, 'rb').read())[:24])      # a unit whose text and headers are unchanged need not be parsed again
            if os.path.exists(cf):
                try: return (src, json.load(open(cf)), None)
                except Exception: pass
            r = parse(i)
            if r[1] is not None:
                t = cf + '.tmp%d' % os.getpid()
                json.dump(r[1], open(t, 'w')); os.rename(t, cf)
            return r
        def parse(i):
            src = srcs[i]
            out = os.path.join(tmpd, '%d.json' % i)
            cmd = [exe, REPO, os.path.dirname(src) + '/' if src in sp or src == inst else os.path.join(VERIF, 'tool') + '/', out, src, '-resource-dir=' + LLVM + '/lib/clang/18',
                   '-std=c++20', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + REPO + '/external', '-I' + REPO, '-w', '-pthread'] + (['-fno-access-control'] if src in sp else [])
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=tmpd)
            if r.returncode != 0 or not os.path.exists(out):
                return (src, None, r.stderr[-1500:])
            return (src, json.load(open(out)), None)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, range(len(srcs))))
            ren = renames(res)
            failed = [i for i, r in enumerate(res) if r[1] is None and (r[0] in sp or r[0] == inst)]
            if failed: res = [r if i not in failed else adapt(exe, r, ren, tmpd, i) for i, r in enumerate(res)]
    finally:
        shutil.rmtree(tmpd, ignore_errors=True)
    fns, classes, globs, units, bad, badspec = {}, {}, {}, [], [], {}
    for src, d, err in res:
        if d is None:
            if src in sp or src == inst: badspec[os.path.basename(src)] = err
            else: bad.append((src, err))
            continue
        units.append(os.path.relpath(src, REPO) if src.startswith(REPO) else src)
        types = d['types']
        _resolve(d, types)
        if ren: _rename(d, ren)
        for f in d['fns']:
            f['tu'] = src
            fns.setdefault(f['u'], f)
        for c in d['classes']: classes.setdefault(c['n'], c)
        for g in d['globals']:
            if g['u'] not in globs or ('i' in g and 'i' not in globs[g['u']]): globs[g['u']] = g
    if bad:
        raise ExtractError('%d translation units do not parse: %s\n%s' % (len(bad), [b[0] for b in bad], bad[0][1]))
    ir = {'fns': fns, 'classes': classes, 'globals': globs, 'units': units, 'badspec': badspec}
    for old in glob.glob(os.path.join(BUILD, 'ir-*.pickle')):
        try:
            if len(glob.glob(os.path.join(BUILD, 'ir-*.pickle'))) > 6: os.remove(old)
        except OSError: pass
    old = sorted(glob.glob(os.path.join(BUILD, 'tu', '*')), key=os.path.getmtime)
    for f in old[:-600]:
        try: os.remove(f)
        except OSError: pass
    tmp = cache + '.tmp%d' % os.getpid()
    pickle.dump(ir, open(tmp, 'wb'), protocol=4)
    os.rename(tmp, cache)
    return ir

SCHEMA = os.path.join(VERIF, 'spec', 'schema.json')
def renames(res):
    """members of library classes that the reference transitions name and that now have another name: (class, new) -> old.
    A member is taken as renamed when, among the members of one class with one type, as many are new as are missing; they are paired in order of declaration."""
    try: schema = json.load(open(SCHEMA))
    except OSError: return {}
    out = {}; seen = set()
    for src, d, err in res:
        if d is None: continue
        for c in d['classes']:
            if c['n'] in seen or c['n'] not in schema: continue
            seen.add(c['n'])
            now = [(f['n'], d['types'][f['t']] if isinstance(f['t'], int) else f['t']) for f in c['fields']]
            old = [tuple(x) for x in schema[c['n']]]
            gone = [x for x in old if x[0] not in {n for n, t in now}]
            new = [x for x in now if x[0] not in {n for n, t in old}]
            for t in {t for n, t in gone}:
                a = [n for n, u in gone if u == t]; b = [n for n, u in new if u == t]
                if len(a) == len(b):
                    for x, y in zip(a, b): out[(c['n'], y)] = x
            a = [n for n, t in gone if n not in {o for (k, m), o in out.items() if k == c['n']}]; b = [n for n, t in new if (c['n'], n) not in out]
            if len(a) == len(b) == 1: out[(c['n'], b[0])] = a[0]
    return out
def _rename(o, ren):
    st = [o]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'fields' in x and 'methods' in x:
                for f in x['fields']:
                    if (x['n'], f['n']) in ren: f['n'] = ren[(x['n'], f['n'])]
            elif x.get('k') in ('mem', 'field') and (x.get('c'), x.get('n')) in ren: x['n'] = ren[(x['c'], x['n'])]
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list): st.extend(v for v in x if isinstance(v, (dict, list)))
def adapt(exe, r, ren, tmpd, i):
    """a reference unit that does not compile against the present headers: follow renamed members, and leave out only the reference functions that still do not compile"""
    src = r[0]; d = os.path.join(tmpd, 'spec%d' % i); shutil.copytree(os.path.dirname(src), d)
    main = os.path.join(d, os.path.basename(src)); out = os.path.join(tmpd, 'a%d.json' % i)
    back = {}
    for (c, new), old in ren.items(): back.setdefault(old, set()).add((c, new))
    err = r[2]
    for rnd in range(40):
        if os.path.exists(out): os.remove(out)
        p = subprocess.run([exe, REPO, d + '/', out, main, '-resource-dir=' + LLVM + '/lib/clang/18', '-std=c++20', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + REPO + '/external', '-I' + REPO,
                            '-w', '-pthread', '-fno-access-control', '-ferror-limit=0'], capture_output=True, text=True, cwd=tmpd)
        if p.returncode == 0 and os.path.exists(out): return (src, json.load(open(out)), None)
        err = p.stderr[-1500:]
        edits = {}; drop = {}; pend = False
        for l in p.stderr.split('\n'):
            m = re.match(r'(\S+?):(\d+):(\d+): (?:fatal )?(error|note): (.*)', l)
            if not m: continue
            if m.group(4) == 'error': pend = True
            if not pend or not m.group(1).startswith(d): continue
            pend = False
            f, ln, col = m.group(1), int(m.group(2)), int(m.group(3))
            n = re.match(r"no member named '(\w+)' in '(?:const )?([^']*)'", m.group(5))
            cand = {new for c, new in back.get(n.group(1), ())} if n else set()
            if n and len(cand) > 1: cand = {new for c, new in back[n.group(1)] if c == n.group(2)} or cand
            if len(cand) == 1: edits.setdefault((f, ln), []).append((col, n.group(1), cand.pop()))
            else: drop.setdefault(f, set()).add(ln)
        if not edits and not drop: break
        for f in {k[0] for k in edits} | set(drop):
            L = open(f).read().split('\n')
            for (g, ln), es in edits.items():
                if g != f: continue
                for col, a, b in sorted(set(es), reverse=True):
                    t = L[ln - 1]
                    if t[col - 1:col - 1 + len(a)] == a: L[ln - 1] = t[:col - 1] + b + t[col - 1 + len(a):]
            if not edits:
                for ln in drop.get(f, ()):
                    a = ln - 1
                    while a > 0 and not re.match(r'    \S', L[a]) : a -= 1
                    if L[a].startswith('    }'):
                        a -= 1
                        while a > 0 and not re.match(r'    \S', L[a]): a -= 1
                    while a > 0 and L[a - 1].startswith('    template'): a -= 1
                    b = a
                    while b < len(L) and L[b].startswith('    template'): b += 1
                    if not re.search(r'[};]\s*(//.*)?$', L[b]):
                        while b < len(L) and not re.match(r'    }', L[b]): b += 1
                    for k in range(a, min(b + 1, len(L))):
                        if not L[k].startswith(('namespace', '}')): L[k] = ''
            open(f, 'w').write('\n'.join(L))
    return (src, None, err)
_TK = ('t', 'rt', 'ft', 'lt', 'ct', 'ot', 'ty')
def _resolve(o, types):
    st = [o]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            for k, v in x.items():
                if k in _TK and isinstance(v, int):
                    x[k] = types[v] if v >= 0 else ''
                elif k == 'pt' and isinstance(v, list):
                    x[k] = [types[i] if isinstance(i, int) and i >= 0 else '' for i in v]
                elif isinstance(v, (dict, list)) and k != 'types': st.append(v)
        elif isinstance(x, list):
            for v in x:
                if isinstance(v, (dict, list)): st.append(v)

if __name__ == '__main__':
    import time
    t = time.time()
    ir = extract()
    if '--schema' in sys.argv:
        json.dump({c['n']: [[f['n'], f['t']] for f in c['fields']] for c in sorted(ir['classes'].values(), key=lambda c: c['n']) if c['n'].startswith('thts::') and '<' not in c['n']}, open(SCHEMA, 'w'), indent=0)
    print(len(ir['units']), 'units', len(ir['fns']), 'functions', len(ir['classes']), 'classes', len(ir['globals']), 'globals', '%.1fs' % (time.time()-t))
