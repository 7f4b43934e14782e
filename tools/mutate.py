#!/usr/bin/env python3
"""Development aid (no check uses it): applies small textual changes to copies of the library and lists the ones no obligation reports.
usage: mutate.py OUT.jsonl [--files REGEX] [--jobs N] [--every K] [--only PID,PID]"""
import sys, os, re, json, subprocess, shutil, argparse, random, time, multiprocessing, hashlib, signal
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

OPS = [
 (r'(?<![<>=!+\-*/&|])<(?![<=>])(?=\s)', ['<=', '>']), (r'(?<=\s)>(?=\s)', ['>=', '<']), (r'<=(?!>)', ['<']), (r'(?<!-)>=', ['>']), (r'==', ['!=']), (r'!=', ['==']),
 (r'&&', ['||']), (r'\|\|', ['&&']), (r'(?<=\s)\+(?=\s)', ['-']), (r'(?<=\s)-(?=\s)', ['+']), (r'(?<=\s)\*(?=\s)', ['/']), (r'(?<=\s)/(?=\s)', ['*']),
 (r'\+=', ['-=', '=']), (r'-=', ['+=', '=']), (r'\+\+', ['--']), (r'--', ['++']), (r'/=', ['*=']), (r'\*=', ['/=']), (r'\b1\.0\b', ['2.0', '0.0']), (r'\b0\.0\b', ['1.0']), (r'(?<![\w.])1(?![\w.])', ['2', '0']), (r'(?<![\w.])0(?![\w.])', ['1']),
 (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\bmax\b', ['min']), (r'\bmin\b', ['max']), (r'!(?=[\w(])', ['']), (r'\bbreak;', ['']), (r'\bcontinue;', ['']),
]
def mutants(path, text):
    out = []
    lines = text.split('\n')
    incomment = False; pos = 0
    for i, l in enumerate(lines):
        s = l.strip()
        start = incomment
        if '/*' in l: incomment = '*/' not in l[l.index('/*'):]
        elif '*/' in l: incomment = False; continue
        if start or s.startswith(('//', '*', '/*', '#', 'template', 'using', 'namespace', 'class', 'struct', 'typedef')) or not s: continue
        code = l.split('//')[0]
        strs = [(m.start(), m.end()) for m in re.finditer(r'"(\\.|[^"])*"', code)]
        def instr(p): return any(a <= p < b for a, b in strs)
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                if instr(m.start()): continue
                for r in reps: out.append((i, code[:m.start()] + r + code[m.end():], '%s -> %s' % (m.group(), r or "''")))
        if re.match(r'^\s*[\w>\-.\[\]():&*,<>! +/=]+;\s*$', code) and not re.match(r'^\s*(return|const|using|typedef|virtual|auto|shared_ptr|unique_ptr|std::\w+<|\w+ \w+( =.*)?;|\w+(<.*>)?[&*]? \w+( =|;|\())', code) and ';' in code:
            out.append((i, re.sub(r'\S.*', ';', code), 'drop statement'))
        if re.match(r'^\s*(std::)?(lock_guard|unique_lock)', code): out.append((i, re.sub(r'\S.*', ';', code), 'drop lock'))
        m = re.match(r'^(\s*(\} )?(else )?if \()(.*)(\) \{?.*)$', code)
        if m: out += [(i, m.group(1) + 'true' + m.group(5), 'if true'), (i, m.group(1) + 'false' + m.group(5), 'if false')]
        # swap adjacent call arguments
        for m in re.finditer(r'\((\w+), ?(\w+)([,)])', code):
            if m.group(1) != m.group(2) and not instr(m.start()): out.append((i, code[:m.start()] + '(%s, %s%s' % (m.group(2), m.group(1), m.group(3)) + code[m.end():], 'swap arguments'))
        if i + 1 < len(lines) and re.match(r'^\s*[\w>\-.\[\]():&*, +/=]+;\s*$', code) and re.match(r'^\s*[\w>\-.\[\]():&*, +/=]+;\s*$', lines[i + 1]) and not code.strip().startswith(('return', 'using', '}')) and not lines[i+1].strip().startswith(('return', 'using')):
            out.append((i, lines[i + 1] + '\n' + code, 'swap statements', 2))
    res = []
    for o in out:
        n = o[3] if len(o) > 3 else 1
        nl = lines[:i] if False else lines[:o[0]] + [o[1]] + lines[o[0] + n:]
        res.append({'file': path, 'line': o[0] + 1, 'op': o[2], 'old': ' | '.join(x.strip() for x in lines[o[0]:o[0] + n]), 'new': o[1].strip(), 'text': '\n'.join(nl)})
    return res

def fhash(f):
    def strip(x):
        if isinstance(x, dict): return {k: strip(v) for k, v in x.items() if k not in ('l', 'line', 'tu', 'col', 'le')}
        if isinstance(x, list): return [strip(v) for v in x]
        return x
    return hashlib.sha1(json.dumps(strip(f), sort_keys=True, default=str).encode()).hexdigest()

def runobl(args):
    pid, i = args
    signal.alarm(240)
    o = OB[pid][i]; CORE.analysed = set()
    try: r = o.run(CORE)
    except BaseException as e: return pid, i, [], 'err %s: %s' % (type(e).__name__, str(e)[:150]), sorted(CORE.analysed)
    finally: signal.alarm(0)
    return pid, i, [(x['what'], x['ok'], x['fn'], str(x['detail'])[:120]) for x in r], None, sorted(CORE.analysed)

def forked(args):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try: d = json.dumps(runobl(args)).encode()
        except BaseException as e: d = json.dumps([args[0], args[1], [], 'err %r' % e, []]).encode()
        with os.fdopen(w, 'wb') as f: f.write(d)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f: d = f.read()
    os.waitpid(pid, 0)
    return json.loads(d) if d else [args[0], args[1], [], 'err died', []]

def boot(repo, build):
    os.environ['VERIF_REPO'] = repo; os.environ['VERIF_BUILD'] = build
    sys.path.insert(0, V + '/engine'); sys.setrecursionlimit(20000)
    import core as cm, props
    global CORE, OB, props_
    props_ = props
    return cm, props

def child(repo, build, base, q):
    """analyse the tree once; only obligations touching changed functions"""
    try:
        cm, props = boot(repo, build)
        import frontend
        global CORE, OB
        try: CORE = cm.Core()
        except frontend.ExtractError as e: q.put(('noparse', str(e)[-300:])); return
        ch = set(); 
        for u, f in CORE.p.fns.items():
            if base['fh'].get(u) != fhash(f): ch |= {u, f['q']}
        for u in base['fh']:
            if u not in CORE.p.fns: ch |= {u, base['fq'][u]}
        clsch = hashlib.sha1(json.dumps(CORE.p.classes, sort_keys=True).encode()).hexdigest() != base['cls']
        def alarm(*a): raise TimeoutError()
        signal.signal(signal.SIGALRM, alarm)
        errs = []; und = []; n = 0; rows = {}
        OB = {}
        todo = []
        for pid in base['pids']:
            try: OB[pid] = props.PROPS[pid](CORE)
            except Exception as e: errs.append('%s %s' % (pid, e)); continue
            for i, o in enumerate(OB[pid]):
                an = base['an'].get(pid + '|' + o.name)
                if an is None or (clsch and pid in ('C23', 'C33', 'C37')) or (set(an) & ch) or not an: todo.append((o.weight, pid, i))
        todo.sort()
        hits = []
        for w, pid, i in todo:
            n += 1
            _, _, r, e, an = forked((pid, i))
            if e: errs.append('%s %s %s' % (pid, OB[pid][i].name, e)); continue
            for x in r:
                if x[1] is False: hits.append((pid, OB[pid][i].name, x[0], x[2], x[3]))
                elif x[1] is None: und.append((pid, OB[pid][i].name, x[0], x[3]))
            if pid in props.FINAL: rows.setdefault(pid, []).extend(o2 for o2 in [])
            if hits and not base.get('all'): break
        if not hits and any(p == 'C03' for _, p, _ in todo):
            rr = []
            for o in OB['C03']:
                try: rr += o.run(CORE)
                except Exception: pass
            for x in props.FINAL['C03'](rr):
                if x['ok'] is False: hits.append(('C03', 'final', x['what'], x['fn'], str(x['detail'])[:120]))
        q.put(('done', {'changed': sorted(x for x in ch if not x.startswith('c:@')), 'n': n, 'hits': hits, 'und': und[:12], 'errs': errs[:6]}))
    except BaseException as e:
        import traceback
        q.put(('crash', traceback.format_exc()[-600:]))

def baseline(out, only=None):
    cm, props = boot('/repo', V + '/build')
    global CORE, OB
    CORE = cm.Core()
    OB = {p: f(CORE) for p, f in props.PROPS.items() if not only or p in only}
    signal.signal(signal.SIGALRM, lambda *a: None)
    jobs = [(p, i) for p in OB for i in range(len(OB[p]))]
    an = {}; bad = []
    with multiprocessing.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
        for pid, i, r, e, a in pool.imap_unordered(runobl, jobs, chunksize=1):
            an[pid + '|' + OB[pid][i].name] = a
            if e or any(x[1] is not True for x in r): bad.append((pid, OB[pid][i].name, e, [x for x in r if x[1] is not True]))
    for b in bad: print('baseline not quiet', b)
    json.dump({'an': an, 'fh': {u: fhash(f) for u, f in CORE.p.fns.items()}, 'fq': {u: f['q'] for u, f in CORE.p.fns.items()}, 'pids': list(OB),
               'cls': hashlib.sha1(json.dumps(CORE.p.classes, sort_keys=True).encode()).hexdigest()}, open(out, 'w'))

def one(job):
    wid = multiprocessing.current_process()._identity[0]
    m, base = job
    d = '/tmp/mt/w%d' % wid
    if not os.path.exists(d):
        os.makedirs(d); 
        for x in ('src', 'include', 'external'):
            if os.path.exists('/repo/' + x): shutil.copytree('/repo/' + x, d + '/' + x, symlinks=True)
    p = d + '/' + m['file']
    orig = open('/repo/' + m['file']).read()
    t = time.time()
    try:
        open(p, 'w').write(m['text'])
        q = multiprocessing.get_context('fork').SimpleQueue()
        pid = os.fork()
        if pid == 0:
            child(d, '/tmp/mt/b%d' % wid, base, q); os._exit(0)
        os.waitpid(pid, 0)
        r = q.get() if not q.empty() else ('crash', 'no result')
    finally: open(p, 'w').write(orig)
    m = {k: v for k, v in m.items() if k != 'text'}
    m['st'] = r[0]; m['r'] = r[1]; m['dt'] = round(time.time() - t, 1)
    return m

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('out'); ap.add_argument('--files', default='.'); ap.add_argument('--jobs', type=int, default=7); ap.add_argument('--every', type=int, default=1); ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--limit', type=int, default=10**9); ap.add_argument('--base', action='store_true'); ap.add_argument('--rerun')
    a = ap.parse_args()
    if a.base or not os.path.exists('/tmp/mt/base.json'):
        os.makedirs('/tmp/mt', exist_ok=True); baseline('/tmp/mt/base.json')
        if a.base: sys.exit()
    base = json.load(open('/tmp/mt/base.json'))
    ms = []
    fl = subprocess.run(['git', '-C', '/repo', 'ls-files', 'src', 'include'], capture_output=True, text=True).stdout.split()
    for f in fl:
        if not f.endswith(('.cpp', '.cc', '.h')) or 'template' in f.split('/')[1] or not re.search(a.files, f): continue
        ms += mutants(f, open('/repo/' + f).read())
    random.Random(a.seed).shuffle(ms)
    ms = ms[::a.every][:a.limit]
    if a.rerun:
        want = set()
        for l in open(a.rerun):
            m = json.loads(l)
            if m['k'] in ('MISSED', 'undecided', 'crash'): want.add((m['file'], m['old'], m['op'], m['new']))
        ms = [m for m in ms if (m['file'], m['old'], m['op'], m['new']) in want]
    print(len(ms), 'mutants', flush=True)
    st = {}
    with multiprocessing.get_context('fork').Pool(a.jobs) as pool, open(a.out, 'w') as f:
        class NDP: pass
        for m in pool.imap_unordered(one, [(m, base) for m in ms], chunksize=1):
            k = m['st'] if m['st'] != 'done' else ('caught' if m['r']['hits'] else 'nochange' if not m['r']['changed'] else 'undecided' if m['r']['und'] or m['r']['errs'] else 'MISSED')
            m['k'] = k; st[k] = st.get(k, 0) + 1
            f.write(json.dumps(m) + '\n'); f.flush()
            if sum(st.values()) % 50 == 0: print(st, flush=True)
    print(st)
