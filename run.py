#!/usr/bin/env python3
"""Entry point of every check: run.py --property Cxx --tier quick|thorough"""
import argparse, json, os, sys, time, traceback, multiprocessing
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
sys.setrecursionlimit(20000)

def work(i):
    t = time.time()
    o = OBLS[i]
    try:
        r = o.run(CORE)
        return i, r, None, time.time() - t, len(CORE.analysed), sorted(CORE.analysed), dict(CORE.cmp.stats)
    except Exception as e:
        import core as cm
        kind = 'anchor' if isinstance(e, cm.AnalysisError) else 'internal'
        return i, None, (kind, '%s: %s' % (type(e).__name__, e), traceback.format_exc()[-1500:]), time.time() - t, 0, [], {}

def known_findings():
    import re
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'open:\s+property=(\S+) site=(\S+) fact=(.*?) :: (.*)', l)
            if m: out.append({'property': m.group(1), 'site': m.group(2), 'what': m.group(3), 'text': m.group(4).strip()})
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    pid = a.property
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    global CORE, OBLS
    import core as cm, frontend, props, rinterp
    try: CORE = cm.Core()
    except frontend.ExtractError as e:
        print('ERROR: the program cannot be analysed: %s' % e); return 2
    rinterp.SEED = seed
    if a.tier == 'thorough':
        CORE.cmp.need = 400; CORE.cmp.tries = 6000; CORE.cmp.most = 4000
    t1 = time.time()
    try: OBLS = props.PROPS[pid](CORE)
    except cm.AnalysisError as e:
        print('ERROR: %s' % e); return 2
    order = sorted(range(len(OBLS)), key=lambda i: -OBLS[i].weight)
    outs = [None] * len(OBLS)
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(8, max(1, len(OBLS))), maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(work, order, chunksize=1): outs[r[0]] = r
    viol = []; und = []; good = 0; errs = []; analysed = set(); stats = {}; rows = []
    for i, r, err, dt, n, an, st in outs:
        o = OBLS[i]
        analysed |= set(an)
        for k, v in st.items(): stats[k] = stats.get(k, 0) + v
        if err is not None:
            errs.append((o.name, err, o.opt)); continue
        for x in r:
            rows.append((o.name, x))
            if x['ok'] is True: good += 1
            elif x['ok'] is False: viol.append((o.name, x))
            else: und.append((o.name, x))
    if pid in getattr(props, 'FINAL', {}):
        for x in props.FINAL[pid]([x for n, x in rows]):
            rows.append(('all entry points', x))
            if x['ok'] is True: good += 1
            elif x['ok'] is False: viol.append(('all entry points', x))
            else: und.append(('all entry points', x))
    known = known_findings()
    real = []
    for n, x in viol:
        hit = [k for k in known if k['property'] == pid and k['site'] == x['fn'] and k['what'] == x['what']]
        if hit: print('KNOWN-FINDING: property=%s %s' % (pid, hit[0]['text']))
        else: real.append((n, x))
    for n, e, opt in errs:
        print('note: obligation "%s" not decided (%s: %s)' % (n, e[0], e[1][:300]))
        if a.v: print(e[2])
    print('%s: %d obligations, %d facts compared, %d hold, %d undecided, %d violated; %d functions analysed; %.1fs (+%.1fs front end)' % (
        pid, len(OBLS), len(rows), good, len(und), len(real), len(analysed), time.time() - t1, t1 - t0))
    if a.v:
        for i, r, err, dt, n, an, st in sorted(outs, key=lambda z: -z[3])[:8]: print('   %5.1fs %s' % (dt, OBLS[i].name))
        for n, x in rows: print('  ', {True: 'ok  ', False: 'BAD ', None: '??  '}[x['ok']], n, '|', x['what'], '|', str(x['detail'])[:200])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    meta = props.META.get(pid, {}) if hasattr(props, 'META') else {}
    ev = {'property': pid, 'tier': a.tier, 'seed': seed, 'level': 'other',
          'coverage': {
              'explanation': '%s Analysed %d functions of %d in the resolved program (%d translation units); %d obligations gave %d facts: %d hold, %d undecided (treated as no alarm), %d violated.' % (
                  meta.get('rule', 'Rule: every listed method must have the same effect as its reference transition on the selected state.'), len(analysed), len(CORE.p.fns), len(CORE.ir['units']), len(OBLS), len(rows), good, len(und), len(real)),
              'obligations': len(rows), 'discharged': good, 'undecided': len(und), 'functions_analysed': len(analysed),
              'decided_by': stats,
              'items': ['%s: %s -> %s (%s:%s)' % (n, x['what'], {True: 'holds', False: 'VIOLATED', None: 'undecided: ' + str(x['detail'])[:80]}[x['ok']], x['file'], x['line']) for n, x in rows][:400]},
          'assumptions': meta.get('assumptions', []),
          'violations': len(real), 'wall_s': round(time.time() - t0, 2)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    if real:
        rp = os.path.join(VERIF, 'evidence', pid + '.replay.txt')
        with open(rp, 'w') as f:
            for n, x in real: f.write('%s:%s: %s\n  obligation: %s\n  fact: %s\n  %s\n' % (x['file'], x['line'], x['fn'], n, x['what'], x['detail']))
            f.write('re-run: python3 /verif/run.py --property %s -v\n' % pid)
        for n, x in real[:20]: print('%s:%s: in %s: %s [%s] %s' % (x['file'], x['line'], x['fn'], n, x['what'], str(x['detail'])[:300]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if good == 0:
        print('ERROR: nothing could be decided'); return 2
    return 0

if __name__ == '__main__': sys.exit(main())
