#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, state=state, observe=observe, technique=technique, note=note, na=na))
VF = 'static value-flow analysis: gated value-numbering dataflow over the clang AST of /repo, compared with a reference transition by random-interpretation identity testing (no execution, no path enumeration, no solver)'
VFN = 'Sound up to the stated modelling of library containers and the negligible error of randomised identity testing; unsupported constructs leave a fact undecided and quiet.'
exec(open(os.path.join(V, 'tools', 'proptable.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']], 'hook_needed': None}
        if p['state']: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        if p['observe']: a['observe_at'] = list(p['observe'])
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
        assert len(p['title']) <= 80, p['title']
m = {'version': 1, 'setup_cmd': 'python3 engine/frontend.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 run.py --property %s --tier quick' % p['id'], 'thorough_cmd': 'python3 run.py --property %s --tier thorough' % p['id'],
                 'technique': p['technique'] or VF, 'level': 'other', 'level_note': p['note'] or VFN} for p in P if not p['na']],
     'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']]}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
