"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/registry.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = 'The unit tests sample a handful of literal inputs; the guarantee ranges over '

P = []
def prop(id, title, statement, over, text, why, files, mech, claimed=True, note='', na='', observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  claimed=claimed, note=note, na=na, observe=observe or []))

exec(open(os.path.join(V, 'tools', 'props.py')).read())

import re
def three(t):
    # at most three sentences: the rest is joined by semicolons
    parts = re.split(r'(?<=[a-z0-9)])\. (?=[A-Za-z])', t)
    return t if len(parts) <= 3 else '. '.join(parts[:2]) + '. ' + '; '.join(parts[2:])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': three(p['statement']),
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'state': [], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
TECH = ('contract-based deductive verification of the real code: postconditions discharged function by function by a '
        'VC generator over the LLVM IR clang produces from /repo on every run (z3 back end), unbounded')
m = {'version': 1, 'setup_cmd': 'python3-vt -m gv.setup',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3-vt -m gv.run %s quick' % p['id'],
                 'thorough_cmd': 'python3-vt -m gv.run %s thorough' % p['id'],
                 'technique': TECH, 'level': 'proof', 'level_note': p['note']} for p in P if p['claimed']],
     'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if not p['claimed']]}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
