"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/meta.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = 'src/wai/ma/'
MX, HP, FA, UT = W + 'core/matrix/_Matrix.py', W + 'core/matrix/helper.py', W + 'core/matrix/factory.py', W + 'core/utils.py'
SE = W + 'core/_Serialisable.py'
TR, AL = W + 'transformation/', W + 'algorithm/'
TECH = 'bounded symbolic execution of the real Python source with an SMT solver (z3), counterexamples replayed on the real code'
NOTE = ('For every value within the stated bounds the solver finds no input violating the assertions; bounds are in the evidence '
        '(coverage.bounds). Trusted: exact real arithmetic for floats, the numpy models (compared with numpy on every replayed path), z3.')
P = []


def prop(id, title, statement, over, text, why, files, mech, note='', observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=observe))


exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())

P.sort(key=lambda p: p['id'])
NA = globals().get('NOT_APPLICABLE', [])
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}
        if p['observe']:
            a['observe_at'] = p['observe']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
na = {x[0] for x in NA}
man = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh',
       'checks': [{'property': p['id'], 'quick_cmd': 'bash /verif/run.sh %s quick' % p['id'],
                   'thorough_cmd': 'bash /verif/run.sh %s thorough' % p['id'], 'technique': TECH, 'level': 'model_checking',
                   'level_note': NOTE + (' ' + p['note'] if p['note'] else ''), 'evidence_file': 'evidence/%s.json' % p['id']}
                  for p in P if p['id'] not in na],
       'not_applicable': [{'property': a, 'reason': b} for a, b in NA],
       'notes': 'No hooks: the checks load /repo/src through their own import machinery. See DESIGN.md.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(P), 'properties')
