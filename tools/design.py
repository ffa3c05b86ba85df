"""Appends the per-property table to DESIGN.md between markers."""
import importlib, os, sys, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
out = []
for p in props:
    m = importlib.import_module('mc.checks.' + p['id'].lower())
    n = {t: len(list(m.scenarios(t))) for t in ('quick', 'thorough')}
    ev = os.path.join(ROOT, 'evidence', p['id'] + '.json')
    cost = ''
    if os.path.exists(ev):
        e = json.load(open(ev))
        cost = ' About %d s on 8 cores (quick), %d claims, %d queries.' % (round(e['wall_s']), e['coverage']['claims'], e['coverage']['queries'])
    out.append('### %s %s\n\n%s\n\nBounds: %s.\n%d scenarios quick, %d thorough.%s%s\n' % (
        p['id'], p['title'], ' '.join(m.__doc__.split()), m.BOUNDS, n['quick'], n['thorough'], cost,
        ''.join('\nAssumes: %s.' % a for a in getattr(m, 'ASSUMPTIONS', ()))))
f = os.path.join(ROOT, 'DESIGN.md')
s = open(f).read()
a, b = '## Properties\n', '## Findings\n'
i = s.index(a) + len(a)
j = s.index(b) if b in s else len(s)
s = s[:i] + '\n' + '\n'.join(out) + '\n' + s[j:]
open(f, 'w').write(s)
