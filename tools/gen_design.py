"""writes DESIGN.md from design.in.md, design_props.py, the harness modules' bounds, findings and seeded bugs"""
import json, os, sys, importlib, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = sys.argv[1]
sys.path.insert(0, root); sys.path.insert(0, os.path.join(root, 'tools'))
from design_props import T
try: from design_catch import CATCH
except ImportError: CATCH = {}
try: from design_refact import REFACT
except ImportError: REFACT = ''
titles = {}
for l in open(os.path.join(out, 'properties.jsonl')):
    p = json.loads(l); titles[p['id']] = p['title']
s = open(os.path.join(root, 'tools', 'design.in.md')).read()
ps = []
for k in sorted(titles):
    m = importlib.import_module('props.' + k.lower())
    q, t = len(m.instances('quick')), len(m.instances('thorough'))
    a = getattr(m, 'ASSUMPTIONS', [])
    ps.append('### %s %s\n%s\n\n*Bounds*: %s. *Scenarios*: %d quick, %d thorough.%s\n' % (k, titles[k], T[k], m.BOUNDS.rstrip('.'), q, t,
              ' *Assumptions*: ' + '; '.join(a) + '.' if a else ''))
fx = [f for f in json.load(open(os.path.join(out, 'known_findings.json')))['findings'] if f['status'] == 'fixed']
by = {}
for f in fx: by.setdefault(f['commit'], [[], f['text'].split(f['commit'], 1)[1].strip()])[0].append(f['property'])
fl = '\n'.join('* `%s` (%s) %s' % (c, ', '.join(v[0]), v[1]) for c, v in by.items())
se = ['| id | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(out, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    se.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), CATCH.get(i, m['property'])))
for k, v in (('PROPS', '\n'.join(ps)), ('FIXED', fl), ('SEEDED', '\n'.join(se)), ('REFACT', REFACT)): s = s.replace('@@%s@@' % k, v)
open(os.path.join(out, 'DESIGN.md'), 'w').write(s)
