"""writes MANIFEST.json from properties.jsonl and props/"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    if i in NA: na.append(dict(property=i, reason=NA[i])); continue
    f = os.path.join(H, 'props', i.lower() + '.py')
    if not os.path.exists(f): na.append(dict(property=i, reason='check not built yet')); continue
    src = open(f).read(); 
    b = src.split('BOUNDS = ')[1]; b = eval(b.split('\n')[0]) if b[0] in '\'"' else eval(b[:b.index(')\n') + 1])
    cmd = 'cd /verif && python3-vt -m symcbx.run %s --tier %s'
    checks.append(dict(property=i, quick_cmd=cmd % (i, 'quick'), thorough_cmd=cmd % (i, 'thorough'),
        technique='symbolic execution of the /repo source (symbolic numpy arrays, path exploration) with every assertion decided by z3 over rational normal forms, nonlinear real arithmetic or IEEE floats; counterexamples replayed on the real code',
        level='model_checking', level_note='bounded: ' + b))
json.dump(dict(version=1, setup_cmd='cd /verif && python3-vt -c "import z3, numpy, scipy; import symcbx.engine"', checks=checks, not_applicable=na,
    notes='All checks share /verif/symcbx (see DESIGN.md). Known findings: known_findings.json.'), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
