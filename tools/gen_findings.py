"""writes known_findings.json (committed; the checks only read it)"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ('762ba20', ['C03', 'C10'], 'drift correction (heaviside) crashed or used wrong energies with mini-batches, finished runs and multi-dimensional domains, and its evaluations of the consensus were not counted'),
 ('831df0f', ['C07', 'C09', 'C10', 'C01'], 'memory dynamics (CBOMemory, PSO) mixed batches/finished runs up (wrong memory rows updated) and PSO did not count evaluations'),
 ('48232ef', ['C26'], 'PSO accelerated away from consensus and historical best, and the inertia term was wrong'),
 ('8c19963', ['C06'], 'best current particle of the memory dynamics was taken from x although its energy belongs to y'),
 ('5bcf4fd', ['C04', 'C05', 'C09'], 'covariance noise used the wrong runs/particles with several runs, mini-batches and finished runs'),
 ('3fb55b1', ['C09', 'C03'], 'HyperSurface, Mirror, RegCombination and DriftConstrained dynamics moved unscheduled particles and finished runs'),
 ('d0a883f', ['C09', 'C27'], 'regularised objective used the weights of the wrong runs (or crashed) once a run had finished'),
 ('261e7b2', ['C06'], 'best particle was read after the position update, so it was not the point with the reported energy'),
 ('06ab60d', ['C09', 'C15'], 'independent noise of DriftConstrainedCBO perturbed finished runs and used the global generator instead of the sampler'),
 ('db2920f', ['C22', 'C03'], 'polarised consensus had the wrong shape/particles with mini-batches and partial=False'),
 ('0c7c753', ['C07'], 'historical best computed by multiplication with a mask turned NaN when a step produced NaN/inf'),
 ('5b8d50e', ['C13', 'C14'], 'history recorded the initial ensemble by reference, lost its configuration on reset and mutated the extra_tracks of the caller'),
 ('ee2cbbd', ['C08'], 'update difference summed only over the last axis of a multi-dimensional domain'),
 ('416d70a', ['C08'], 'evaluation budget criterion needed batch_size, which dynamics without mini-batches lack'),
 ('dd04fe6', ['C08'], 'energy stagnation criterion mis-indexed finished runs, crashed with several runs and kept its buffer when reused'),
 ('1144dc0', ['C08'], 'CBS.optimize did not return the best particle'),
]
FIXED += eval(open(os.path.join(H, 'tools', 'findings_more.py')).read())['fixed'] if os.path.exists(os.path.join(H, 'tools', 'findings_more.py')) else []
KNOWN = eval(open(os.path.join(H, 'tools', 'findings_more.py')).read())['known'] if os.path.exists(os.path.join(H, 'tools', 'findings_more.py')) else []
out = []
for c, ps, w in FIXED:
    for p in ps: out.append(dict(property=p, id='%s-%s' % (p, c), status='fixed', commit=c, text='fixed: property=%s %s %s' % (p, c, w)))
out += [dict(k, status='known') for k in KNOWN]
json.dump(dict(findings=out), open(os.path.join(H, 'known_findings.json'), 'w'), indent=1)
print(len(out), 'findings')
