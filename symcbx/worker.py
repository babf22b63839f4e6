"""Concrete execution worker (real interpreter).  JSON lines on stdin: {prop, harness, params, asg, tables, seed, torch}."""
import json, os, signal, sys, importlib
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get('CBX_REPO', '/repo')
sys.path.insert(0, REPO)
import numpy as np
import scipy.special, scipy.stats
from symcbx import concenv

def clean(x):
    if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))): return repr(x)
    if isinstance(x, (np.floating,)): return clean(float(x))
    if isinstance(x, (np.integer,)): return int(x)
    if isinstance(x, (np.bool_,)): return bool(x)
    if isinstance(x, dict): return {k: clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [clean(v) for v in x]
    return x
def unclean(v):
    if v in ('nan', 'inf', '-inf'): return float(v)
    return v

def do(job):
    m = importlib.import_module('props.' + job['prop'])
    h = getattr(m, job['harness'])
    return concenv.run(h, tup(job['params']), {k: unclean(v) for k, v in job['asg'].items()},
                       {k: [([unclean(c) for c in p], unclean(v)) for p, v in t] for k, t in job['tables'].items()},
                       job.get('seed', 0), job.get('torch', False))
def tup(p):
    return {k: (tuple(tup2(x) for x in v) if isinstance(v, list) else v) for k, v in p.items()}
def tup2(x): return tuple(tup2(y) for y in x) if isinstance(x, list) else x

def forked(job, timeout):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            signal.alarm(int(timeout))
            out = json.dumps(clean(do(job)))
        except BaseException as e:
            out = json.dumps({'crash': '%s: %s' % (type(e).__name__, e)})
        with os.fdopen(w, 'w') as f: f.write(out)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f: s = f.read()
    os.waitpid(pid, 0)
    return s if s else json.dumps({'crash': 'no answer (time limit %ds)' % timeout})

if __name__ == '__main__':
    if len(sys.argv) > 1:
        # replay of a recorded counterexample
        job = json.load(open(sys.argv[1]))
        if job.get('torch'): import torch
        res = json.loads(forked(job, 120))
        print(json.dumps({k: res.get(k) for k in ('crash', 'skipped', 'error', 'failed')}, indent=1))
        bad = bool(res.get('failed') or res.get('error') or res.get('crash'))
        print('property violated on the real code' if bad else 'not violated')
        sys.exit(1 if bad else 0)
    real_out = os.fdopen(os.dup(1), 'w'); os.dup2(2, 1)
    loaded = False
    for line in sys.stdin:
        job = json.loads(line)
        if job.get('torch') and not loaded:
            import torch; torch.set_num_threads(1); loaded = True
        real_out.write(forked(job, job.get('timeout', 60)) + '\n'); real_out.flush()
