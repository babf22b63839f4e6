"""C10 the evaluation counter counts every objective evaluation of its run."""
import numpy
from props import common as C
BOUNDS = ('construction plus two steps (all runs active, then a proper subset); M in {1,2,3}, N in {1,2,3}; every dynamic class, correction, batch mode; '
          'evaluation budgets 0..8 with up to 9 steps')

def count(E, cls, M, N, d, active=None, batch=None, noise='anisotropic', correction='no_correction', check_dims=False, stagnation=False):
    raw = E.objective('f', ddims=len(d)); calls = []
    def f(x):
        calls.append(tuple(E.shape(x))); return raw(x)
    kw = {}
    if check_dims: kw['sampler'] = E.sampler('z')
    n0 = 0
    dyn = C.build(E, cls, M, N, d, batch=batch, noise=noise, correction=correction, f=f, names=(), **kw)
    if check_dims:
        dyn.check_f_dims(True)
    if stagnation:
        T = E.mod('cbx.utils.termination')
        dyn.term_criteria = dyn.term_criteria + [T.energy_stagnation_term(patience=5)]
    def points():
        k = sum(int(numpy.prod(s[:len(s) - len(d)])) for s in calls); calls.clear(); return k
    total = points()
    before = [0] * M
    def account(label, act, new):
        """every evaluated point belongs to one of the active runs, each has the same number"""
        E.check(label + ': points are spread evenly over the active runs', new % max(1, len(act)) == 0)
        for m in range(M):
            E.eq(label + ': counter of run %d' % m, dyn.num_f_eval[m], before[m] + (new // max(1, len(act)) if m in act else 0))
            before[m] = int(dyn.num_f_eval[m])
    account('construction', list(range(M)), total)
    act = list(range(M))
    dyn.terminate(); account('first check', act, points())
    C.step(E, dyn); account('first step', act, points())
    nact = act if active is None else list(active)
    dyn._switch.stop = [m not in nact for m in range(M)]
    dyn.terminate(); account('second check', act, points())
    C.step(E, dyn); account('second step', nact, points())
    dyn.terminate(); account('third check', nact, points())

def budget(E, cls, N, batch, M=1, bmax=8):
    B = E.choice('budget', bmax + 1)
    raw = E.objective('f')
    bs = dict(size=batch, partial=True, seed=E.rowseed('b', list(range(M)))) if batch else None
    dyn = getattr(E.mod('cbx.dynamics'), cls)(raw, f_dim='3D', check_f_dims=False, x=E.array('x', (M, N, 1)), sampler=E.sampler('z'), post_process=E.quiet_post(),
              track_args=dict(names=[]), term_criteria=[dict(name='max_eval', max_eval=B)], batch_args=bs, verbosity=0)
    cost = batch or N; steps = 0
    while not dyn.terminate():
        dyn.step(); steps += 1
        C.havoc(E, dyn, list(range(M)), 'h%d' % steps)      # the counter does not depend on the positions
        if steps > 10: break
    for m in range(M): E.check('budget is not exceeded in run %d' % m, int(dyn.num_f_eval[m]) <= max(B, N if cls in ('CBOMemory', 'PSO') else 0))
    E.check('the budget is used up', int(dyn.num_f_eval[0]) + cost > B)

def instances(tier):
    o = lambda cls, M=2, N=2, d=(1,), active=(1,), **k: dict(h='count', params=dict(cls=cls, M=M, N=N, d=d, active=active, **k))
    out = []
    for cls in C.ALL + ['CBS:optimization']:
        dd = (2,) if cls.startswith('HyperSurface') or cls.endswith(('sphere', 'plane')) else (1,)
        out.append(o(cls, d=dd)); out.append(o(cls, M=3, N=1, d=dd, active=(0, 2)))
    for cls in ('CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'MirrorCBO', 'PolarCBO'):
        out += [o(cls, batch=(1, True)), o(cls, batch=(1, False), active=(0,)), o(cls, M=1, N=3, batch=(2, True), active=(0,)), o(cls, d=(2, 2) if cls != 'PolarCBO' else (2,), N=1, check_dims=True)]
    for cls in ('CBO', 'MirrorCBO', 'PolarCBO', 'PSO', 'CBOMemory'):
        out += [o(cls, correction='heavi_side'), o(cls, correction='heavi_side_reg', batch=(1, True))]
    out += [o('CBO', stagnation=True), o('CBO', M=3, N=1, active=(0, 2), stagnation=True), o('PolarCBO', stagnation=True), o('CBOMemory', stagnation=True, N=1)]
    for cls in ('CBO', 'AdamCBO', 'PolarCBO', 'MirrorCBO'):
        out += [dict(h='budget', params=dict(cls=cls, N=2, batch=None)), dict(h='budget', params=dict(cls=cls, N=2, batch=1, M=2, bmax=3))]
    for i in out:
        if 'sphere' in str(i['params'].get('cls')): i['welldef'] = True
    return out
