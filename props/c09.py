"""C09 a finished run is frozen while the others continue, and the others do not notice."""
from props import common as C
BOUNDS = 'two steps: one with all runs active, then an arbitrary state, then one with a proper subset of active runs; M in {2,3}, N in {1,2}, d in {1,2}; every dynamic class, noise model, correction and batch mode'

FROZEN = ('x', 'y', 'v', 'm', 'energy', 'best_energy', 'best_particle', 'num_f_eval')

def frozen(E, cls, M, N, d, active, batch=None, noise='anisotropic', correction='no_correction', first=True, compare=True):
    f = E.objective('f', ddims=len(d)); X = E.array('x', (M, N) + tuple(d)); A = E.array('alpha', (M, 1), pos=True); par = C.params(E)
    def go(rows):
        dyn = C.build(E, cls, M, N, d, batch=batch, noise=noise, correction=correction, rows=rows, f=f, X=X, A=A, par=par)
        dyn.terminate()
        if first: C.step(E, dyn)
        C.havoc(E, dyn, rows)
        dyn._switch.stop = [r not in active for r in rows]
        if dyn.sampler.__class__ is C.RowSampler: dyn.sampler.k = 10
        dyn.terminate()
        before = C.state(E, dyn)
        C.step(E, dyn)
        return dyn, before
    dyn, before = go(list(range(M)))
    after = C.state(E, dyn)
    for k in FROZEN:
        if k not in before: continue
        for r in range(M):
            if r in active: continue
            E.eq('finished run %d: %s' % (r, k), after[k][r], before[k][r])
    if not compare: return
    alone, _ = go(list(active))
    st = C.state(E, alone)
    for k in FROZEN + ('update_diff',):
        if k not in st or k not in after: continue
        for i, r in enumerate(active): E.eq('continuing run %d: %s' % (r, k), after[k][r], st[k][i])

def instances(tier):
    o = lambda cls, M=2, N=2, d=(1,), active=(1,), **k: dict(h='frozen', params=dict(cls=cls, M=M, N=N, d=d, active=active, **k))
    out = []
    for cls in C.ALL:
        d = (2,) if cls.split(':')[0] in ('HyperSurfaceCBO',) or cls.endswith(('sphere', 'plane')) else (1,)
        out.append(o(cls, d=d))
        out.append(o(cls, M=3, N=2 if d == (1,) else 1, d=d, active=(0, 2)))
    for cls in ('CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'MirrorCBO', 'PolarCBO'):
        out.append(o(cls, batch=(1, True)))
        if cls != 'PolarCBO': out.append(o(cls, batch=(1, False), active=(0,)))
        for n in ('isotropic', 'covariance', 'constant'): out.append(o(cls, noise=n, d=(2,) if n == 'isotropic' else (1,), active=(0,) if n == 'constant' else (1,)))
    for cls in ('CBO', 'MirrorCBO', 'PolarCBO'):
        for c in ('heavi_side', 'heavi_side_reg'): out.append(o(cls, correction=c))
    out += [o('PSO', correction='heavi_side', N=1), o('CBS:optimization'), o('HyperSurfaceCBO:sphere', d=(2,), N=1, noise='isotropic', active=(0,)), o('HyperSurfaceCBO:plane', d=(2,), noise='isotropic', active=(0,)),
            o('DriftConstrainedCBO:two', d=(2,), N=1), o('DriftConstrainedCBO:none', noise='covariance'), o('RegCombinationCBO:none', noise='covariance'),
            o('CBO', d=(2, 2)), o('CBOMemory', d=(2, 2), N=1), o('PSO', d=(2, 2), N=1), o('MirrorCBO:elastic'), o('PolarCBO:Laplace', d=(2,))]
    for i in out:
        if i['params']['cls'] in ('RegCombinationCBO:sphere', 'HyperSurfaceCBO:sphere'): i['welldef'] = True
    return out
