"""C05 runs are independent: an M-run equals M separate single runs."""
from props import common as C
BOUNDS = 'one step from the constructed dynamic, then an arbitrary state and one more step (same draws and batch permutations named by run); M in {2,3}, N in {1,2,3}, d in {1,2}, domain (2,2); every dynamic class, kernel, mirror map, noise model, correction and batch mode; schedulers and termination included'

KEYS = ('x', 'y', 'v', 'm', 'energy', 'best_energy', 'best_particle', 'best_cur_energy', 'best_cur_particle', 'num_f_eval', 'f_min', 'update_diff', 'consensus', 'alpha')

class SameSampler:
    """the same arbitrary draw for every run, at most `most` draws (used where the number of drawn rows depends on the state)"""
    def __init__(self, E, most): self.E = E; self.left = most; self.sizes = []
    def __call__(self, size=None, *a, **k):
        self.left -= 1
        if self.left < 0: self.E.assume(False)
        z = self.E.array('z', tuple(size)[1:])
        return self.E.np.stack([z] * size[0], axis=0) if size[0] else self.E.np.zeros(size)

def independent(E, cls, M, N, d, batch=None, noise='anisotropic', correction='no_correction', steps=1, sched=None, post=True, state=True, most=None, **kw):
    f = E.objective('f', ddims=len(d)); X = E.array('x', (M, N) + tuple(d)); A = E.array('alpha', (M, 1), pos=True); par = C.params(E)
    def go(rows):
        if most: kw['sampler'] = SameSampler(E, most)
        dyn = C.build(E, cls, M, N, d, batch=batch, noise=noise, correction=correction, rows=rows, f=f, X=X, A=A, par=par, post=post, **kw)
        dyn.terminate()
        res = []
        s = None
        if sched == 'multiply': s = E.mod('cbx.scheduler').scheduler([E.mod('cbx.scheduler').multiply(name='alpha', factor=1.5, maximum=2.0)])
        for k in range(steps):
            C.step(E, dyn)
            if s is not None: s.update(dyn)
        res.append(C.state(E, dyn))
        if dyn.consensus is not None: res[-1]['consensus'] = dyn.consensus.copy()
        res[-1]['alpha'] = dyn.alpha.copy()
        if state:
            C.havoc(E, dyn, rows)
            if dyn.sampler.__class__ is C.RowSampler: dyn.sampler.k = 10
            C.step(E, dyn)
            if s is not None: s.update(dyn)
            res.append(C.state(E, dyn))
            if dyn.consensus is not None: res[-1]['consensus'] = dyn.consensus.copy()
            res[-1]['alpha'] = dyn.alpha.copy()
        return res
    full = go(list(range(M)))
    for r in range(M):
        one = go([r])
        for k, (a, b) in enumerate(zip(full, one)):
            for q in KEYS:
                if q not in a: continue
                if q not in b: E.check('run %d phase %d: %s present' % (r, k, q), False); continue
                E.eq('run %d phase %d: %s' % (r, k, q), a[q][r], b[q][0])

def finished(E, cls, M, N, d, active, batch=None, noise='anisotropic', correction='no_correction', post=True, state=True, **kw):
    """runs of the ensemble end at different times: each continuing run is still the run alone"""
    f = E.objective('f', ddims=len(d)); X = E.array('x', (M, N) + tuple(d)); A = E.array('alpha', (M, 1), pos=True); par = C.params(E)
    def go(rows):
        dyn = C.build(E, cls, M, N, d, batch=batch, noise=noise, correction=correction, rows=rows, f=f, X=X, A=A, par=par, post=post, **kw)
        dyn.terminate()
        if state:
            C.step(E, dyn)
            C.havoc(E, dyn, rows)
            if dyn.sampler.__class__ is C.RowSampler: dyn.sampler.k = 10
        dyn._switch.stop = [r not in active for r in rows]
        dyn.terminate()
        C.step(E, dyn)
        return dyn
    full = go(list(range(M))); F = C.state(E, full)
    for i, r in enumerate(active):
        one = go([r]); S = C.state(E, one)
        for q in KEYS:
            if q in S and q in F: E.eq('run %d: %s' % (r, q), F[q][r], S[q][0])
        if one.consensus is not None: E.eq('run %d: consensus' % r, full.consensus[i], one.consensus[0])

def stopping(E, cls, M, N, d, crit):
    """termination by arbitrary thresholds: active runs and reasons of the M-run are those of the single runs"""
    f = E.objective('f', ddims=len(d)); X = E.array('x', (M, N) + tuple(d)); A = E.array('alpha', (M, 1), pos=True); par = C.params(E)
    T = E.mod('cbx.utils.termination')
    tol = E.real('tol')
    def go(rows):
        dyn = C.build(E, cls, M, N, d, rows=rows, f=f, X=X, A=A, par=par)
        dyn.term_criteria = [T.energy_tol_term(tol)] if crit == 'energy' else [T.diff_tol_term(tol)]
        dyn.terminate(); C.step(E, dyn)
        done = dyn.terminate()
        return bool(done), C.active_of(dyn), [None if dyn.term_reason[i] is None else [int(q) for q in dyn.term_reason[i]] for i in range(len(rows))]
    done, act, why = go(list(range(M)))
    dall = True
    for r in range(M):
        d1, a1, w1 = go([r])
        dall = dall and d1
        E.check('run %d active iff active alone' % r, (r in act) == (0 in a1))
        E.check('run %d same reasons' % r, why[r] == w1[0])
    E.check('finished iff every single run is', done == dall)

def instances(tier):
    o = lambda cls, M=2, N=2, d=(1,), **k: dict(h='independent', params=dict(cls=cls, M=M, N=N, d=d, **k))
    out = []
    for cls in C.ALL:
        d = (2,) if cls.split(':')[0] in ('HyperSurfaceCBO',) or cls.endswith(('sphere', 'plane')) else (1,)
        out.append(o(cls, d=d, N=1 if cls == 'DriftConstrainedCBO:sphere' else 2))
    out += [o('CBO', M=3, d=(2,)), o('CBO', d=(2, 2)), o('CBO', N=3, batch=(2, True), state=False), o('CBO', batch=(1, False)), o('CBO', N=1, d=(2,)), o('CBO', M=2, N=2, sched='multiply')]
    for cls in ('CBOMemory', 'PSO', 'AdamCBO', 'MirrorCBO', 'PolarCBO'): out.append(o(cls, batch=(1, True)))
    for n in ('isotropic', 'covariance', 'constant'): out.append(o('CBO', noise=n, d=(2,) if n == 'isotropic' else (1,)))
    for c in ('heavi_side', 'heavi_side_reg'): out.append(o('CBO', correction=c))
    for k in ('Laplace', 'InverseQuadratic', 'Constant', 'Taz'): out.append(o('PolarCBO:' + k, d=(2,) if k in ('Laplace', 'InverseQuadratic') else (1,), state=False))
    out += [o('PolarCBO:Taz', N=3, state=False), o('PolarCBO', noise='covariance'), o('MirrorCBO:elastic'), o('MirrorCBO:l2'), o('MirrorCBO:simplex', d=(2,), state=False), o('MirrorCBO:square', N=1, state=False), o('MirrorCBO:sphere', d=(2,), N=1, state=False),
            o('DriftConstrainedCBO:two', d=(2,), N=1), o('DriftConstrainedCBO:indep', N=1, steps=2, state=False, most=4), o('CBS:optimization'), o('CBO', post=False)]
    out += [dict(h='stopping', params=dict(cls=c, M=2, N=1, d=(1,), crit=k)) for c in ('CBO', 'PSO') for k in ('energy', 'diff')]
    fin = lambda cls, M=2, N=2, d=(1,), active=(1,), **k: dict(h='finished', params=dict(cls=cls, M=M, N=N, d=d, active=active, **k))
    for cls in C.ALL:
        d = (2,) if cls.split(':')[0] in ('HyperSurfaceCBO',) or cls.endswith(('sphere', 'plane')) else (1,)
        out.append(fin(cls, d=d, N=2 if d == (1,) else 1, state='sphere' not in cls))
    out += [fin('CBO', M=3, active=(0, 2)), fin('CBO', batch=(1, True)), fin('CBO', batch=(1, False)), fin('PolarCBO', M=3, active=(2,), batch=(1, True)), fin('CBO', noise='covariance'), fin('CBO', correction='heavi_side'), fin('CBO', correction='heavi_side_reg', M=3, N=1, active=(0, 2)),
            fin('CBO', noise='isotropic', d=(2,)), fin('PolarCBO', noise='covariance'), fin('CBOMemory', batch=(1, True)), fin('PSO', batch=(1, False)), fin('MirrorCBO', batch=(1, True)), fin('CBO', d=(2, 2), N=1)]
    if tier == 'thorough':
        out += [o(cls, M=3, N=2, d=(2,)) for cls in ('CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'CBS', 'PolarCBO', 'MirrorCBO', 'DriftConstrainedCBO:plane', 'HyperSurfaceCBO:sphere', 'RegCombinationCBO:plane')]
        out += [o('CBO', M=2, N=3, batch=(2, False), noise=n) for n in ('isotropic', 'covariance')] + [o('CBO', steps=2)]
    for i in out:
        if i['params']['cls'] in ('RegCombinationCBO:sphere', 'HyperSurfaceCBO:sphere', 'DriftConstrainedCBO:sphere'): i['welldef'] = True
    return out
