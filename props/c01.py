"""C01 consensus = energy-weighted mean of the scheduled particles of the own run."""
from props import common as C
BOUNDS = 'M in {1,2,3} runs, N in {1,2,3} particles, domain (1,),(2,),(2,2); full, partial-batch and full-update-batch modes; all/one/two active runs; every dynamic class (memory dynamics: historical best positions from an arbitrary state)'

def make(E, cls, M, N, d, active=None, batch=None, **kw):
    f = E.objective('f', ddims=len(d))
    x = E.array('x', (M, N) + tuple(d))
    alpha = E.array('alpha', (M, 1), pos=True)
    mask = [True] * M if active is None else [i in active for i in range(M)]
    st = {'k': 0}
    def term(dyn):
        import numpy
        return numpy.array([not v for v in mask])
    dyn = cls(f, f_dim='3D', check_f_dims=False, x=x, alpha=alpha, dt=0.25, lamda=E.real('lamda'), sigma=E.real('sigma'),
              sampler=E.sampler('z'), noise=kw.pop('noise', 'anisotropic'), post_process=E.quiet_post(), track_args={'names': []},
              term_criteria=[term], batch_args=batch, verbosity=0, **kw)
    return dyn, f, x, alpha, [i for i in range(M) if mask[i]]

def consensus(E, M, N, d, active=None, batch=None):
    cls = E.mod('cbx.dynamics').CBO
    bsize, partial = batch if batch else (None, True)
    dyn, f, x, alpha, act = make(E, cls, M, N, d, active, dict(size=bsize, partial=partial) if batch else None)
    dyn.terminate()
    n0 = len(f.log)
    xs = x.copy()
    dyn.step()
    c = dyn.consensus
    E.eq('consensus-shape', [float(s) for s in E.shape(c)], [float(s) for s in (len(act), 1) + tuple(d)])
    for k, m in enumerate(act):
        B = list(range(N)) if not batch else [int(j) for j in dyn.batch_idx[m]]
        e = [f(xs[m, j]) for j in B]
        w = [E.exp(-(alpha[m, 0] * ei)) for ei in e]
        vals, idx = E.wmean(w, [xs[m, j] for j in B])
        for v, ix in zip(vals, idx): E.eq('consensus run %d %s' % (m, ix), c[(k, 0) + ix], v)
        # inside the range of the particles, and every weight in [0,1]
        for ix in idx:
            col = [xs[(m, j) + ix] for j in B]
            E.le('below-max run %d %s' % (m, ix), c[(k, 0) + ix], E.upper('hi%d%s' % (m, ix), col))
            E.le('above-min run %d %s' % (m, ix), E.lower('lo%d%s' % (m, ix), col), c[(k, 0) + ix])

def variants(E, spec, M, N, d, active=None, batch=None, steps=1):
    """the consensus of every dynamic class; memory dynamics average their historical best positions"""
    f = E.objective('f', ddims=len(d)); A = E.array('alpha', (M, 1), pos=True)
    dyn = C.build(E, spec, M, N, d, active=active, batch=batch, f=f, A=A)
    dyn.terminate()
    memory = C.clsname(spec) in ('CBOMemory', 'PSO'); reg = C.clsname(spec) == 'RegCombinationCBO'      # regularised energies are C27
    for s in range(steps):
        if memory: C.havoc(E, dyn, list(range(M)), tag='h%d' % s)
        P, e0 = (dyn.y if memory else dyn.x).copy(), dyn.energy.copy()
        C.step(E, dyn)
        for k, m in enumerate(C.active_of(dyn)):
            B = C.scheduled(dyn, m, N)
            w = [E.exp(-(A[m, 0] * (e0[m, j] if memory else dyn.energy[m, j] if reg else f(P[m, j])))) for j in B]
            vals, idx = E.wmean(w, [P[m, j] for j in B])
            for v, ix in zip(vals, idx): E.eq('step %d consensus run %d %s' % (s, m, ix), dyn.consensus[(k, 0) + ix], v)

def shift(E, M, N, d):
    P = E.mod('cbx.dynamics.pdyn')
    f = E.array('energy', (M, N)); x = E.array('x', (M, N) + tuple(d)); alpha = E.array('alpha', (M, 1), pos=True)
    s = E.array('s', (M, 1))
    cc = P.compute_consensus_default()
    c0, _ = cc(f, x, alpha)
    c1, _ = cc(f + s, x, alpha)
    E.eq('shift-invariance', c1, c0)
    perm = list(range(1, N)) + [0]
    c2, _ = cc(f[:, perm], x[:, perm], alpha)
    E.eq('permutation-invariance', c2, c0)

def instances(tier):
    out = []
    for M, N, d in [(1, 2, (1,)), (1, 3, (2,)), (2, 2, (2,)), (2, 2, (2, 2)), (1, 1, (2,))]:
        out.append(dict(h='consensus', params=dict(M=M, N=N, d=d)))
    for M, N, d, a in [(2, 2, (1,), (1,)), (3, 2, (2,), (0, 2)), (2, 2, (2, 2), (0,))]:
        out.append(dict(h='consensus', params=dict(M=M, N=N, d=d, active=a)))
    for M, N, d, a, b in [(1, 3, (1,), None, (2, True)), (1, 3, (2,), None, (2, False)), (2, 2, (1,), None, (1, True)), (2, 3, (1,), (1,), (2, True)), (2, 3, (1,), (0,), (2, False))]:
        out.append(dict(h='consensus', params=dict(M=M, N=N, d=d, active=a, batch=b)))
    out += [dict(h='shift', params=dict(M=1, N=3, d=(2,))), dict(h='shift', params=dict(M=2, N=2, d=(1,)))]
    v = lambda spec, M=2, N=2, d=(1,), **k: dict(h='variants', welldef='sphere' in spec, params=dict(spec=spec, M=M, N=N, d=d, **k))
    for spec in C.ALL:
        if spec.split(':')[0] in ('CBO', 'PolarCBO'): continue
        d = (2,) if spec.split(':')[0] == 'HyperSurfaceCBO' or spec.endswith(('sphere', 'plane')) else (1,)
        if spec == 'CBS': out += [v(spec), v(spec, M=3, d=(2,), active=(0, 2))]; continue
        out += [v(spec, d=d, active=(1,)), v(spec, M=1, N=3, d=d, batch=(2, True)), v(spec, M=1, N=3, d=d, batch=(2, False))]
        if tier == 'thorough': out += [v(spec, d=d, steps=2), v(spec, M=3, d=d, active=(0, 2), batch=(1, False))]
    return out
