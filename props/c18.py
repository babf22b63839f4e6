"""C18 hypersurface dynamics keep particles on the surface and make the documented projected step."""
from props import common as C
from props.c03 import Recorder, row
BOUNDS = 'one step (surface membership: every later step starts from the surface again) from an arbitrary ensemble, M <= 2, N <= 2, d <= 3; sphere, plane with arbitrary normal and offset, Stiefel manifold (n,1) and (2,2); isotropic, anisotropic and arbitrary noise; mini-batches, finished runs'
ASSUMPTIONS = ['np.linalg.svd returns a singular value decomposition (2x2: arbitrary orthogonal factors with A = U diag(s) V)', 'points at which the projection is undefined (zero vector, singular drift) are excluded']

def surface(E, kind, d):
    """description, gradient(x), Laplacian(x), projection(x), condition entries that vanish on the surface"""
    np = E.np
    if kind in ('sphere', 'default'):
        nrm = lambda x: E.norm2(x)
        return (None if kind == 'default' else dict(name='sphere')), (lambda x: [v / nrm(x) for v in x]), (lambda x: (d - 1.0) / nrm(x)), (lambda x: [v / nrm(x) for v in x]), (lambda x: [E.sum([v * v for v in x]) - 1.0])
    if kind == 'plane':
        a = E.array('a', (d,)); b = E.real('b'); n2 = E.sum([v * v for v in a]); E.assume(E.not_(E.same(n2, 0.0))); n = E.norm2(list(a))
        return dict(name='plane', a=a.copy(), b=b), (lambda x: [v / n for v in a]), (lambda x: 0.0), (lambda x: [v - (E.sum([p * q for p, q in zip(a, x)]) - b) / n2 * w for v, w in zip(x, a)]), (lambda x: [E.sum([p * q for p, q in zip(a, x)]) - b])
    n, k = (d, 1) if kind == 'stiefel1' else (2, 2)
    m = E.mod('cbx.dynamics.hypersurfacecbo')
    def mat(x): return [[x[i * k + j] for j in range(k)] for i in range(n)]
    def cond(x):
        X = mat(x)
        return [E.sum([X[i][p] * X[i][q] for i in range(n)]) - (1.0 if p == q else 0.0) for p in range(k) for q in range(p + 1)]
    def proj(x):
        if k == 1: return [v / E.norm2(x) for v in x]
        U, _, Vh = E.np.linalg.svd(E.np.stack([E.np.stack([x[0], x[1]]), E.np.stack([x[2], x[3]])]), full_matrices=False)
        return list((U @ Vh).reshape(-1))
    return dict(name='Stiefel', nk=(n, k)), (lambda x: list(x)), (lambda x: (2.0 * n - k - 1.0) / 2.0), proj, cond

def tangent(E, kind, grad, x, z):
    if kind.startswith('stiefel'):
        n, k = (len(x), 1) if kind == 'stiefel1' else (2, 2)
        X = [[x[i * k + j] for j in range(k)] for i in range(n)]; Z = [[z[i * k + j] for j in range(k)] for i in range(n)]
        S = [[E.sum([Z[r][i] * X[r][j] + X[r][i] * Z[r][j] for r in range(n)]) for j in range(k)] for i in range(k)]
        return [Z[i][j] - 0.5 * E.sum([X[i][r] * S[r][j] for r in range(k)]) for i in range(n) for j in range(k)]
    g = grad(x); s = E.sum([p * q for p, q in zip(g, z)])
    return [p - q * s for p, q in zip(z, g)]

def make(E, kind, M, N, d, noise, active=None, batch=None):
    sf = surface(E, kind, d)
    rec = Recorder(E) if noise == 'any' else None
    par = C.params(E); par['dt'] = E.real('dt', pos=True)
    dyn = C.build(E, 'HyperSurfaceCBO', M, N, (d,), active=active, batch=batch, noise=rec or noise, par=par, sdf=sf[0])
    k = [0]
    def cons(energy, x, alpha):              # an arbitrary consensus point per run (its value is C01)
        k[0] += 1
        return E.array('c#%d' % k[0], (len(energy), 1, d)), energy
    dyn._compute_consensus = cons
    dyn.terminate()
    return dyn, sf, rec, par

def nonzero(E, kind, x):
    if kind in ('sphere', 'default', 'stiefel1'): E.assume(E.not_(E.same(E.sum([v * v for v in x]), 0.0)))

def member(E, kind, M, N, d, noise='any', active=None, batch=None):
    """after the step every updated particle is on the surface"""
    dyn, (spec, grad, lap, proj, cond), rec, par = make(E, kind, M, N, d, noise, active, batch)
    for r in range(M):
        for j in range(N): nonzero(E, kind, list(dyn.x[r, j]))
    x0 = dyn.x.copy()
    arg = []
    orig = dyn.sdf.proj
    def watch(x):                            # the projection is defined at the point the step reaches
        if kind in ('sphere', 'default', 'stiefel1'):
            for ix in E.idx(E.shape(x)[:-1]): nonzero(E, kind, list(x[ix]))
        return orig(x)
    dyn.sdf.proj = watch
    dyn.step()
    act = C.active_of(dyn)
    for r in range(M):
        mv = C.moved(dyn, r, N) if r in act else []
        for j in range(N):
            if j in mv:
                for q, v in enumerate(cond(list(dyn.x[r, j]))): E.eq('particle %d,%d on the surface (%d)' % (r, j, q), v, 0.0)
            else: E.eq('particle %d,%d' % (r, j), dyn.x[r, j], x0[r, j])

def formula(E, kind, M, N, d, noise='any', active=None, batch=None):
    dyn, (spec, grad, lap, proj, cond), rec, par = make(E, kind, M, N, d, noise, active, batch)
    for r in range(M):
        for j in range(N): nonzero(E, kind, list(dyn.x[r, j]))
    x0 = dyn.x.copy(); z0 = dyn.sampler.k
    orig = dyn.sdf.proj
    def watch(x):
        if kind in ('sphere', 'default', 'stiefel1'):
            for ix in E.idx(E.shape(x)[:-1]): nonzero(E, kind, list(x[ix]))
        return orig(x)
    dyn.sdf.proj = watch
    dyn.step()
    act = C.active_of(dyn); c = dyn.consensus; zs = None
    if rec is None:
        dyn.sampler.k = z0; zs = dyn.sampler(dyn.sampler.sizes[-1]); dyn.sampler.sizes.pop()
    for r in range(M):
        if r not in act: continue
        k = act.index(r)
        for j in C.moved(dyn, r, N):
            x = list(x0[r, j]); dr = [p - q for p, q in zip(x, list(c[k, 0]))]; n2 = E.sum([v * v for v in dr]); s = par['sigma']; dt = par['dt']
            if rec is not None: nz = [row(E, rec.value, dyn, k, r, j, (i,), M, N) for i in range(d)]
            else:
                z = [row(E, zs, dyn, k, r, j, (i,), M, N) for i in range(d)]; rt = E.sqrt(dt)
                nz = [rt * v * (E.sqrt(n2) if noise == 'isotropic' else w) for v, w in zip(z, dr)]
            tg = tangent(E, kind, grad, x, [s * v - par['lamda'] * dt * w for v, w in zip(nz, dr)])
            if noise == 'anisotropic':
                m2 = E.sum([(v * w) * (v * w) for v, w in zip(dr, x)])
                corr = [dt * s * s / 2.0 * (n2 + v * v - 2.0 * m2) * w for v, w in zip(dr, x)]
            else: corr = [dt * s * s / 2.0 * lap(x) * n2 * w for w in grad(x)]
            t = [p + q - w for p, q, w in zip(x, tg, corr)]
            want = proj(t)
            for i in range(d): E.eq('step of particle %d,%d component %d' % (r, j, i), dyn.x[r, j, i], want[i])

def projections(E, kind, shape):
    """projection onto the surface and onto its tangent space for arbitrary arrays"""
    d = shape[-1]; m = E.mod('cbx.dynamics.hypersurfacecbo')
    spec, grad, lap, proj, cond = surface(E, kind, d)
    sdf = m.get_sdf(spec)
    x = E.array('x', shape); z = E.array('w', shape); pts = [tuple(i) for i in E.idx(shape[:-1])]
    for ix in pts: nonzero(E, kind, list(x[ix]))
    x0 = x.copy()
    p = sdf.proj(x)
    E.check('shape', E.shape(p) == shape)
    for ix in pts:
        for q, v in enumerate(cond(list(p[ix]))): E.eq('projection %s on the surface (%d)' % (ix, q), v, 0.0)
        for i, w in enumerate(proj(list(x0[ix]))): E.eq('projection %s' % (ix + (i,),), p[ix + (i,)], w)
    if kind != 'stiefel2':
        pp = sdf.proj(p)
        for ix in pts:
            for i in range(d): E.eq('points of the surface are not moved %s' % (ix + (i,),), pp[ix + (i,)], p[ix + (i,)])
    # tangent space at the point p of the surface
    t = sdf.proj_tangent_space(p, z); tt = sdf.proj_tangent_space(p, t)
    E.check('tangent shape', E.shape(t) == shape)
    for ix in pts:
        u, tl = list(p[ix]), list(t[ix])
        if kind == 'stiefel2':
            X = [u[:2], u[2:]]; T = [tl[:2], tl[2:]]
            for a in range(2):
                for b in range(a + 1): E.eq('tangent %s' % (ix,), E.sum([X[r][a] * T[r][b] + T[r][a] * X[r][b] for r in range(2)]), 0.0)
        else: E.eq('tangent %s' % (ix,), E.sum([g * v for g, v in zip(grad(u), tl)]), 0.0)
        for i in range(d): E.eq('tangent projection is idempotent %s' % (ix + (i,),), tt[ix + (i,)], t[ix + (i,)])
        for i, w in enumerate(tangent(E, kind, grad, u, list(z[ix]))): E.eq('tangent projection %s' % (ix + (i,),), t[ix + (i,)], w)
    if kind in ('sphere', 'plane'):
        P = sdf.get_proj_matrix(p)
        for ix in pts:
            for i in range(d): E.eq('projection matrix %s' % (ix + (i,),), E.sum([P[ix + (i, j)] * z[ix + (j,)] for j in range(d)]), t[ix + (i,)])
    E.eq('input', x, x0)

def instances(tier):
    o = lambda h, **k: dict(h=h, params=k, eager=True)
    out = [o('projections', kind=k, shape=s) for k in ('default', 'sphere', 'plane', 'stiefel1') for s in ((2, 1, 2), (1, 2, 3), (1, 1, 1))] + [o('projections', kind='stiefel2', shape=(1, 1, 4))]
    for k in ('sphere', 'plane'):
        out += [o('member', kind=k, M=1, N=2, d=2), o('member', kind=k, M=2, N=1, d=3), o('member', kind=k, M=1, N=1, d=2, noise='isotropic'), o('member', kind=k, M=1, N=1, d=2, noise='anisotropic'),
                o('member', kind=k, M=2, N=1, d=2, active=[1]), o('member', kind=k, M=1, N=2, d=2, batch=(1, True)), o('member', kind=k, M=1, N=2, d=2, batch=(1, False))]
        out += [o('formula', kind=k, M=1, N=2, d=2), o('formula', kind=k, M=2, N=1, d=2), o('formula', kind=k, M=1, N=1, d=3), o('formula', kind=k, M=1, N=2, d=2, noise='isotropic'), o('formula', kind=k, M=2, N=1, d=2, active=[1]),
                o('formula', kind=k, M=1, N=2, d=2, batch=(1, True)), o('formula', kind=k, M=1, N=2, d=2, batch=(1, False))]
    out += [o('formula', kind='sphere', M=1, N=2, d=2, noise='anisotropic'), o('formula', kind='default', M=1, N=1, d=3, noise='anisotropic')]
    out += [o('member', kind='stiefel1', M=1, N=2, d=2), o('member', kind='stiefel2', M=1, N=1, d=4), o('formula', kind='stiefel1', M=1, N=2, d=2), o('formula', kind='stiefel1', M=1, N=1, d=3), o('formula', kind='stiefel2', M=1, N=1, d=4)]
    if tier == 'thorough':
        for k in ('sphere', 'plane'): out += [o('formula', kind=k, M=1, N=2, d=3), o('formula', kind=k, M=2, N=2, d=2), o('member', kind=k, M=2, N=2, d=2, batch=(1, False)), o('formula', kind=k, M=1, N=3, d=2), o('formula', kind=k, M=2, N=2, d=2, noise='isotropic', active=[0])]
        out += [o('formula', kind='stiefel2', M=1, N=2, d=4), o('formula', kind='sphere', M=1, N=2, d=3, noise='anisotropic')]
    return out
