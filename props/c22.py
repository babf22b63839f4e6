"""C22 polarised consensus: kernel-weighted mean seen from each particle; kernels."""
from props import common as C
BOUNDS = 'one step from an arbitrary ensemble; M in {1,2,3}, N in {1,2,3}, domain (1,),(2,),(2,2); kernels Gaussian, Laplace, Constant, InverseQuadratic, Taz and an arbitrary kernel; both kernel factors; batches and active subsets; covariance noise for d = 1'
ASSUMPTIONS = ['Constant kernel with batches that leave a particle without any batch particle in reach is outside the bounds (its weighted mean is undefined)']

def sq(E, a, b, d): return E.sum([(a[i] - b[i]) * (a[i] - b[i]) for i in E.idx(d)])

def neg_log(E, kernel, kappa, pts, i, j, d, allpairs):
    """documented negative logarithm of the kernel between points a and b"""
    a, b = pts[i], pts[j]
    q = sq(E, a, b, d)
    if kernel == 'Gaussian': return q / (2 * kappa * kappa)
    if kernel == 'Laplace': return E.sqrt(q) / kappa
    if kernel == 'InverseQuadratic': return E.log(1 + q / (kappa * kappa))
    if kernel == 'Taz':
        mx = E.max(*[sq(E, pts[u], pts[v], d) for u, v in allpairs]) if len(allpairs) > 1 else sq(E, pts[allpairs[0][0]], pts[allpairs[0][1]], d)
        return E.ite(E.strict(0.0, mx), q / (kappa * kappa * mx), 0.0)

class Arbitrary:
    """an arbitrary kernel: any function of the two points"""
    def __init__(self, E, ddims): self.E = E; self.ddims = ddims; self.g = E.objective('kernel', ddims=2)
    def neg_log(self, x, y):
        E = self.E; np = E.np
        x, y = np.broadcast_arrays(x, y) if False else (x + 0 * y, y + 0 * x)
        sh = E.shape(x)
        return self.g(np.stack([x.reshape(sh[:3] + (-1,)), y.reshape(sh[:3] + (-1,))], axis=3))
    def value(self, a, b):
        np = self.E.np
        return self.g(np.stack([a.reshape(-1), b.reshape(-1)], axis=0))

def weight(E, kern, kernel, kappa, X, r, j, b, d, mv, B, al, kf, e):
    """weight of batch particle b for particle j (exponentials of the documented exponent)"""
    if kernel == 'arbitrary': nl = kern.value(X[r, b], X[r, j])
    elif kernel == 'Constant':
        inside = E.leq(sq(E, X[r, j], X[r, b], d), kappa * kappa)
        return E.ite(inside, E.exp(-al * e), 0.0)
    elif kernel == 'InverseQuadratic' and kf is None:
        q = sq(E, X[r, j], X[r, b], d)
        return E.exp(-al * e) / (1 + q / (kappa * kappa))
    else: nl = neg_log(E, kernel, kappa, X[r], j, b, d, [(u, v) for u in mv for v in B])
    return E.exp(-(kf if kf is not None else 1) * nl - al * e)

def consensus(E, M, N, d, kernel='arbitrary', mode='alpha', active=None, batch=None, kappa=None, noise='anisotropic'):
    kp = E.real('kappa', pos=True) if kappa is None else kappa
    f = E.objective('f', ddims=len(d))
    A = E.array('alpha', (M, 1), pos=True)
    kern = Arbitrary(E, len(d)) if kernel == 'arbitrary' else kernel
    dyn = C.build(E, 'PolarCBO', M, N, d, active=active, batch=batch, f=f, A=A, kernel=kern, kappa=kp, kernel_factor_mode=mode, noise=noise)
    dyn.terminate()
    X = dyn.x.copy(); rec = []
    dyn.step()
    act = C.active_of(dyn); c = dyn.consensus
    n = len(C.moved(dyn, act[0], N))
    E.check('shape', E.shape(c) == (len(act), n) + tuple(d))
    for k, r in enumerate(act):
        B = C.scheduled(dyn, r, N); mv = C.moved(dyn, r, N)
        for a, j in enumerate(mv):
            al = A[r, 0]
            w = [weight(E, kern, kernel, kp, X, r, j, b, d, mv, B, al, al if mode == 'alpha' else None, f(X[r, b])) for b in B]
            vals, idx = E.wmean(w, [X[r, b] for b in B])
            for v, ix in zip(vals, idx): E.eq('consensus of particle %d of run %d %s' % (j, r, ix), c[(k, a) + ix], v)
        for b in B: E.eq('energy %d,%d' % (r, b), dyn.energy[r, b], f(X[r, b]))
    # every particle moves towards its own consensus
    dyn.sampler.k = 0
    z = dyn.sampler(dyn.sampler.sizes[-1])
    for r in range(M):
        for j in range(N):
            if r not in act or j not in C.moved(dyn, r, N): E.eq('unmoved %d,%d' % (r, j), dyn.x[r, j], X[r, j]); continue
            k = act.index(r); a = C.moved(dyn, r, N).index(j)
            for ix in E.idx(d):
                dr = X[(r, j) + ix] - c[(k, a) + ix]
                zz = z[(k, a) + ix]
                E.eq('update %d,%d%s' % (r, j, ix), dyn.x[(r, j) + ix], X[(r, j) + ix] - dyn.lamda * dyn.dt[r] * dr + dyn.sigma * E.sqrt(dyn.dt[r]) * dr * zz if hasattr(dyn.dt, 'shape') and E.shape(dyn.dt) else X[(r, j) + ix] - dyn.lamda * dyn.dt * dr + dyn.sigma * E.sqrt(dyn.dt) * dr * zz)

def common(E, M, N, d, kernel, active=None, batch=None, mode='alpha', kappa=float('inf')):
    """a kernel of infinite width: everybody sees the common consensus"""
    f = E.objective('f', ddims=len(d))
    A = E.array('alpha', (M, 1), pos=True); X = E.array('x', (M, N) + tuple(d)); par = C.params(E)
    dyn = C.build(E, 'PolarCBO', M, N, d, active=active, batch=batch, f=f, A=A, X=X, par=par, kernel=kernel, kappa=kappa, kernel_factor_mode=mode)
    ref = C.build(E, 'CBO', M, N, d, active=active, batch=batch, f=f, A=A, X=X, par=par)
    for q in (dyn, ref): q.terminate(); q.step()
    act = C.active_of(dyn)
    for k in range(len(act)):
        for a in range(E.shape(dyn.consensus)[1]): E.eq('common consensus %d,%d' % (k, a), dyn.consensus[k, a], ref.consensus[k, 0])
    E.eq('same step', dyn.x, ref.x)
    E.eq('same best energy', dyn.best_energy, ref.best_energy)

def single(E, kernel, d, mode='alpha'):
    """one particle is its own consensus"""
    dyn = C.build(E, 'PolarCBO', 2, 1, d, kernel=kernel, kappa=E.real('kappa', pos=True), kernel_factor_mode=mode)
    X = dyn.x.copy()
    dyn.terminate(); dyn.step()
    E.eq('own consensus', dyn.consensus, X); E.eq('does not move', dyn.x, X)

def kernels(E, kernel, M, N, K, d):
    """symmetric, at most one, one at distance zero, value and negative logarithm agree, the documented formula; runs do not see each other"""
    P = E.mod('cbx.dynamics.polarcbo')
    kp = E.real('kappa', pos=True)
    k = P.PolarCBO.kernel_dict[kernel](kappa=kp)
    x = E.array('x', (M, N) + d); y = E.array('y', (M, K) + d)
    v = k(y[:, None], x[:, :, None]); nl = k.neg_log(y[:, None], x[:, :, None])
    w = k(x[:, :, None], y[:, None])
    E.check('shapes', E.shape(v) == (M, N, K) and E.shape(nl) == (M, N, K))
    for m in range(M):
        qs = [sq(E, x[m, i], y[m, j], d) for i in range(N) for j in range(K)]
        for i in range(N):
            for j in range(K):
                lab = ' %d,%d,%d' % (m, i, j); q = sq(E, x[m, i], y[m, j], d)
                E.eq('symmetric' + lab, v[m, i, j], w[m, i, j])
                E.le('at most one' + lab, v[m, i, j], 1.0)
                E.le('not negative' + lab, 0.0, v[m, i, j])
                if kernel == 'Constant':
                    inside = E.leq(q, kp * kp)
                    E.eq('value' + lab, v[m, i, j], E.ite(inside, 1.0, 0.0))
                    E.check('negative logarithm' + lab, E.iff(inside, E.leq(nl[m, i, j], 0.0)))
                    continue
                E.eq('exp(-neg_log) is the value' + lab, v[m, i, j], E.exp(-nl[m, i, j]))
                if kernel == 'Gaussian': t = q / (2 * kp * kp)
                elif kernel == 'Laplace': t = E.sqrt(q) / kp
                elif kernel == 'Taz':
                    mx = qs[0] if len(qs) == 1 else E.max(*qs)
                    t = E.ite(E.strict(0.0, mx), q / (kp * kp * mx), 0.0)
                if kernel == 'InverseQuadratic': E.eq('value' + lab, v[m, i, j], 1 / (1 + q / (kp * kp)))
                else: E.eq('documented exponent' + lab, nl[m, i, j], t)
    z = k(x[:, :, None], x[:, :, None]); zl = k.neg_log(x[:, :, None], x[:, :, None])
    for m in range(M):
        for i in range(N): E.eq('one at distance zero %d,%d' % (m, i), z[m, i, 0], 1.0); E.eq('zero exponent %d,%d' % (m, i), zl[m, i, 0], 0.0)

def covariance(E, M, N, active=None, batch=None, mode='alpha'):
    """covariance noise: each particle has its own kernel-weighted covariance of the drift"""
    f = E.objective('f', ddims=1); A = E.array('alpha', (M, 1), pos=True); kern = Arbitrary(E, 1)
    par = C.params(E); par['dt'] = E.real('dt', pos=True)
    dyn = C.build(E, 'PolarCBO', M, N, (1,), active=active, batch=batch, f=f, A=A, kernel=kern, kernel_factor_mode=mode, noise='covariance', par=par)
    dyn.terminate(); dyn.pre_step()
    act = C.active_of(dyn); n = len(C.moved(dyn, act[0], N))
    dyn.energy[...] = E.array('energy', (M, N)); en = dyn.energy.copy(); X = dyn.x.copy()
    dyn.drift = E.array('drift', (len(act), n, 1)); D = dyn.drift.copy()
    out = dyn.noise()
    dyn.sampler.k = 0
    z = dyn.sampler(dyn.sampler.sizes[-1])
    E.check('shape', E.shape(out) == E.shape(D))
    for k, r in enumerate(act):
        mv = C.moved(dyn, r, N); al = A[r, 0]
        for a, j in enumerate(mv):
            w = [E.exp(-(al if mode == 'alpha' else 1) * kern.value(X[r, b], X[r, j]) - al * en[r, b]) for b in mv]
            cov = E.sum([wb * D[k, b, 0] * D[k, b, 0] for b, wb in enumerate(w)]) / E.sum(w)
            E.eq('square of the noise %d,%d' % (r, j), out[k, a, 0] * out[k, a, 0], 2 * par['dt'] * (1 + al) * cov * z[k, a, 0] * z[k, a, 0])

def instances(tier):
    o = lambda h, **k: dict(h=h, params=k)
    out = [o('consensus', M=1, N=2, d=(2,)), o('consensus', M=2, N=2, d=(1,)), o('consensus', M=1, N=3, d=(1,)), o('consensus', M=2, N=2, d=(2, 2)), o('consensus', M=2, N=2, d=(2,), mode='const'),
           o('consensus', M=3, N=2, d=(1,), active=(0, 2)), o('consensus', M=2, N=2, d=(2,), active=(1,)), o('consensus', M=2, N=2, d=(1,), active=(1,), mode='const'),
           o('consensus', M=1, N=3, d=(1,), batch=(2, True)), o('consensus', M=1, N=3, d=(1,), batch=(2, False)), o('consensus', M=2, N=3, d=(1,), batch=(2, True), active=(1,)),
           o('consensus', M=2, N=3, d=(2,), batch=(1, False), active=(0,)), o('consensus', M=2, N=2, d=(1,), batch=(1, False), mode='const')]
    for kn in ('Gaussian', 'Laplace'):
        out += [o('consensus', M=1, N=2, d=(2,), kernel=kn), o('consensus', M=2, N=2, d=(1,), kernel=kn, mode='const'), o('consensus', M=1, N=2, d=(2, 2), kernel=kn), o('consensus', M=1, N=3, d=(1,), kernel=kn)]
    out += [o('consensus', M=1, N=2, d=(2,), kernel='Constant'), o('consensus', M=2, N=2, d=(1,), kernel='Constant', mode='const'),
            o('consensus', M=1, N=2, d=(2,), kernel='InverseQuadratic', mode='const'), o('consensus', M=2, N=2, d=(1,), kernel='InverseQuadratic', mode='const'),
            o('consensus', M=1, N=2, d=(1,), kernel='Taz'), o('consensus', M=2, N=2, d=(1,), kernel='Taz', mode='const')]
    for kn in ('Gaussian', 'Laplace', 'Constant', 'InverseQuadratic'):
        out += [o('common', M=1, N=2, d=(2,), kernel=kn), o('common', M=2, N=3, d=(1,), kernel=kn, active=(1,), mode='const'), o('common', M=1, N=3, d=(1,), kernel=kn, batch=(2, True)), o('common', M=2, N=3, d=(1,), kernel=kn, batch=(2, False))]
    for kn in ('Gaussian', 'Laplace', 'Constant', 'InverseQuadratic', 'Taz'):
        out += [o('single', kernel=kn, d=(2,)), o('single', kernel=kn, d=(1,), mode='const')]
        out += [o('kernels', kernel=kn, M=1, N=1, K=2, d=(2,)), o('kernels', kernel=kn, M=2, N=1, K=1, d=(1,)), o('kernels', kernel=kn, M=1, N=2, K=1, d=(2, 2))]
        if tier == 'thorough': out += [o('kernels', kernel=kn, M=2, N=2, K=1, d=(2,)), o('kernels', kernel=kn, M=1, N=2, K=2, d=(3,))]
    out += [o('covariance', M=1, N=2), o('covariance', M=2, N=2, mode='const'), o('covariance', M=2, N=2, active=(1,)), o('covariance', M=1, N=3, batch=(2, True)), o('covariance', M=2, N=3, batch=(2, False), active=(0,))]
    if tier == 'thorough': out += [o('consensus', M=3, N=3, d=(2,), active=(0, 2)), o('consensus', M=2, N=4, d=(1,), batch=(2, False)), o('consensus', M=2, N=3, d=(2,), kernel='Gaussian'), o('covariance', M=1, N=3)]
    return out
