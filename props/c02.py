"""C02 the consensus is finite and its weights form a convex combination, for energies of every magnitude."""
from props import common as C
BOUNDS = 'arbitrary energies with |alpha * energy| <= 1e300 and arbitrary alpha >= 0, M in {1,2}, N in {1,2,3}; one-hot particles make the weights visible; every consensus rule, kernel, mini-batches and finished runs; covariance, effective sample size, penalty mean, simplex map'
ASSUMPTIONS = ['exp and logsumexp follow the range model of symcbx/fprange.py (overflow, underflow, monotone; log-sum lost for |weights| >= 1e17); unshifted weights between 1e6 and 1e17 are not examined']

def limits(E, e, alpha):
    """alpha * energy is representable"""
    E.assume(E.leq(0.0, alpha))
    for v in e: E.assume(E.and_(E.leq(-1e150, v), E.leq(v, 1e150)))
    E.assume(E.leq(alpha, 1e150))

def convex(E, tag, w, e=None):
    for i, v in enumerate(w):
        E.check('%s: weight %d finite' % (tag, i), E.finite(v))
        E.check('%s: weight %d in [0,1]' % (tag, i), E.and_(E.leq(0.0, v), E.leq(v, 1.0 + 1e-6)))
    s = E.sum(list(w))
    E.check('%s: weights sum to one' % tag, E.and_(E.leq(1.0 - 1e-6, s), E.leq(s, 1.0 + 1e-6)))
    if e is not None:
        for i in range(len(w)):
            for j in range(len(w)):
                if i != j: E.check('%s: lower energy, larger weight %d %d' % (tag, i, j), E.implies(E.leq(e[i], e[j]), E.leq(w[j], w[i] + 1e-9)))

def onehot(E, M, N): return E.np.array([[[1.0 if i == k else 0.0 for k in range(N)] for i in range(N)] for m in range(M)])

def rule(E, which, M, N, check=False):
    """the weighted mean itself"""
    np = E.np
    e = E.array('e', (M, N)); a = E.array('alpha', (M, 1), lo=0)
    for m in range(M): limits(E, [e[m, j] for j in range(N)], a[m, 0])
    X = onehot(E, M, N)
    if which == 'default': c, en = E.mod('cbx.dynamics.pdyn').compute_consensus_default(check_coeffs=check)(e, X, a)
    elif which == 'rescale': c, en = E.mod('cbx.dynamics.hypersurfacecbo').compute_consensus_rescale(e, X, a)
    else: raise ValueError(which)
    E.check('shape', E.shape(c) == (M, 1, N))
    for m in range(M): convex(E, 'run %d' % m, [c[m, 0, k] for k in range(N)], [e[m, j] for j in range(N)])
    E.eq('energy', en, e)

def polar(E, M, N, factor='alpha', rows=True):
    """polar consensus for arbitrary non-negative kernel exponents"""
    np = E.np; P = E.mod('cbx.dynamics.polarcbo')
    e = E.array('e', (M, N)); a = E.array('alpha', (M, 1), lo=0); k = E.array('k', (M, N, N), lo=0)
    for m in range(M):
        limits(E, [e[m, j] for j in range(N)], a[m, 0])
        for i in range(N):
            for j in range(N): E.assume(E.and_(E.leq(0.0, k[m, i, j]), E.leq(k[m, i, j], 1e150)))
    if not rows: k = np.stack([k[:, 0]] * N, axis=1)
    X = onehot(E, M, N)
    fac = a[:, :, None] if factor == 'alpha' else 1
    c, en = P.compute_polar_consensus(e, X, k, alpha=a[:, :, None], kernel_factor=fac)
    E.check('shape', E.shape(c) == (M, N, N))
    for m in range(M):
        for i in range(N): convex(E, 'run %d particle %d' % (m, i), [c[m, i, q] for q in range(N)])

def dynamic(E, cls, M, N, batch=None, active=None, **kw):
    """one step of the dynamic from one-hot particles: its consensus consists of the weights"""
    np = E.np
    e = E.array('e', (N,)); A = E.array('alpha', (M, 1), lo=0)
    for m in range(M): limits(E, [e[j] for j in range(N)], A[m, 0])
    f = lambda x: (x * e).sum(axis=-1)
    dyn = C.build(E, cls, M, N, (N,), X=onehot(E, M, N), A=A, f=f, batch=batch, active=active, par=dict(dt=0.25, lamda=1.0, sigma=1.0), noise='constant', sampler=lambda size=None: np.zeros(size), **kw)
    dyn.terminate(); act = C.active_of(dyn)
    dyn.set_batch_idx()
    c = dyn.compute_consensus(dyn.y[dyn.consensus_idx], dyn.energy[dyn.consensus_idx]) if C.clsname(cls) == 'PSO' else dyn.compute_consensus()
    if c is None: c = dyn.consensus
    for k, m in enumerate(act):
        js = C.scheduled(dyn, m, N)
        for q in range(E.shape(c)[1]):
            w = [c[k, q, j] for j in js]
            for j in range(N):
                if j not in js: E.eq('run %d: no weight for the unscheduled %d' % (m, j), c[k, q, j], 0.0)
            convex(E, 'run %d row %d' % (m, q), w, None if C.clsname(cls) == 'PolarCBO' else [e[j] for j in js])

def covariance(E, cls, M, N, active=None):
    """the weights of the covariance sum to one: a drift of ones has the covariance one"""
    np = E.np
    A = E.array('alpha', (M, 1), lo=0); e = E.array('e', (M, N))
    dyn = C.build(E, cls, M, N, (1,), A=A, X=np.zeros((M, N, 1)), f=lambda x: 0.0 * x[..., 0], active=active, noise='covariance', sampler=lambda size=None: np.zeros(size), par=dict(dt=0.25, lamda=1.0, sigma=1.0))
    for m in range(M): limits(E, [e[m, j] for j in range(N)], A[m, 0])
    dyn.terminate(); dyn.set_batch_idx(); act = C.active_of(dyn)
    dyn.energy[...] = e
    dyn.drift = np.ones((len(act), N, 1))
    dyn.update_covariance()
    S = dyn.Cov_sqrt
    for ix in E.idx(E.shape(S)):
        v = S[ix]
        E.check('finite %s' % (ix,), E.finite(v))
        E.check('one %s' % (ix,), E.and_(E.leq(1.0 - 1e-6, v * v), E.leq(v * v, 1.0 + 1e-6)))

def sample_size(E, M, N, equal=False):
    """the effective sample size lies between one and N, and is N for equal energies"""
    np = E.np; S = E.mod('cbx.scheduler')
    e = E.array('e', (M, N)); a = E.array('alpha', (M,), lo=0)
    if equal: e = np.stack([e[:, 0]] * N, axis=1)
    for m in range(M): limits(E, [e[m, j] for j in range(N)], a[m])
    J = S.eff_sample_size_gap(e, 0.0)(a)
    for m in range(M):
        E.check('finite %d' % m, E.finite(J[m]))
        if equal: E.check('N for equal energies %d' % m, E.and_(E.leq(N - 1e-4, J[m]), E.leq(J[m], N + 1e-4)))
        else: E.check('positive %d' % m, E.leq(0.0, J[m]))

def penalty_mean(E, M, N):
    """the weighted mean of the constraint violation is a mean: it lies between the extremes"""
    np = E.np; R = E.mod('cbx.regularizers')
    e = E.array('e', (M, N)); a = E.array('alpha', (M, 1), lo=0); r = E.array('r', (M, N), lo=0)
    for m in range(M): limits(E, [e[m, j] for j in range(N)], a[m, 0])
    for v in [r[m, j] for m in range(M) for j in range(N)]: E.assume(E.leq(v, 1e6))
    class D: pass
    class F: pass
    d = D(); d.x = np.zeros((M, N, 1)); d.alpha = a; d.eval_f = lambda x: e; d.f = F(); d.f.reg_func = lambda x: r
    m_ = R.weighted_param_rule_mean(d)
    for m in range(M):
        E.check('finite %d' % m, E.finite(m_[m]))
        rs = [r[m, j] for j in range(N)]
        E.check('between %d' % m, E.and_(E.any([E.leq(q - 1e-3, m_[m]) for q in rs]), E.any([E.leq(m_[m], q + 1e-3) for q in rs])))

def simplex(E, d, n=1):
    """the entropic mirror map sends every dual point into the simplex"""
    np = E.np; mm = E.mod('cbx.dynamics.mirrorcbo').get_mirror_map('EntropySimplex')
    y = E.array('y', (1, n, d))
    for j in range(n):
        for k in range(d): E.assume(E.and_(E.leq(-1e300, y[0, j, k]), E.leq(y[0, j, k], 1e300)))
    z = mm.grad_conj(y)
    for j in range(n): convex(E, 'point %d' % j, [z[0, j, k] for k in range(d)])

def instances(tier):
    out = []; o = lambda h, **k: dict(h=h, params=k)
    for w in ('default', 'rescale'):
        out += [o('rule', which=w, M=1, N=n) for n in (1, 2, 3)] + [o('rule', which=w, M=2, N=2)]
    out += [o('rule', which='default', M=1, N=2, check=True)]
    out += [o('polar', M=1, N=n, factor=f) for n in (1, 2) for f in ('alpha', 'const')] + [o('polar', M=1, N=3, factor=f, rows=False) for f in ('alpha', 'const')]
    for cls in ('CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'MirrorCBO', 'DriftConstrainedCBO:none', 'RegCombinationCBO:none', 'HyperSurfaceCBO:sphere', 'PolarCBO', 'PolarCBO:Laplace', 'PolarCBO:Taz', 'PolarCBO:InverseQuadratic'):
        out.append(o('dynamic', cls=cls, M=1, N=2))
        if 'Polar' not in cls: out.append(o('dynamic', cls=cls, M=2, N=2, active=(1,)))
    out += [o('dynamic', cls='CBS', M=1, N=2), o('dynamic', cls='CBO', M=1, N=3), o('dynamic', cls='CBO', M=1, N=3, batch=(2, True)), o('dynamic', cls='CBO', M=1, N=3, batch=(2, False)), o('dynamic', cls='PSO', M=1, N=3, batch=(2, True)), o('dynamic', cls='CBOMemory', M=1, N=3, batch=(2, True)), o('dynamic', cls='PolarCBO', M=2, N=2, active=(0,))]
    out += [o('covariance', cls=c, M=m, N=n, **k) for c, m, n, k in (('CBO', 1, 2, {}), ('CBO', 1, 3, {}), ('CBO', 2, 2, dict(active=(1,))), ('CBS', 1, 2, {}), ('PolarCBO', 1, 2, {}), ('CBOMemory', 1, 2, {}))]
    out += [o('sample_size', M=m, N=n, equal=q) for m, n in ((1, 1), (1, 2), (2, 2), (1, 3)) for q in (False, True)]
    out += [o('penalty_mean', M=1, N=n) for n in (1, 2, 3)] + [o('penalty_mean', M=2, N=2)] + [o('simplex', d=d) for d in (1, 2, 3)] + [o('simplex', d=2, n=2)]
    if tier == 'thorough':
        out += [o('rule', which=w, M=1, N=4) for w in ('default', 'rescale')] + [o('polar', M=1, N=3, factor=f) for f in ('alpha', 'const')] + [o('sample_size', M=1, N=4), o('simplex', d=4), o('penalty_mean', M=1, N=4)]
    for i in out: i.update(fp_exp=True, eager=True)
    return out
