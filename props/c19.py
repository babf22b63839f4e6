"""C19 mirror maps are inverse to their conjugates and project onto their domain."""
from props import common as C
from props.c03 import Recorder, row
from props.c17 import stencil, regular
BOUNDS = 'every primal and dual point, radius, centre, normal, weight; ensembles up to (2,2,d), d <= 3; 2x2 and (n,1) Stiefel matrices; mirror steps for M <= 2, N <= 2, up to 2 steps'
ASSUMPTIONS = ['np.linalg.svd returns a singular value decomposition; points without a unique projection (zero vector on a sphere) are excluded']

def get(E, spec): return E.mod('cbx.dynamics.mirrorcbo').get_mirror_map(spec)
def pts(E, shape): return [tuple(i) for i in E.idx(shape[:-1])]
def interior(E, name, shape, arr):
    """restrict arr to the open domain of the map"""
    for ix in pts(E, shape):
        v = [arr[ix + (i,)] for i in range(shape[-1])]
        if name in ('LogBarrierBox', 'NonsmoothBarrier'):
            for t in v: E.assume(E.and_(E.strict(-1.0, t), E.strict(t, 1.0)))

def domain(E, name, shape, tag='x'):
    d = shape[-1]
    if name in ('EntropySimplex',):
        w = E.array(tag, shape, pos=True)
        x = w / w.sum(axis=-1, keepdims=True)
        for ix in E.idx(shape): E.assume(E.strict(1e-30, x[ix]))
        return x
    if name == 'Entropy': return E.array(tag, shape, pos=True)
    x = E.array(tag, shape)
    interior(E, name, shape, x)
    return x

def spec_of(E, name, d):
    if name == 'L2': return dict(name='L2', lamda=E.real('lam', pos=True))
    if name == 'ElasticNet': return dict(name='ElasticNet', delta=E.real('delta', pos=True), lamda=E.real('lam', pos=True))
    if name == 'weighted_L2': return dict(name='weighted_L2', A=E.array('A', (d, d)))
    if name == 'weighted_L2_default': return 'weighted_L2'
    if name == 'None': return None
    return name

def wmatrix(spec, d):
    if isinstance(spec, dict) and 'A' in spec: A = spec['A']; return [[(A[i, j] + A[j, i]) / 2.0 for j in range(d)] for i in range(d)]
    return [[1.0 if i == j else 0.0 for j in range(d)] for i in range(d)]

def grad_formula(E, name, spec, x):
    d = len(x)
    sgn = lambda t: E.ite(E.strict(0.0, t), 1.0, E.ite(E.strict(t, 0.0), -1.0, 0.0))
    if name in ('L2', 'None'): l = spec['lamda'] if spec else 1.0; return [l * t for t in x]
    if name.startswith('weighted'): W = wmatrix(spec, d); return [E.sum([W[i][j] * x[j] for j in range(d)]) for i in range(d)]
    if name == 'ElasticNet': return [t / spec['delta'] + spec['lamda'] * sgn(t) for t in x]
    if name == 'LogBarrierBox': return [1.0 / (1.0 - t) - 1.0 / (1.0 + t) for t in x]
    if name == 'NonsmoothBarrier': return [sgn(t) / ((1.0 - E.abs(t)) * (1.0 - E.abs(t))) for t in x]
    if name == 'EntropySimplex': return [E.log(t) + 1.0 for t in x]
    if name == 'Entropy': return [-E.log(t + 2.0 ** -23) - 1.0 for t in x]

def inverse(E, name, shape):
    d = shape[-1]; spec = spec_of(E, name, d); mm = get(E, spec)
    x = domain(E, name, shape); x0 = x.copy()
    if name == 'weighted_L2': W = wmatrix(spec, d); regular(E, d, [()], lambda ix, i, j: W[i][j] - (1.0 if i == j else 0.0))
    g = mm.grad(x); b = mm.grad_conj(g)
    E.check('shapes', E.shape(g) == shape and E.shape(b) == shape)
    for ix in pts(E, shape):
        want = grad_formula(E, name, spec, [x0[ix + (i,)] for i in range(d)])
        for i in range(d):
            E.eq('gradient %s' % (ix + (i,),), g[ix + (i,)], want[i])
            if name == 'Entropy': E.eq('conjugate inverts the gradient up to the regularisation %s' % (ix + (i,),), b[ix + (i,)], x0[ix + (i,)] + 2.0 ** -23)
            else: E.eq('conjugate inverts the gradient %s' % (ix + (i,),), b[ix + (i,)], x0[ix + (i,)])
    E.eq('input', x, x0)

def dual(E, name, shape):
    """the conjugate at every dual point lies in the domain and the gradient recovers the dual point where it can"""
    d = shape[-1]; spec = spec_of(E, name, d); mm = get(E, spec)
    y = E.array('y', shape); y0 = y.copy()
    if name == 'weighted_L2': W = wmatrix(spec, d); regular(E, d, [()], lambda ix, i, j: W[i][j] - (1.0 if i == j else 0.0))
    p = mm.grad_conj(y)
    E.check('shape', E.shape(p) == shape)
    for ix in pts(E, shape):
        P = [p[ix + (i,)] for i in range(d)]; Y = [y0[ix + (i,)] for i in range(d)]
        if name in ('LogBarrierBox', 'NonsmoothBarrier'):
            for i in range(d): E.check('inside the box %s' % (ix + (i,),), E.and_(E.strict(-1.0, P[i]), E.strict(P[i], 1.0)))
        if name == 'EntropySimplex':
            E.eq('sum one %s' % (ix,), E.sum(P), 1.0)
            for i in range(d):
                E.le('non-negative %s' % (ix,), 0.0, P[i])
                E.eq('proportional to exp %s' % (ix + (i,),), P[i] * E.sum([E.exp(t) for t in Y]), E.exp(Y[i]))
            continue
        if name == 'Entropy':
            for i in range(d): E.eq('exponential %s' % (ix + (i,),), P[i], E.exp(-Y[i] - 1.0))
            continue
        back = grad_formula(E, name, spec, P)
        for i in range(d):
            th = spec['lamda'] if name == 'ElasticNet' else 1.0
            if name in ('ElasticNet', 'NonsmoothBarrier'):
                if E.decided(E.strict(th, E.abs(Y[i]))): E.eq('gradient inverts the conjugate %s' % (ix + (i,),), back[i], Y[i])
                else: E.eq('zero %s' % (ix + (i,),), P[i], 0.0)
            else: E.eq('gradient inverts the conjugate %s' % (ix + (i,),), back[i], Y[i])
    E.eq('input', y, y0)

def values(E, name, shape):
    """values, second derivatives and Bregman distances"""
    d = shape[-1]; spec = spec_of(E, name, d); mm = get(E, spec)
    x = domain(E, name, shape); q = domain(E, name, shape, 'q'); F = mm(x)
    E.check('one value per particle', E.shape(F) == shape[:-1])
    for ix in pts(E, shape):
        X = [x[ix + (i,)] for i in range(d)]
        if name in ('L2', 'None'): E.eq('value %s' % (ix,), F[ix], (spec['lamda'] if spec else 1.0) / 2.0 * E.sum([t * t for t in X]))
        elif name.startswith('weighted'): W = wmatrix(spec, d); E.eq('value %s' % (ix,), F[ix], 0.5 * E.sum([X[i] * W[i][j] * X[j] for i in range(d) for j in range(d)]))
        elif name == 'ElasticNet': E.eq('value %s' % (ix,), F[ix], E.sum([t * t for t in X]) / (2.0 * spec['delta']) + spec['lamda'] * E.sum([E.abs(t) for t in X]))
        elif name == 'NonsmoothBarrier': E.eq('value %s' % (ix,), F[ix], E.sum([E.abs(t) / (1.0 - E.abs(t)) for t in X]))
        elif name == 'LogBarrierBox': E.eq('value %s' % (ix,), F[ix], E.sum([-E.log(1.0 - t) - E.log(1.0 + t) for t in X]))
        elif name == 'Entropy': E.eq('value %s' % (ix,), F[ix], E.sum([-t * E.log(t) for t in X]))
    B = mm.Bregman_distance(x, q); G = mm.grad(q); Fq = mm(q)
    E.check('one distance per particle', E.shape(B) == shape[:-1])
    for ix in pts(E, shape):
        E.eq('Bregman distance %s' % (ix,), B[ix], F[ix] - Fq[ix] - E.sum([G[ix + (i,)] * (x[ix + (i,)] - q[ix + (i,)]) for i in range(d)]))

def hessians(E, name, n, d):
    spec = spec_of(E, name, d); mm = get(E, spec); x = domain(E, name, (n, d))
    if name == 'NonsmoothBarrier':
        for ix in E.idx((n, d)): E.assume(E.not_(E.same(x[ix], 0.0)))
    H = mm.hessian(x)
    E.check('shape', E.shape(H) == (n, d, d))
    for k in range(n):
        for i in range(d):
            for j in range(d):
                t = x[k, i]
                if name in ('L2', 'None'): w = spec['lamda'] if spec else 1.0
                elif name.startswith('weighted'): w = wmatrix(spec, d)[i][j]
                elif name == 'LogBarrierBox': w = 1.0 / ((1.0 - t) * (1.0 - t)) + 1.0 / ((1.0 + t) * (1.0 + t))
                elif name == 'NonsmoothBarrier': a = 1.0 - E.abs(t); w = 2.0 / (a * a * a)
                if i != j and not name.startswith('weighted'): w = 0.0
                E.eq('second derivative %d %d %d' % (k, i, j), H[k, i, j], w)

# ---------------------------------------------------------------------------------------------- projections
def proj_of(E, name, d):
    if name == 'ball':
        r = E.real('r', pos=True); c = E.array('c', (d,))
        def f(y):
            n = E.norm2([p - q for p, q in zip(y, c)])
            return [q + (p - q) / E.max(1.0, n / r) for p, q in zip(y, c)]
        return dict(name='ProjectionBall', radius=r, center=c), f, lambda p: [('le', E.sum([(a - b) * (a - b) for a, b in zip(p, c)]), r * r)], lambda y: E.leq(E.sum([(a - b) * (a - b) for a, b in zip(y, c)]), r * r)
    if name == 'ball_default':
        return 'ProjectionBall', (lambda y: [t / E.max(1.0, E.norm2(y)) for t in y]), (lambda p: [('le', E.sum([t * t for t in p]), 1.0)]), (lambda y: E.leq(E.sum([t * t for t in y]), 1.0))
    if name.startswith('plane'):
        if name == 'plane': a = E.array('a', (d,)); b = E.real('b'); spec = dict(name='ProjectionHyperplane', a=a.copy(), b=b)
        elif name == 'plane3': a = E.array('a', (1, 1, d)); b = E.real('b'); spec = dict(name='ProjectionHyperplane', a=a.copy(), b=b); a = a[0, 0]
        else: a = [1.0] * d; b = 0.0; spec = 'ProjectionHyperplane'
        n2 = E.sum([t * t for t in a]); E.assume(E.not_(E.same(n2, 0.0)))
        return spec, (lambda y: [t - (E.sum([p * q for p, q in zip(a, y)]) - b) / n2 * w for t, w in zip(y, a)]), (lambda p: [('eq', E.sum([u * v for u, v in zip(a, p)]), b)]), None
    if name == 'sphere':
        r = E.real('r', pos=True)
        return dict(name='ProjectionSphere', r=r), (lambda y: [r * t / E.norm2(y) for t in y]), (lambda p: [('eq', E.sum([t * t for t in p]), r * r)]), None
    if name in ('square', 'square_default'):
        r = E.real('r', pos=True) if name == 'square' else 1.0
        def cond(p):
            m = E.abs(p[0])
            for t in p[1:]: m = E.max(m, E.abs(t))
            return [('eq', m, r)]
        return (dict(name='ProjectionSquare', r=r) if name == 'square' else 'ProjectionSquare'), None, cond, None

def project(E, name, shape):
    d = shape[-1]; spec, f, cond, inside = proj_of(E, name, d); mm = get(E, spec)
    y = E.array('y', shape); y0 = y.copy()
    if name == 'sphere':
        for ix in pts(E, shape): E.assume(E.not_(E.same(E.sum([y[ix + (i,)] * y[ix + (i,)] for i in range(d)]), 0.0)))
    g = mm.grad(y); E.eq('gradient is the identity', g, y0)
    p = mm.grad_conj(y)
    E.check('shape', E.shape(p) == shape)
    for ix in pts(E, shape):
        P = [p[ix + (i,)] for i in range(d)]; Y = [y0[ix + (i,)] for i in range(d)]
        for kind, a, b in cond(P): getattr(E, kind)('on the set %s' % (ix,), a, b)
        if f is not None:
            w = f(Y)
            for i in range(d): E.eq('nearest point %s' % (ix + (i,),), P[i], w[i])
        if inside is not None and E.decided(inside(Y)):
            for i in range(d): E.eq('point of the set is kept %s' % (ix + (i,),), P[i], Y[i])
    if name.startswith('square'):
        q = E.array('q', (d,)); r = spec['r'] if isinstance(spec, dict) else 1.0
        for t in q: E.assume(E.and_(E.leq(-r, t), E.leq(t, r)))
        E.assume(E.any([E.same(E.abs(t), r) for t in q]))
        for ix in pts(E, shape):
            E.le('no point of the boundary is nearer %s' % (ix,), E.sum([(y0[ix + (i,)] - p[ix + (i,)]) * (y0[ix + (i,)] - p[ix + (i,)]) for i in range(d)]), E.sum([(y0[ix + (i,)] - q[i]) * (y0[ix + (i,)] - q[i]) for i in range(d)]))
    E.eq('input', y, y0)

def idempotent(E, name, shape):
    d = shape[-1]; spec, f, cond, inside = proj_of(E, name, d); mm = get(E, spec)
    y = E.array('y', shape)
    if name == 'sphere':
        for ix in pts(E, shape): E.assume(E.not_(E.same(E.sum([y[ix + (i,)] * y[ix + (i,)] for i in range(d)]), 0.0)))
    p = mm.grad_conj(y); pp = mm.grad_conj(p.copy())
    for ix in E.idx(shape): E.eq('idempotent %s' % (ix,), pp[ix], p[ix])

def ball_value(E, shape):
    d = shape[-1]; r = E.real('r', pos=True); c = E.array('c', (d,)); mm = get(E, dict(name='ProjectionBall', radius=r, center=c))
    x = E.array('x', shape); F = mm(x)
    E.check('shape', E.shape(F) == shape[:-1])
    for ix in pts(E, shape):
        n = E.norm2([x[ix + (i,)] - c[i] for i in range(d)])
        if E.decided(E.leq(n, r)): E.eq('value inside %s' % (ix,), F[ix], 0.5 * E.sum([x[ix + (i,)] * x[ix + (i,)] for i in range(d)]))
        elif E.decided(E.strict(r + 1e-4, n)): E.check('outside %s' % (ix,), not E.finite(F[ix]) if isinstance(E.finite(F[ix]), (bool,)) else E.not_(E.finite(F[ix])))

def stiefel(E, nk, shape):
    m = E.mod('cbx.dynamics.mirrorcbo'); mm = m.ProjectionStiefel(nk=nk)
    n, k = nk; y = E.array('y', shape); y0 = y.copy()
    if k == 1:
        for ix in pts(E, shape): E.assume(E.not_(E.same(E.sum([y[ix + (i,)] * y[ix + (i,)] for i in range(n)]), 0.0)))
    p = mm.grad_conj(y); E.check('shape', E.shape(p) == shape)
    for ix in pts(E, shape):
        X = [[p[ix + (i * k + j,)] for j in range(k)] for i in range(n)]; Y = [[y0[ix + (i * k + j,)] for j in range(k)] for i in range(n)]
        for a in range(k):
            for b in range(a + 1): E.eq('orthonormal columns %s' % (ix,), E.sum([X[r][a] * X[r][b] for r in range(n)]), 1.0 if a == b else 0.0)
        if k == 1:
            for i in range(n): E.eq('nearest %s' % (ix,), X[i][0] * E.norm2([q[0] for q in Y]), Y[i][0])
        else:
            U, s, V = E.np.linalg.svd(E.np.stack([E.np.stack(q) for q in Y]), full_matrices=False); W = U @ V
            for i in range(n):
                for j in range(k): E.eq('polar factor %s' % (ix,), X[i][j], W[i, j])
    E.eq('input', y, y0)

# ---------------------------------------------------------------------------------------------- the dynamic
MAPS = {'none': None, 'l2': 'L2', 'elastic': 'ElasticNet', 'ball': 'ball', 'plane': 'plane', 'sphere': 'sphere', 'log': 'LogBarrierBox', 'simplex': 'EntropySimplex'}
def conj_formula(E, name, spec, f, y):
    if name in ('none', 'l2'): return [t / (spec['lamda'] if spec else 1.0) for t in y]
    if name == 'elastic': return [spec['delta'] * E.ite(E.strict(0.0, t), 1.0, -1.0) * E.max(E.abs(t) - spec['lamda'], 0.0) for t in y]
    if name == 'log': return [t / (1.0 + E.sqrt(1.0 + t * t)) for t in y]
    if name == 'simplex': return [E.exp(t) / E.sum([E.exp(u) for u in y]) for t in y]
    return f(y)

def dynamic(E, name, M, N, d, active=None, batch=None, steps=1, obj=False):
    f = None
    if name == 'none': spec = None
    elif name in ('l2', 'elastic', 'log', 'simplex'): spec = spec_of(E, MAPS[name], d)
    else: spec, f, cond, _ = proj_of(E, MAPS[name], d)
    X = domain(E, MAPS[name], (M, N, d)) if name in ('log', 'simplex') else E.array('x', (M, N, d))
    par = C.params(E); par['dt'] = E.real('dt', pos=True); rec = Recorder(E)
    mm = get(E, spec) if obj else spec
    dyn = C.build(E, 'MirrorCBO', M, N, (d,), active=active, batch=batch, noise=rec, par=par, X=X, mirrormap=mm)
    k = [0]
    def cons(energy, x, alpha):
        k[0] += 1
        return E.array('c#%d' % k[0], (len(energy), 1, d)), energy
    dyn._compute_consensus = cons
    if name == 'sphere':
        orig = dyn.mirrormap.grad_conj
        def conj(y):                            # the projection is defined at the point the step reaches
            for ix in E.idx(E.shape(y)[:-1]): E.assume(E.not_(E.same(E.sum([t * t for t in y[ix]]), 0.0)))
            return orig(y)
        dyn.mirrormap.grad_conj = conj
    for r in range(M):
        for j in range(N):
            w = grad_formula(E, {'none': 'None'}.get(name, MAPS[name]), spec, list(X[r, j])) if name in ('none', 'l2', 'elastic', 'log', 'simplex') else list(X[r, j])
            for i in range(d): E.eq('initial dual variable', dyn.y[r, j, i], w[i])
    dyn.terminate()
    for s in range(steps):
        x0, y0 = dyn.x.copy(), dyn.y.copy()
        dyn.step()
        act = C.active_of(dyn); c = dyn.consensus
        for r in range(M):
            kk = act.index(r) if r in act else None; mv = C.moved(dyn, r, N) if r in act else []
            for j in range(N):
                if j not in mv:
                    E.eq('untouched primal', dyn.x[r, j], x0[r, j]); E.eq('untouched dual', dyn.y[r, j], y0[r, j]); continue
                nz = [row(E, rec.value, dyn, kk, r, j, (i,), M, N) for i in range(d)]
                yn = [y0[r, j, i] - par['lamda'] * par['dt'] * (x0[r, j, i] - c[kk, 0, i]) + par['sigma'] * nz[i] for i in range(d)]
                for i in range(d): E.eq('dual step %d: %d,%d,%d' % (s, r, j, i), dyn.y[r, j, i], yn[i])
                w = conj_formula(E, name, spec, f, yn)
                for i in range(d): E.eq('primal step %d: %d,%d,%d' % (s, r, j, i), dyn.x[r, j, i], w[i])

def plain(E, M, N, d, mm, batch=None, active=None, noise='isotropic', steps=2):
    """without a mirror map the dynamic is plain CBO"""
    par = C.params(E); f = E.objective('f'); X = E.array('x', (M, N, d)); A = E.array('alpha', (M, 1), pos=True); out = []
    for cls in ('CBO', 'MirrorCBO'):
        kw = dict(mirrormap=mm) if cls == 'MirrorCBO' else {}
        dyn = C.build(E, cls, M, N, (d,), active=active, batch=batch, noise=noise, par=par, f=f, X=X, A=A, **kw); dyn.terminate()
        h = []
        for s in range(steps): dyn.step(); h.append((dyn.x.copy(), dyn.best_energy.copy(), dyn.best_particle.copy()))
        out.append(h)
    for s in range(steps):
        for nm, a, b in zip(('particles', 'best energy', 'best particle'), out[0][s], out[1][s]): E.eq('step %d %s' % (s, nm), b, a)

def prox(E, shape):
    """a mirror map as post processing replaces the particles by their projection"""
    m = E.mod('cbx.dynamics.mirrorcbo')
    r = E.real('r', pos=True); c = E.array('c', (shape[-1],))
    pp = m.MirrorMaptoPostProcessProx(m.ProjectionBall)(radius=r, center=c)
    class D: pass
    dyn = D(); dyn.x = E.array('x', shape); x0 = dyn.x.copy()
    pp(dyn)
    for ix in pts(E, shape):
        y = [x0[ix + (i,)] for i in range(shape[-1])]; n = E.norm2([p - q for p, q in zip(y, c)])
        for i in range(shape[-1]): E.eq('projected %s' % (ix + (i,),), dyn.x[ix + (i,)], E.ite(E.leq(n, r), y[i], c[i] + r * (y[i] - c[i]) / n))

def instances(tier):
    o = lambda h, **k: dict(h=h, params=k)
    out = []
    for nm in ('L2', 'None', 'weighted_L2', 'weighted_L2_default', 'ElasticNet', 'LogBarrierBox', 'NonsmoothBarrier', 'EntropySimplex', 'Entropy'):
        for s in ((1, 1, 2), (1, 2, 1), (2, 1, 1 if nm in ('NonsmoothBarrier', 'ElasticNet') else 2)):
            if s[2] == 1 and nm == 'EntropySimplex': continue
            out += [o('inverse', name=nm, shape=s), o('dual', name=nm, shape=s)]
            if nm != 'EntropySimplex': out.append(o('values', name=nm, shape=s))
        if nm in ('L2', 'None', 'weighted_L2', 'weighted_L2_default', 'LogBarrierBox', 'NonsmoothBarrier'): out.append(o('hessians', name=nm, n=2, d=2))
    for nm in ('ball', 'ball_default', 'plane', 'plane3', 'plane_default', 'sphere', 'square', 'square_default'):
        out += [o('project', name=nm, shape=s) for s in ((1, 2, 1), (2, 1, 1), (1, 1, 2), (1, 1, 3)) if nm != 'square' or s[2] < 3]
    out += [dict(o('idempotent', name=nm, shape=s), validate=0) for nm in ('ball', 'plane', 'sphere', 'square') for s in ((1, 2, 1), (1, 1, 2))]     # rounding decides which branch a projected point takes
    out += [o('ball_value', shape=(1, 2, 2)), o('stiefel', nk=(2, 1), shape=(1, 2, 2)), o('stiefel', nk=(3, 1), shape=(2, 1, 3)), o('stiefel', nk=(2, 2), shape=(1, 1, 4)), o('prox', shape=(2, 1, 2))]
    for nm in MAPS:
        out += [o('dynamic', name=nm, M=1, N=2, d=2), o('dynamic', name=nm, M=2, N=1, d=2, active=[1])]
    out += [o('dynamic', name='elastic', M=1, N=2, d=1, batch=(1, True)), o('dynamic', name='ball', M=1, N=2, d=1, batch=(1, False)), o('dynamic', name='l2', M=2, N=2, d=1, steps=2), o('dynamic', name='plane', M=1, N=1, d=2, steps=2, obj=True)]
    out += [o('plain', M=1, N=2, d=2, mm=None), o('plain', M=2, N=1, d=1, mm='None', active=[0]), o('plain', M=1, N=2, d=1, mm='L2', batch=(1, True)), o('plain', M=1, N=2, d=1, mm=None, batch=(1, False), noise='anisotropic')]
    if tier == 'thorough':
        out += [o('project', name=nm, shape=(2, 2, 3)) for nm in ('ball', 'plane', 'sphere')] + [o('dynamic', name=nm, M=2, N=2, d=2, batch=(1, True)) for nm in ('none', 'elastic', 'plane')]
        out += [o(h, name=nm, shape=(1, 2, 3)) for nm in ('LogBarrierBox', 'EntropySimplex', 'ElasticNet', 'L2') for h in ('inverse', 'dual')]
        out += [o('plain', M=2, N=2, d=2, mm=None), o('plain', M=1, N=2, d=1, mm=None, steps=3)]
    return out
