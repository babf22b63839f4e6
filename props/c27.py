"""C27 regularised objectives: value, per-run weight, penalty scheduling."""
from props import common as C
BOUNDS = 'M in {1,2,3}, N in {1,2,3}, d in {1,2,3}; arbitrary objective and penalty functions, the five named penalties, p in {1,2,3}, scalar and per-run weights, active subsets; one to three scheduler updates with arbitrary factors and limits, both averaging rules'

def reg_of(E, name, d):
    """(argument for the constructor, penalty of a point)"""
    if name == 'any':
        g = E.objective('R', ddims=1); return g, lambda p: g(E.np.stack(p))
    lam = E.real('reg', pos=True)
    if name == 'L1': return dict(name='L1', lamda=lam), lambda p: lam * E.sum([E.abs(v) for v in p])
    if name == 'L0': return dict(name='L0', lamda=lam), lambda p: lam * E.sum([E.ite(E.leq(E.abs(v), 1e-8), 0.0, 1.0) for v in p])
    if name == 'L1s': return 'L1', lambda p: E.sum([E.abs(v) for v in p])
    if name == 'L0s': return 'L0', lambda p: E.sum([E.ite(E.leq(E.abs(v), 1e-8), 0.0, 1.0) for v in p])
    if name == 'Plane':
        a = E.array('a', (d,)); b = E.real('b'); E.assume(E.strict(0.0, E.sum([a[i] * a[i] for i in range(d)])))
        return dict(name='Plane', a=a, b=b), lambda p: E.abs(E.sum([a[i] * p[i] for i in range(d)]) - b) / E.norm2([a[i] for i in range(d)])
    if name == 'Sphere':
        r = E.real('r', pos=True); return dict(name='Sphere', r=r), lambda p: E.abs(E.norm2(p) - r)
    if name == 'Spheres': return 'Sphere', lambda p: E.abs(E.norm2(p) - 1.0)
    if name == 'Quadric':
        A = E.array('A', (d, d)); b = E.array('bb', (d,)); c = E.real('cc')
        return dict(name='Quadric', A=A, b=b, c=c), lambda p: E.abs(E.sum([p[i] * A[i, j] * p[j] for i in range(d) for j in range(d)]) + E.sum([b[i] * p[i] for i in range(d)]) + c)

def value(E, reg, M, N, d, p=1, lam='scalar', active=None, twice=False):
    R = E.mod('cbx.regularizers')
    f = E.objective('f', ddims=1)
    arg, pen = reg_of(E, reg, d)
    L = E.real('lamda', pos=True) if lam in ('scalar', 'broadcast') else E.array('lamda', (M, 1), lo=0)
    ob = R.regularize_objective(f, arg, lamda=L if lam in ('scalar', 'broadcast') else L.copy(), lamda_broadcasted=lam == 'runs', p=p)
    X = E.array('x', (M, N, d))
    if lam == 'broadcast': ob.broadcast_lamda(X); ob.broadcast_lamda(X); E.check('one weight per run', E.shape(ob.lamda) == (M, 1))
    act = list(range(M))
    if active is not None: act = list(active); ob.set_active_runs(E.np.array(act))
    x = X[act]; x0 = x.copy()
    y = ob(x)
    E.check('shape', E.shape(y) == (len(act), N))
    for k, m in enumerate(act):
        for n in range(N):
            w = L if lam in ('scalar', 'broadcast') else L[m, 0]
            t = pen([x0[k, n, i] for i in range(d)]); q = t
            for _ in range(p - 1): q = q * t
            E.eq('value %d,%d' % (m, n), y[k, n], f(x0[k, n]) + w * q)
    E.eq('argument', x, x0)

def dynamic(E, cls, M, N, d, active=None, batch=None):
    """energies of a dynamic with a regularised objective use the weight of the particle's own run"""
    R = E.mod('cbx.regularizers')
    f = E.objective('f', ddims=1); g = E.objective('R', ddims=1)
    L = E.array('lamda', (M, 1), lo=0)
    ob = R.regularize_objective(f, g, lamda=L.copy(), lamda_broadcasted=True)
    dyn = C.build(E, cls, M, N, (d,), active=active, batch=batch, f=ob)
    dyn.terminate(); X = dyn.x.copy()
    dyn.step()
    for m in C.active_of(dyn):
        if cls not in ('CBOMemory', 'PSO'):
            for n in C.scheduled(dyn, m, N): E.eq('energy %d,%d' % (m, n), dyn.energy[m, n], f(X[m, n]) + L[m, 0] * g(X[m, n]))
        b = dyn.best_particle[m]
        E.eq('best energy %d' % m, dyn.best_energy[m], f(b) + L[m, 0] * g(b))
    E.eq('weights', ob.lamda, L)

def regcombination(E, M, N, d, active=None, var='sphere'):
    """RegCombinationCBO optimises f + (1/nu) * sum of squared constraints"""
    f = E.objective('f', ddims=1); nu = E.real('nu', pos=True)
    dyn = C.build(E, 'RegCombinationCBO:' + var, M, N, (d,), active=active, f=f, nu=nu)
    dyn.terminate(); X = dyn.x.copy(); act = C.active_of(dyn)
    y = dyn.f(X[act])
    for k, m in enumerate(act):
        for n in range(N):
            p = [X[m, n, i] for i in range(d)]
            if var == 'sphere': v = E.sum([t * t for t in p]) - 1.0; pen = v * v
            elif var == 'none': pen = 0.0
            else: v = E.sum([c * t for c, t in zip((3.0, 4.0), p)]) - 0.5; pen = v * v / sum(c * c for c in (3.0, 4.0)[:d])
            E.eq('value %d,%d' % (m, n), y[k, n], f(X[m, n]) + pen / nu)

class Dyn:
    def __init__(self, E, M, N, d, f):
        self.x = E.array('x', (M, N, d)); self.alpha = E.array('alpha', (M, 1), pos=True); self.f = f; self.M = M; self.N = N
    def eval_f(self, x): return self.f(x)

def update(E, M, N, rule, steps=1, fixed=True, start='scalar'):
    R = E.mod('cbx.regularizers')
    f = E.objective('f', ddims=1); g = E.objective('R', ddims=1)
    if fixed: fl, ft, lmax, tmax = 1.1, 1.25, E.real('lamda_max', pos=True), E.real('theta_max', pos=True)
    else: fl, ft = E.real('factor_lamda', lo=1), E.real('factor_theta', lo=1); lmax, tmax = E.real('lamda_max', pos=True), E.real('theta_max', pos=True)
    L0 = E.real('lamda0', pos=True) if start == 'scalar' else E.array('lamda0', (M, 1), pos=True)
    th0 = E.real('theta0', pos=True)
    E.assume(E.leq(th0, tmax))
    for m in range(M): E.assume(E.leq(L0 if start == 'scalar' else L0[m, 0], lmax))
    ob = R.regularize_objective(f, g, lamda=L0, lamda_broadcasted=start != 'scalar')
    kw = {} if rule is None else dict(rule_mean=rule)
    s = R.regularization_paramter_scheduler(theta=th0, theta_max=tmax, factor_theta=ft, factor_lamda=fl, lamda_max=lmax, **kw)
    dyn = Dyn(E, M, N, 1, ob)
    lam = [L0 if start == 'scalar' else L0[m, 0] for m in range(M)]; th = [th0] * M
    for k in range(steps):
        if k: dyn.x = E.array('x%d' % k, (M, N, 1))
        s.update(dyn)
        E.check('one weight per run', E.shape(ob.lamda) == (M, 1)); E.check('one tolerance per run', E.shape(s.theta) == (M,))
        for m in range(M):
            Rs = [g(dyn.x[m, n]) for n in range(N)]
            if rule == 'simple': mean = E.sum(Rs) / N
            else:
                w = [E.exp(-dyn.alpha[m, 0] * (f(dyn.x[m, n]) + lam[m] * Rs[n])) for n in range(N)]
                mean = E.sum([a * b for a, b in zip(w, Rs)]) / E.sum(w)
            ok = E.leq(mean, 1 / E.sqrt(th[m]))
            t = E.ite(ok, E.min(th[m] * ft, tmax), th[m] / ft)
            l = E.ite(ok, lam[m], E.min(lam[m] * fl, lmax))
            E.eq('step %d tolerance %d' % (k, m), s.theta[m], t)
            E.eq('step %d weight %d' % (k, m), ob.lamda[m, 0], l)
            E.le('weight limit %d' % m, ob.lamda[m, 0], lmax); E.le('weight not negative %d' % m, 0.0, ob.lamda[m, 0]); E.le('tolerance limit %d' % m, s.theta[m], tmax)
            th[m] = s.theta[m]; lam[m] = ob.lamda[m, 0]

def instances(tier):
    o = lambda h, **k: dict(h=h, params=k)
    out = [o('value', reg='any', M=2, N=2, d=2), o('value', reg='any', M=2, N=2, d=1, lam='runs'), o('value', reg='any', M=3, N=1, d=1, lam='runs', active=(0, 2)), o('value', reg='any', M=3, N=2, d=2, lam='runs', active=(1,)),
           o('value', reg='any', M=2, N=2, d=1, lam='broadcast'), o('value', reg='any', M=3, N=1, d=1, lam='broadcast', active=(0, 2)), o('value', reg='any', M=2, N=1, d=2, lam='scalar', active=(1,)), o('value', reg='any', M=1, N=2, d=1, p=2), o('value', reg='any', M=2, N=1, d=2, p=3, lam='runs'), o('value', reg='any', M=1, N=1, d=1, lam='runs')]
    for r in ('L0', 'L1', 'L0s', 'L1s', 'Plane', 'Sphere', 'Spheres', 'Quadric'):
        out += [o('value', reg=r, M=1, N=2, d=2), o('value', reg=r, M=2, N=1, d=1), o('value', reg=r, M=1, N=1, d=3)]
        if r in ('L1', 'Sphere', 'Plane'): out += [o('value', reg=r, M=2, N=1, d=2, p=2, lam='runs')]
    for cls in ('CBO', 'CBOMemory', 'PSO', 'CBS', 'PolarCBO'): out += [o('dynamic', cls=cls, M=2, N=2, d=1), o('dynamic', cls=cls, M=3, N=2, d=1, active=(0, 2))]
    out += [o('dynamic', cls='CBO', M=2, N=3, d=1, active=(1,), batch=(2, True)), o('dynamic', cls='CBO', M=2, N=2, d=2, active=(1,), batch=(1, False))]
    for v in ('sphere', 'plane', 'none'): out += [o('regcombination', M=2, N=2, d=2, var=v), o('regcombination', M=3, N=1, d=1, active=(0, 2), var=v)]
    for r in ('simple', 'weighted', None):
        out += [o('update', M=1, N=2, rule=r), o('update', M=2, N=2, rule=r, start='runs'), o('update', M=2, N=1, rule=r, fixed=False), o('update', M=1, N=1, rule=r, steps=2, start='runs')]
    out += [o('update', M=3, N=2, rule='simple', steps=2), o('update', M=1, N=3, rule='weighted')]
    if tier == 'thorough': out += [o('update', M=2, N=2, rule='weighted', steps=2), o('update', M=2, N=3, rule='simple', steps=3, start='runs'), o('dynamic', cls='CBO', M=3, N=3, d=2, active=(0, 2), batch=(2, False))]
    return out
