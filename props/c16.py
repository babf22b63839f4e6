"""C16 schedulers update exactly their parameter and respect its limits."""
from props import common as C
BOUNDS = 'multiply: arbitrary values, factor and limit, M <= 3; bisection: arbitrary non-increasing function per run (uninterpreted), up to 4 iterations, M <= 2; effective sample size: arbitrary energies, M <= 2, N <= 3, up to 2 iterations; whole optimisation runs of up to 3 steps'
ASSUMPTIONS = ['bisection beyond the stated number of iterations repeats the same loop body']

class Dyn: pass
def dyn(E, M, N):
    d = Dyn(); d.M = M; d.N = N
    for k in ('alpha', 'sigma', 'lamda'): setattr(d, k, E.array(k, (M, 1)))
    d.dt = E.real('dt', pos=True); d.energy = E.array('e', (M, N)); d.x = E.array('x', (M, N, 1)); d.best_energy = E.array('be', (M,))
    d.active_runs_idx = E.np.arange(M)
    return d
def others(E, label, d, before, name):
    for k, v in before.items():
        if k == name: continue
        now = getattr(d, k)
        if hasattr(v, 'shape') or hasattr(v, 'n') or isinstance(v, float): E.eq('%s: %s stays' % (label, k), now, v)
        else: E.check('%s: %s stays' % (label, k), now is v or now == v)
    E.check(label + ': no new attribute', set(vars(d)) == set(before))
def frozen(d): return {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in vars(d).items()}

def mult(E, M, name, shape='array', updates=2, limit=True):
    S = E.mod('cbx.scheduler')
    d = dyn(E, M, 2)
    if shape == 'scalar': setattr(d, name, E.real('par'))
    fac = E.real('factor'); kw = {}
    if limit: kw['maximum'] = E.real('max')
    mx = kw.get('maximum', 1e5)
    sc = S.scheduler([S.multiply(factor=fac, **({} if name == 'alpha' else dict(name=name)), **kw)])
    for u in range(updates):
        before = frozen(d); old = before[name]
        sc.update(d)
        new = getattr(d, name)
        E.check('shape', E.shape(new) == E.shape(old))
        for ix in E.idx(E.shape(old)):
            E.eq('update %d %s' % (u, ix), new[ix] if ix else new, E.min(mx, fac * (old[ix] if ix else old)))
        others(E, 'update %d' % u, d, before, name)

def two_params(E, M):
    """a list of parameter updates is applied in order"""
    S = E.mod('cbx.scheduler'); d = dyn(E, M, 2)
    f1, f2, f3 = E.real('f1'), E.real('f2'), E.real('f3'); m1, m2 = E.real('m1'), E.real('m2')
    before = frozen(d)
    S.scheduler([S.multiply(name='alpha', factor=f1, maximum=m1), S.multiply(name='sigma', factor=f2, maximum=m2), S.multiply(name='alpha', factor=f3, maximum=m2)]).update(d)
    for r in range(M):
        E.eq('sigma %d' % r, d.sigma[r, 0], E.min(m2, f2 * before['sigma'][r, 0]))
        E.eq('alpha %d' % r, d.alpha[r, 0], E.min(m2, f3 * E.min(m1, f1 * before['alpha'][r, 0])))
    E.eq('lamda', d.lamda, before['lamda'])

def fun(E, r, root):
    """an arbitrary non-increasing function of run r with a root"""
    g = E.objective('g%d' % r, ddims=0)
    return g

def solve(E, S, rows, lo, hi, its, thresh, gs):
    np = E.np
    def f(a): return np.array([gs[r](a[i]) for i, r in enumerate(rows)])
    return S.bisection_solve(f, lo[rows].copy(), hi[rows].copy(), max_it=its, thresh=thresh)

def bisection(E, M, its, ordered=True):
    np = E.np; S = E.mod('cbx.scheduler')
    lo = E.array('lo', (M,)); hi = lo + E.array('w', (M,), pos=True); root = E.array('root', (M,)); th = E.real('thresh', pos=True)
    gs = {r: E.objective('g%d' % r, ddims=0) for r in range(M)}
    for r in range(M): E.assume(E.and_(E.leq(lo[r], root[r]), E.leq(root[r], hi[r])))
    x = solve(E, S, list(range(M)), lo, hi, its, th, gs)
    E.check('shape', E.shape(x) == (M,))
    single = []
    for r in range(M): single.append(solve(E, S, [r], lo, hi, its, th, gs))
    for r in range(M):
        for p, v in gs[r].log:               # the function is non-increasing through its root
            p = p.reshape(-1)[0]
            E.assume(E.implies(E.leq(p, root[r]), E.leq(0.0, v)))
            E.assume(E.implies(E.leq(root[r], p), E.leq(v, 0.0)))
        E.eq('run %d as alone' % r, x[r], single[r][0])
        E.le('run %d: above the lower end' % r, lo[r], x[r]); E.le('run %d: below the upper end' % r, x[r], hi[r])
        fx = gs[r](x[r])
        width = (hi[r] - lo[r]) / 2.0 ** (its + 1)
        E.check('run %d: within the tolerance or the remaining bracket' % r, E.or_(E.below(E.abs(fx), th), E.below(E.abs(x[r] - root[r]), width)))

def gap(E, M, N):
    """the function handed to the bisection is the documented gap"""
    S = E.mod('cbx.scheduler')
    e = E.array('e', (M, N)); a = E.array('a', (M,), pos=True); eta = E.real('eta', pos=True)
    g = S.eff_sample_size_gap(e, eta)(a)
    E.check('shape', E.shape(g) == (M,))
    for r in range(M):
        w = [E.exp(-a[r] * e[r, j]) for j in range(N)]; s = E.sum(w)
        E.eq('gap %d' % r, g[r], s * s / E.sum([q * q for q in w]) - eta * N)

def effective(E, M, N, its, eta=0.5):
    """the new alpha is the bisection result on the energies of the run, inside the limits"""
    S = E.mod('cbx.scheduler')
    mx = E.real('max', pos=True); E.assume(E.strict(1e-3, mx))
    d = dyn(E, M, N); before = frozen(d)
    S.effective_sample_size(eta=eta, maximum=mx, solve_max_it=its).update(d)
    E.check('shape', E.shape(d.alpha) == (M, 1))
    others(E, 'update', d, before, 'alpha')
    def J(a, r):                              # the gap itself is decided by the harness `gap`
        return S.eff_sample_size_gap(before['energy'][r:r + 1], eta)(E.np.array([a]))[0]
    for r in range(M):
        lo, hi = 1e-5, mx; x = None
        for k in range(its + 1):
            x = (lo + hi) / 2.0
            v = J(x, r)
            up = E.decided(E.flt(0.0, v)); down = (not up) and E.decided(E.flt(v, 0.0))
            if k == its or E.decided(E.leq(E.abs(v), 1e-2)): break
            if up: lo = x
            elif down: hi = x
        E.eq('run %d' % r, d.alpha[r, 0], x)
        E.le('run %d: maximum' % r, d.alpha[r, 0], mx); E.le('run %d: minimum' % r, 1e-5, d.alpha[r, 0])

def optimised(E, M, N, steps, sched, cls='CBO'):
    """optimize applies the scheduler once after every step"""
    T = E.mod('cbx.utils.termination'); S = E.mod('cbx.scheduler')
    A = E.array('alpha', (M, 1), pos=True)
    dyn = C.build(E, cls, M, N, (1,), A=A)
    dyn.term_criteria = [T.max_it_term(steps)]
    orig = dyn.post_step
    seen = []
    def watched():
        seen.append((dyn.alpha.copy(), dyn.sigma))
        orig(); E.inject(dyn.x, 'h%d' % dyn.it)
    dyn.post_step = watched
    if sched == 'default': dyn.optimize()
    elif sched == 'none': dyn.optimize(sched=None)
    elif sched == 'user': dyn.optimize(sched=S.scheduler([S.multiply(factor=2.0, maximum=3.0)]))
    def nxt(v):
        if sched == 'none' or (sched == 'default' and cls == 'CBS'): return v
        return E.min(1e5, 1.05 * v) if sched == 'default' else E.min(3.0, 2.0 * v)
    E.check('steps', len(seen) == steps)
    for r in range(M):
        v = A[r, 0]
        for s in range(steps):
            E.eq('alpha of run %d in step %d' % (r, s), seen[s][0][r, 0], v); v = nxt(v)
        E.eq('final alpha of run %d' % r, dyn.alpha[r, 0], v)
    E.eq('sigma', dyn.sigma, seen[0][1])

def instances(tier):
    out = [dict(h='mult', params=dict(M=2, name='alpha')), dict(h='mult', params=dict(M=3, name='sigma', updates=1)), dict(h='mult', params=dict(M=1, name='lamda', shape='scalar')), dict(h='mult', params=dict(M=2, name='alpha', limit=False)),
           dict(h='mult', params=dict(M=1, name='dt', shape='scalar', limit=False)), dict(h='two_params', params=dict(M=2))]
    out += [dict(h='bisection', params=dict(M=1, its=i)) for i in (0, 1, 2, 3)] + [dict(h='bisection', params=dict(M=2, its=i)) for i in (1, 2)]
    out += [dict(h='gap', params=dict(M=2, N=n)) for n in (1, 2, 3)]
    out += [dict(h='effective', params=dict(M=1, N=2, its=0)), dict(h='effective', params=dict(M=1, N=2, its=1)), dict(h='effective', params=dict(M=2, N=2, its=1)), dict(h='effective', params=dict(M=1, N=3, its=1, eta=0.75))]
    out += [dict(h='optimised', params=dict(M=m, N=1, steps=3, sched=s)) for m, s in ((1, 'default'), (2, 'user'), (2, 'none'), (2, 'default'))] + [dict(h='optimised', params=dict(M=1, N=1, steps=2, sched='default', cls=c)) for c in ('CBS', 'AdamCBO', 'PolarCBO', 'CBOMemory')]
    if tier == 'thorough':
        out += [dict(h='bisection', params=dict(M=1, its=4)), dict(h='bisection', params=dict(M=2, its=3)), dict(h='effective', params=dict(M=1, N=2, its=2)), dict(h='effective', params=dict(M=2, N=3, its=1))]
    return out
