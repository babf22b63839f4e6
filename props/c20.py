"""C20 objective promotion evaluates the user function at exactly the given points."""
import numpy
from props import common as C
BOUNDS = 'arbitrary (uninterpreted) user function of single points, lists of points or ensembles; ensembles with M, N <= 3, d <= 3, lists of points and single points, up to three calls; construction with and without the shape check, one and two steps of a dynamic with each kind of function; functions of the wrong kind'

def user(E, fd):
    """an arbitrary function of a point, written for points (1D), lists of points (2D) or ensembles (3D); shapes it is called with are recorded"""
    g = E.objective('f', ddims=1)
    seen = []
    def f(x):
        seen.append(E.shape(x))
        return g(x)
    return g, f, seen

def column(E, g):
    """a function of lists of points that answers with a column"""
    def f(x): return g(x).reshape(-1, 1)
    return f

def promote(E, fd, shape, calls=2, out='flat'):
    O = E.mod('cbx.utils.objective_handling')
    g, f, seen = user(E, fd)
    if out == 'column': f = column(E, g)
    p = O._promote_objective(f, fd)
    lead = {1: (1, 1), 2: (1,) + shape[:1], 3: shape[:2]}[len(shape)]
    E.check('starts at zero', p.num_eval == 0)
    for c in range(calls):
        x = E.array('x%d' % c, shape)
        x0 = x.copy(); k0 = len(g.log)
        y = p(x)
        E.check('shape %d' % c, E.shape(y) == lead)
        full = x0.reshape(lead + shape[-1:])
        E.check('evaluations %d' % c, len(g.log) - k0 == lead[0] * lead[1])
        # as many evaluations as points and every value is the one at its point: evaluated there and nowhere else
        for m in range(lead[0]):
            for n in range(lead[1]): E.eq('value %d %d %d' % (c, m, n), y[m, n], g(full[m, n]))
        E.eq('argument unchanged %d' % c, x, x0)
        E.check('count %d' % c, p.num_eval == (c + 1) * lead[0] * lead[1])
    for s in seen: E.check('called with a point' if fd == '1D' else 'called with a list of points', len(s) == (1 if fd == '1D' else 2) and s[-1] == shape[-1])
    p.reset(); E.check('reset', p.num_eval == 0)
    x = E.array('xr', shape); p(x)
    E.check('count after reset', p.num_eval == lead[0] * lead[1])

def direct(E, M, N, d):
    """an ensemble function is used as it is"""
    O = E.mod('cbx.utils.objective_handling')
    g, f, seen = user(E, '3D')
    E.check('not wrapped', O._promote_objective(f, '3D') is f)
    D = E.mod('cbx.dynamics')
    dyn = D.ParticleDynamic(f, f_dim='3D', x=E.array('x', (M, N, d)), sampler=E.sampler('z'), verbosity=0)
    E.check('used directly', dyn.f is f)

def instance(E, M, N, d, fd):
    """a user class derived from cbx_objective"""
    O = E.mod('cbx.utils.objective_handling')
    g = E.objective('f', ddims=1)
    class My(O.cbx_objective):
        def apply(self, x): return g(x)
    my = My()
    p = O._promote_objective(my, fd)
    x = E.array('x', (M, N, d))
    y = p(x)
    E.check('shape', E.shape(y) == (M, N))
    E.check('evaluations', len(g.log) == M * N)
    for m in range(M):
        for n in range(N): E.eq('value %d %d' % (m, n), y[m, n], g(x[m, n]))
    E.check('count', p.num_eval == M * N and my.num_eval == M * N)
    x2 = E.array('w', (N, d)); my(x2); E.check('count of a list', my.num_eval == M * N + N)
    x3 = E.array('u', (d,)); my(x3); E.check('count of a point', my.num_eval == M * N + N + 1)
    my.reset(); E.check('reset', my.num_eval == 0)
    other = My(); E.check('own counter', other.num_eval == 0)

def whole(E, M, N, d, fd, flip=False):
    """the value at a point is not rounded because another point has a whole number as value"""
    O = E.mod('cbx.utils.objective_handling')
    g = E.objective('f', ddims=1); c = E.real('c')
    def point(p): return (2 if not flip else True) if p[0] > c else g(p)
    def points(q): return E.np.array([point(p) for p in q])
    p = O._promote_objective({'1D': point, '2D': points}[fd], fd)
    x = E.array('x', (M, N, d)); y = p(x)
    for m in range(M):
        for n in range(N): E.eq('value %d %d' % (m, n), y[m, n], point(x[m, n]))

def construct(E, fd, M, N, d, check, given=True):
    """construction of a dynamic: counter, shape check, energies"""
    D = E.mod('cbx.dynamics')
    g, f, seen = user(E, fd)
    x = E.array('x', (M, N, d))
    kw = dict(x=x) if given else dict(M=M, N=N, d=d)
    dyn = D.ParticleDynamic(f, f_dim=fd, check_f_dims=check, sampler=E.sampler('z'), verbosity=0, **kw)
    E.check('evaluations', len(g.log) == (M * N if check else 0))
    E.eq('counter', dyn.num_f_eval, numpy.array([N if check else 0] * M))
    E.check('wrapper counter', fd == '3D' or dyn.f.num_eval == len(g.log))
    xs = dyn.x.copy()
    k0 = len(g.log); y = dyn.f(dyn.x)
    E.check('shape', E.shape(y) == (M, N))
    E.check('evaluations of the ensemble', len(g.log) - k0 == M * N)
    for m in range(M):
        for n in range(N): E.eq('value %d %d' % (m, n), y[m, n], g(xs[m, n]))

def alike(E, cls, M, N, d, batch=None, active=None, steps=2):
    """the same function given in the three ways drives the dynamic through the same states"""
    x = E.array('x', (M, N, d)); A = E.array('alpha', (M, 1), pos=True); par = C.params(E)
    g = E.objective('f', ddims=1)
    dyns = []
    for fd in ('1D', '2D', '3D'):
        cl = getattr(E.mod('cbx.dynamics'), cls)
        sw = C.Switch(M)
        smp = C.RowSampler(E, 'z', list(range(M)))
        kw = dict(batch_args=dict(size=batch[0], partial=batch[1], seed=E.rowseed('batch', range(M)))) if batch else {}
        log = []
        def f(q, log=log):
            k = len(g.log); y = g(q); log.extend(g.log[k:]); return y
        noise = 'covariance' if cls == 'CBS' else 'anisotropic'
        dyn = cl(f, f_dim=fd, check_f_dims=False, x=x.copy(), alpha=A.copy(), sampler=smp, noise=noise, term_criteria=[sw], verbosity=0, post_process=E.quiet_post(), **dict(par, **kw))
        smp.active = lambda dyn=dyn: [int(i) for i in dyn.active_runs_idx]
        dyns.append((dyn, log, sw))
    for s in range(steps):
        for dyn, log, sw in dyns:
            if s and active is not None:
                sw.stop = [r not in active for r in range(M)]; dyn.terminate()
            dyn.step()
        a = dyns[2]
        for b, nm in ((dyns[0], '1D'), (dyns[1], '2D')):
            sa, sb = C.state(E, a[0]), C.state(E, b[0])
            E.check('%s keys' % nm, set(sa) == set(sb))
            for k in sa: E.eq('step %d %s %s' % (s, nm, k), sb[k], sa[k])
            E.check('step %d %s: evaluations' % (s, nm), len(b[1]) == len(a[1]) == b[0].f.num_eval)

def refused(E, M, N, d):
    """functions that cannot be used are refused"""
    O = E.mod('cbx.utils.objective_handling'); D = E.mod('cbx.dynamics')
    def raises(label, ex, fn):
        try: fn()
        except ex: E.check(label, True)
        else: E.check(label, False)
    for fd in ('1D', '2D', '3D'): raises('not callable ' + fd, TypeError, lambda: O._promote_objective(1.0, fd))
    g = E.objective('f', ddims=1)
    for bad in ('0D', '4D', None, 2): raises('kind %r' % (bad,), ValueError, lambda: O._promote_objective(g, bad))
    x = E.array('x', (M, N, d)); s = E.sampler('z')
    mk = lambda f: D.ParticleDynamic(f, f_dim='3D', x=x, sampler=s, verbosity=0)
    raises('column', ValueError, lambda: mk(lambda q: g(q)[..., None]))
    raises('one value per run', ValueError, lambda: mk(lambda q: g(q)[:, 0]))
    raises('transposed', ValueError, lambda: mk(lambda q: g(q).reshape(N, M))) if M != N else None
    raises('per coordinate', ValueError, lambda: mk(lambda q: q * q))
    E.check('accepted', mk(g).N == N)

def instances(tier):
    out = []
    def add(h, **p): out.append(dict(h=h, params=p))
    shapes = [(1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 1), (1, 3, 2), (3, 1, 2), (2, 3, 2), (2, 2, 3), (3, 1), (1, 2), (2, 2), (3, 2), (1,), (3,)]
    if tier == 'thorough': shapes += [(3, 3, 2), (3, 2, 1), (2, 4, 3), (4, 2, 2), (4, 3), (4,), (5, 1, 1)]
    for fd in ('1D', '2D'):
        for s in shapes: add('promote', fd=fd, shape=s)
    add('promote', fd='2D', shape=(2, 2, 2), out='column'); add('promote', fd='2D', shape=(1, 1, 1), out='column')
    for fd in ('1D', '2D'): add('whole', M=1, N=3, d=1, fd=fd); add('whole', M=2, N=1, d=2, fd=fd, flip=True)
    add('direct', M=2, N=2, d=2); add('direct', M=1, N=1, d=1)
    for s in [(1, 1, 1), (2, 3, 2), (3, 1, 1)]:
        for fd in ('1D', '2D', '3D'): add('instance', M=s[0], N=s[1], d=s[2], fd=fd)
    for fd in ('1D', '2D', '3D'):
        for s in [(1, 1, 1), (2, 3, 2), (3, 1, 2), (1, 2, 1)]:
            for ch in (True, False): add('construct', fd=fd, M=s[0], N=s[1], d=s[2], check=ch)
        add('construct', fd=fd, M=2, N=2, d=2, check=True, given=False)
    for cls in ('CBO', 'CBOMemory', 'PSO', 'CBS', 'PolarCBO', 'AdamCBO') if tier == 'thorough' else ('CBO', 'CBOMemory', 'PolarCBO'):
        add('alike', cls=cls, M=2, N=2, d=2 if cls == 'CBO' else 1, active=(1,))
    add('alike', cls='CBO', M=2, N=2, d=1, batch=(1, True)); add('alike', cls='CBO', M=1, N=3, d=1, batch=(2, False), steps=1); add('alike', cls='CBO', M=1, N=1, d=1)
    add('refused', M=2, N=3, d=2); add('refused', M=1, N=2, d=3)
    return out
