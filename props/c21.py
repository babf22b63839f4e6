"""C21 benchmark objectives are pointwise, shape-correct and match their formulas."""
import math, numpy
BOUNDS = 'every point (arbitrary reals) and every parameter (arbitrary, in their meaningful range); ensembles with M, N <= 2, d <= 3 (2 where the formula is in two variables), lists of points and single points; two calls; declared minimisers; lower bounds over all points where the formula is polynomial or has bounded terms'
ASSUMPTIONS = ['sin, cos, exp, arctan2 and fractional powers are uninterpreted functions with their range, parity and monotonicity facts; constants are evaluated numerically']
PI = math.pi

class O:
    """formulas, written for one point"""
    def __init__(self, E): self.E = E
    def n2(self, p): return self.E.sum([c * c for c in p])
    def norm(self, p): return self.E.sqrt(self.n2(p))
    def sin(self, v): return self.E.fn('sin', v)
    def cos(self, v): return self.E.fn('cos', v)
    def exp(self, v): return self.E.exp(v)
    def abs(self, v): return self.E.abs(v)
    def rastrigin(self, p, b=0., c=0., A=10.): return self.E.sum([(v - b) * (v - b) - A * self.cos(2 * PI * (v - b)) + A for v in p]) + c
    def ackley(self, p, A=20., b=0.2, c=2 * PI, mini=None):
        q = [v - (mini[i] if mini is not None else 0) for i, v in enumerate(p)]; d = len(q)
        return -A * self.exp(-b * math.sqrt(1 / d) * self.norm(q)) - self.exp(self.E.sum([self.cos(c * v) for v in q]) / d) + A + math.e

def cases(E, name, d, var):
    """(object, formula of one point)"""
    m = E.mod('cbx.objectives'); o = O(E); np = E.np
    cls = getattr(m, name)
    if name == 'three_hump_camel': return cls(), lambda p: 2 * p[0]**2 - 1.05 * p[0]**4 + p[0]**6 / 6 + p[0] * p[1] + p[1]**2
    if name == 'McCormick': return cls(), lambda p: o.sin(p[0] + p[1]) + (p[0] - p[1])**2 - 1.5 * p[0] + 2.5 * p[1] + 1
    if name == 'Rosenbrock':
        if var: a, b = E.real('a'), E.real('b'); return cls(a=a, b=b), lambda p: (a - p[0])**2 + b * (p[1] - p[0]**2)**2
        return cls(), lambda p: (1 - p[0])**2 + 100 * (p[1] - p[0]**2)**2
    if name == 'Himmelblau':
        k = E.real('factor', pos=True) if var else 1.
        return cls(factor=k) if var else cls(), lambda p: ((k * p[0])**2 + k * p[1] - 11)**2 + (k * p[0] + (k * p[1])**2 - 7)**2
    if name == 'Rastrigin':
        if var: b, c, A = E.real('b'), E.real('c'), E.real('A', pos=True); return cls(b=b, c=c, A=A), lambda p: o.rastrigin(p, b, c, A)
        return cls(), o.rastrigin
    if name == 'Ackley':
        if var == 'min': q = E.array('q', (d,)); return cls(minimum=q), lambda p: o.ackley(p, mini=q)
        if var: A, b, c = E.real('A', pos=True), E.real('b', pos=True), E.real('c', pos=True); return cls(A=A, b=b, c=c), lambda p: o.ackley(p, A, b, c)
        return cls(), o.ackley
    if name in ('Rastrigin_multimodal', 'Ackley_multimodal'):
        V = o.rastrigin if name[0] == 'R' else o.ackley
        if var:
            k = 2
            al = E.array('al', (k,)); z = E.array('zz', (k, d))
            ob = cls(alpha=al if var == 'array' else [al[i] for i in range(k)], z=z)
            return ob, lambda p: V([al[0] * (v - z[0, i]) for i, v in enumerate(p)]) * V([al[1] * (v - z[1, i]) for i, v in enumerate(p)])
        return cls(), V
    if name == 'accelerated_sinus':
        a = E.real('a') if var else 1.
        return cls(a=a) if var else cls(), lambda p: o.sin(a * o.norm(p) / (1 + o.n2(p))) + 1
    if name == 'nd_sinus':
        return cls(), lambda p: (o.sin(0.3 * 0.3 * o.n2(p) / len(p)) + 1) * ((0.3 * p[0])**4 - (0.3 * p[0])**2 + 1)
    if name == 'p_4th_order': return cls(), lambda p: E.sum([v**4 for v in p]) - E.sum([v**2 for v in p]) + 1
    if name == 'Quadratic':
        a = E.real('al') if var else 1.
        return cls(alpha=a) if var else cls(), lambda p: a * a * o.n2(p)
    if name == 'Banana':
        if var: m_, s, sp = E.real('m'), E.real('sigma', pos=True), E.real('prior', pos=True); ob = cls(m=m_, sigma=s, sigma_prior=sp)
        else: m_, s, sp = 0, 0.5, 2; ob = cls()
        return ob, lambda p: 0.5 / (s * s) * ((p[1] - 1)**2 - (p[0] - 2.5) - 1 - m_)**2 + 0.5 / (sp * sp) * o.n2(p)
    if name == 'Bimodal':
        if var:
            a, b = E.array('a', (2,)), E.array('b', (2,))
            ob = cls(a=a, b=b) if var == 'array' else cls(a=[a[0], a[1]], b=[b[0], b[1]])
        else: a, b = (1., 1.5), (-1.2, -0.7); ob = cls()
        return ob, lambda p: -E.log(o.exp(-((p[0] - a[0])**2 + (p[1] - a[1])**2 / 0.2)) + 0.5 * o.exp(-(p[0] - b[0])**2 / 8 - (p[1] - b[1])**2 / 0.5))
    if name == 'Unimodal':
        if var:
            a = E.array('a', (2,)); ob = cls(a=a) if var == 'array' else cls(a=[a[0], a[1]])
        else: a = (-1.2, -0.7); ob = cls()
        return ob, lambda p: (p[0] - a[0])**2 / 8 + (p[1] - a[1])**2 / 0.5 - E.log(0.5)
    if name == 'Multimodal':
        if var:
            means = [numpy.array([1., 2.]), numpy.array([-1., .5])]; covs = [numpy.array([[2., .5], [.5, 1.]]), numpy.eye(2) * .25]
            ob = cls(means=means, covs=covs)
        else: means, covs = [numpy.zeros(2)], [numpy.eye(2)]; ob = cls()
        def f(p):
            t = []
            for mu, c in zip(means, covs):
                inv = numpy.linalg.inv(c); y = [p[i] - float(mu[i]) for i in range(2)]
                q = E.sum([y[i] * float(inv[i, j]) * y[j] for i in range(2) for j in range(2)])
                t.append(o.exp(-0.5 * q - float(0.5 * (2 * numpy.log(2 * numpy.pi) + numpy.log(numpy.linalg.det(c))))))
            return -E.log(E.sum(t))
        return ob, f
    if name == 'Bukin6': return cls(), lambda p: 100 * E.sqrt(o.abs(p[1] - 0.01 * p[0]**2)) + 0.01 * o.abs(p[0] + 10)
    if name == 'cross_in_tray':
        return cls(), lambda p: -0.0001 * E.fn('power', o.abs(o.sin(p[0]) * o.sin(p[1]) * o.exp(o.abs(100 - o.norm(p[:2]) / PI))) + 1, 0.1)
    if name == 'Easom': return cls(), lambda p: -o.cos(p[0]) * o.cos(p[1]) * o.exp(-(p[0] - PI)**2 - (p[1] - PI)**2)
    if name == 'drop_wave':
        def f(p):
            q = p[0]**2 + p[1]**2
            return -(1 + o.cos(12 * E.sqrt(q))) * o.exp(-q / (2 * (1 + 0.001 * q)))
        return cls(), f
    if name == 'Holder_table':
        if var: k, s = E.real('factor', pos=True), E.real('shift'); ob = cls(factor=k, shift=s)
        else: k, s = 1, 0; ob = cls()
        def f(p):
            q = [(v - s) * k for v in p[:2]]
            return -o.abs(o.sin(q[0]) * o.cos(q[1]) * o.exp(o.abs(1 - o.norm(q) / PI)))
        return ob, f
    if name == 'snowflake':
        a = 0.5
        if var: a = 2.0
        def f(p):
            q = [a * v for v in p]; r = o.norm(q); phi = E.fn('arctan2', q[1], q[0])
            r4 = r**4
            t = [r4 * r4 - r4 + E.sqrt(o.abs(o.cos(phi + i * PI / 3))) * E.fn('power', r, 0.3) for i in range(3)]
            return E.min(0.8, *t)
        return (cls(alpha=a) if var else cls()), f
    if name == 'eggholder':
        return cls(), lambda p: -(p[1] + 47) * o.sin(E.sqrt(o.abs(p[1] + p[0] / 2 + 47))) - p[0] * o.sin(E.sqrt(o.abs(p[0] - p[1] - 47)))
    if name == 'Michalewicz':
        m_ = {'': 10, 'one': 1, 'two': 2}[var]
        return (cls(d=d, m=m_) if var else cls()), lambda p: -E.sum([o.sin(v) * o.sin((i + 1) * v * v / PI)**(2 * m_) for i, v in enumerate(p)])
    raise KeyError(name)

TWO = 'three_hump_camel McCormick Rosenbrock Himmelblau Banana Bimodal Unimodal Multimodal Bukin6 cross_in_tray Easom drop_wave Holder_table snowflake eggholder'.split()
ANY = 'Rastrigin Rastrigin_multimodal Ackley Ackley_multimodal accelerated_sinus nd_sinus p_4th_order Quadratic Michalewicz'.split()
VARS = dict(Rosenbrock=['par'], Himmelblau=['par'], Rastrigin=['par'], Ackley=['par', 'min'], Rastrigin_multimodal=['list', 'array'], Ackley_multimodal=['list', 'array'],
            accelerated_sinus=['par'], Quadratic=['par'], Banana=['par'], Bimodal=['list', 'array'], Unimodal=['list', 'array'], Multimodal=['par'], Holder_table=['par'], snowflake=['par'], Michalewicz=['one', 'two'])

def formula(E, name, shape, var=''):
    """every value is the documented formula at its own point, in the shape of the ensemble"""
    d = shape[-1]
    ob, f = cases(E, name, d, var)
    x = E.array('x', shape); x0 = x.copy()
    lead = shape[:-1]
    y = ob(x)
    E.check('shape', E.shape(y) == lead)
    for ix in E.idx(lead):
        E.eq('value %s' % (ix,), y[ix] if ix else y, f([x0[ix + (i,)] for i in range(d)]))
    E.eq('argument unchanged', x, x0)
    n = 1
    for k in lead: n *= k
    E.check('evaluations', ob.num_eval == n)

def promoted(E, name, M, N, d, var=''):
    """given with the default promotion, single points are passed: same values"""
    ob, f = cases(E, name, d, var)
    x = E.array('x', (M, N, d))
    for fd in ('1D', '2D', '3D'):
        P = E.mod('cbx.utils.objective_handling')._promote_objective(ob, fd)
        y = P(x)
        E.check(fd + ' shape', E.shape(y) == (M, N))
        for i in range(M):
            for j in range(N): E.eq('%s value %d %d' % (fd, i, j), y[i, j], f([x[i, j, k] for k in range(d)]))

# documented minimum values (None: documented as value of the formula)
MINIMA = dict(three_hump_camel=0., Himmelblau=0., Rastrigin=0., Rastrigin_multimodal=0., Ackley=0., Ackley_multimodal=0., Bukin6=0., cross_in_tray=-2.06261, Easom=-1., drop_wave=-2.,
              Holder_table=-19.2085, snowflake=-.25, eggholder=-959.6407, Michalewicz=-1.8013)
COUNT = dict(Himmelblau=4, cross_in_tray=4, Holder_table=4, snowflake=6)

def close(E, label, a, b, tol): E.le(label + ' (above)', a, b + tol); E.le(label + ' (below)', b - tol, a)

def minimisers(E, name, d, var=''):
    """each declared minimiser attains the documented minimum"""
    ob, f = cases(E, name, d, var)
    val = MINIMA[name]
    if name == 'Rastrigin' and var: val = E.real('c')
    if name == 'Ackley' and var == 'par': val = 0.
    mins = E.np.asarray(ob.minima)
    sh = E.shape(mins)
    E.check('list of points', len(sh) == 2)
    E.check('number', sh[0] == COUNT.get(name, 2 if var in ('list', 'array') else 1))
    for k in range(sh[0]):
        p = [mins[k, i if sh[1] > 1 else 0] for i in range(d)]
        x = E.np.stack([E.np.asarray(p), E.np.asarray(p)])[None]
        y = ob(x)
        close(E, 'minimiser %d' % k, y[0, 0], val, 2e-4)
    for i in range(sh[0]):
        for j in range(i):
            if name in COUNT and not var: E.check('different minimisers', E.any([E.strict(1e-3, E.abs(mins[i, c] - mins[j, c])) for c in range(sh[1])]))

LOWER = dict(three_hump_camel=0., Rosenbrock=0., Himmelblau=0., Rastrigin=0., Ackley=0., Quadratic=0., Bukin6=0., Easom=-1., drop_wave=-2., snowflake=-.25, accelerated_sinus=0., Banana=0.)
def lower(E, name, d, var=''):
    """no point is below the documented minimum"""
    ob, f = cases(E, name, d, var)
    val = LOWER[name]
    if name == 'Rastrigin' and var: val = E.real('c')
    if name == 'Rosenbrock' and var: E.assume(E.leq(0, ob.b))
    x = E.array('x', (1, 1, d))
    y = ob(x)
    E.le('lower bound', val - (1e-6 if name in ('Ackley', 'three_hump_camel') else 0), y[0, 0])

def attained(E, name, d):
    """documented minimisers without a declared list"""
    ob, f = cases(E, name, d, 'par' if name == 'Rosenbrock' else '')
    if name == 'Rosenbrock': p = [ob.a, ob.a * ob.a]; val = 0.
    elif name == 'McCormick': p = [-0.54719, -1.54719]; val = -1.9133
    else: p = [0.] * d; val = dict(Quadratic=0., accelerated_sinus=1.)[name]
    x = E.np.stack([E.np.asarray(p)])[None]
    close(E, 'value', ob(x)[0, 0], val, 2e-4)

def independent(E, name, d, var=''):
    """the value of a particle depends on that particle alone (also with several parameters shared by all)"""
    ob, f = cases(E, name, d, var)
    x = E.array('x', (2, 2, d)); y = ob(x)
    for m in range(2):
        for n in range(2):
            z = ob(x[m:m + 1, n:n + 1, :])
            E.check('shape', E.shape(z) == (1, 1)); E.eq('value %d %d' % (m, n), z[0, 0], y[m, n])

def instances(tier):
    out = []
    def add(h, **p): out.append(dict(h=h, params=p, timeout=p.pop('timeout', 20)))
    for nm in TWO + ANY:
        shapes = [(2, 2, 2), (1, 2, 2), (2, 1, 2), (1, 1, 2), (2, 2), (1, 2), (2,)] if tier == 'thorough' else [(2, 2, 2), (1, 2, 2), (2, 1, 2), (1, 1, 2), (1, 2), (2,)]
        if nm in ANY: shapes += [(1, 1, 1), (1, 2, 3), (2, 1, 1), (3,)]
        for s in shapes: add('formula', name=nm, shape=s)
        for v in VARS.get(nm, []): add('formula', name=nm, shape=(1, 2, 2), var=v); add('formula', name=nm, shape=(1, 1, 3 if nm in ANY else 2), var=v)
        add('promoted', name=nm, M=1, N=2, d=2); add('promoted', name=nm, M=2, N=1, d=2)
        add('independent', name=nm, d=2, var=VARS.get(nm, [''])[0])
    for nm in MINIMA:
        add('minimisers', name=nm, d=2)
        for v in VARS.get(nm, []):
            if nm not in ('Michalewicz',): add('minimisers', name=nm, d=2, var=v)
    for nm in ('Rastrigin', 'Ackley', 'Rastrigin_multimodal', 'Ackley_multimodal'):
        add('minimisers', name=nm, d=1)
    for nm in LOWER:
        add('lower', name=nm, d=2)
        if nm in ('Rosenbrock', 'Himmelblau', 'Rastrigin', 'Quadratic'): add('lower', name=nm, d=2, var='par')
        if nm in ('Rastrigin', 'Ackley', 'Quadratic', 'accelerated_sinus'): add('lower', name=nm, d=1)
        if nm in ('Rastrigin', 'Ackley', 'Quadratic', 'accelerated_sinus') and tier == 'thorough': add('lower', name=nm, d=3)
    for nm in ('Rosenbrock', 'McCormick', 'Quadratic', 'accelerated_sinus'): add('attained', name=nm, d=2)
    return out
