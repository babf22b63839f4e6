"""C17 constraint derivatives and implicit solves satisfy their defining equations."""
from props import common as C
BOUNDS = 'every point, direction, right-hand side, factor and constraint parameter; d <= 2 (3 in thorough for values and derivatives), ensembles up to (2,2,d); zero, one, two or three constraints, built directly or by name; 1 x 1 and 2 x 2 systems that are regular'
ASSUMPTIONS = ['the value of a constraint and of its square are polynomials of degree at most 4 along a line, so five values determine the derivatives (checked against the formula of the value)']

def make(E, kind, d, tag=''):
    """(description for the library, formula of the value)"""
    np = E.np
    if kind == 'sphere':
        r = E.real('r' + tag, pos=True)
        return dict(name='sphere', r=r), lambda x: E.sum([v * v for v in x]) - r * r
    if kind == 'sphere1': return dict(name='sphere'), lambda x: E.sum([v * v for v in x]) - 1.0
    if kind == 'plane':
        a = E.array('a' + tag, (d,)); b = E.real('b' + tag); n = E.norm2(list(a)); E.assume(E.not_(E.leq(n, 0.0)))
        return dict(name='plane', a=a, b=b), lambda x: (E.sum([p * q for p, q in zip(a, x)]) - b) / n
    if kind.startswith('quadric'):
        A = E.array('A' + tag, (d, d)); b = E.array('b' + tag, (d,)); c = E.real('c' + tag)
        if kind == 'quadric_sym':
            for i in range(d):
                for j in range(i): A[i, j] = A[j, i]
        A0 = A.copy()
        return dict(name='quadric', A=A, b=b, c=c), lambda x: E.sum([x[i] * A0[i, j] * x[j] for i in range(d) for j in range(d)]) + E.sum([p * q for p, q in zip(b, x)]) + c
    if kind == 'none': return None, lambda x: 0.0
    raise KeyError(kind)
def single(E, kind, d):
    m = E.mod('cbx.constraints'); spec, f = make(E, kind, d)
    if spec is None: return m.NoConstraint(), f
    return m.get_constraints([spec])[0], f
def points(E, shape):
    x = E.array('x', shape)
    return x, x.copy(), [tuple(ix) for ix in E.idx(shape[:-1])]
def stencil(E, g, x, v, order):
    p = [g([a + t * b for a, b in zip(x, v)]) for t in (-2.0, -1.0, 0.0, 1.0, 2.0)]
    if order == 1: return (p[0] - 8.0 * p[1] + 8.0 * p[3] - p[4]) / 12.0
    return (-p[0] + 16.0 * p[1] - 30.0 * p[2] + 16.0 * p[3] - p[4]) / 12.0
def at(E, H, ix, shape, mat=True):
    """entry of a derivative that may lack (broadcast) leading dimensions"""
    k = 2 if mat else 1
    sh = E.shape(H)
    lead = sh[:len(sh) - k]; n = len(lead)
    j = tuple(0 if l == 1 else i for l, i in zip(lead, ix[len(ix) - n:])) if n else ()
    return H[j] if j else H
def derivs(E, label, d, pts, x0, v, value, f, grad, hess, shape):
    E.check(label + ' value shape', E.shape(value) == shape[:-1])
    E.check(label + ' gradient shape', E.shape(grad) == shape)
    for ix in pts:
        xs = [x0[ix + (i,)] for i in range(d)]
        E.eq('%s value %s' % (label, ix), value[ix], f(xs))
        E.eq('%s gradient %s' % (label, ix), E.sum([grad[ix + (i,)] * v[i] for i in range(d)]), stencil(E, f, xs, v, 1))
        H = at(E, hess, ix, shape)
        E.eq('%s Hessian %s' % (label, ix), E.sum([v[i] * H[i, j] * v[j] for i in range(d) for j in range(d)]), stencil(E, f, xs, v, 2))
        for i in range(d):
            for j in range(i): E.eq('%s Hessian symmetric %s' % (label, ix), H[i, j], H[j, i])

def one(E, kind, shape):
    """value, gradient and Hessian of a constraint and of its square"""
    d = shape[-1]; c, f = single(E, kind, d)
    x, x0, pts = points(E, shape); v = list(E.array('v', (d,)))
    derivs(E, 'constraint', d, pts, x0, v, c(x), f, c.grad(x), c.hessian(x), shape)
    derivs(E, 'square', d, pts, x0, v, c.squared(x), lambda p: f(p) * f(p), c.grad_squared(x), c.hessian_squared(x), shape)
    cth = c.call_times_hessian(x); H = c.hessian(x)
    for ix in pts:
        for i in range(d):
            for j in range(d): E.eq('value times Hessian %s' % (ix,), at(E, cth, ix, shape)[i, j], f([x0[ix + (k,)] for k in range(d)]) * at(E, H, ix, shape)[i, j])
    E.eq('input', x, x0)

def matvec(H, y, i, d, E): return E.sum([H[i, j] * y[j] for j in range(d)])
def system(E, label, d, pts, y, rhs, coef, shape):
    """y + coef(ix) y = rhs"""
    E.check(label + ' shape', E.shape(y) == shape)
    for ix in pts:
        yy = [y[ix + (i,)] for i in range(d)]
        for i in range(d): E.eq('%s %s' % (label, ix + (i,)), yy[i] + coef(ix, yy, i), rhs[ix + (i,)])

def det(m):
    if len(m) == 1: return m[0][0]
    if len(m) == 2: return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return sum([m[0][j] * det([[r[k] for k in range(3) if k != j] for r in m[1:]]) * (-1.0) ** j for j in range(3)], 0.0)
def regular(E, d, pts, entry):
    """the property speaks about regular systems I + entry only"""
    for ix in pts: E.assume(E.not_(E.same(det([[(1.0 if i == j else 0.0) + entry(ix, i, j) for j in range(d)] for i in range(d)]), 0.0)))

def solves(E, kind, shape, which):
    d = shape[-1]; c, f = single(E, kind, d)
    x, x0, pts = points(E, shape); t = E.array('t', shape); t0 = t.copy(); k = E.real('factor')
    val = lambda ix: f([x0[ix + (i,)] for i in range(d)])
    if which == 'call_times_hessian':
        H = c.hessian(x); regular(E, d, pts, lambda ix, i, j: k * val(ix) * at(E, H, ix, shape)[i, j])
        y = c.solve_Id_call_times_hessian(x, t, factor=k)
        system(E, which, d, pts, y, t0, lambda ix, yy, i: k * val(ix) * matvec(at(E, H, ix, shape), yy, i, d, E), shape)
    elif which == 'hessian_squared':
        H = c.hessian_squared(x); regular(E, d, pts, lambda ix, i, j: k * at(E, H, ix, shape)[i, j])
        y = c.solve_Id_hessian_squared(x, t, factor=k)
        system(E, which, d, pts, y, t0, lambda ix, yy, i: k * matvec(at(E, H, ix, shape), yy, i, d, E), shape)
    else:                                      # y + factor * 2 c(x) grad c(y) = t
        H = c.hessian(x); regular(E, d, pts, lambda ix, i, j: 2.0 * k * val(ix) * at(E, H, ix, shape)[i, j])
        y = c.solve_Id_plus_call_grad(x, t, factor=k)
        E.check('shape', E.shape(y) == shape)
        g = c.grad(y)
        for ix in pts:
            for i in range(d): E.eq('call_grad %s' % (ix + (i,),), y[ix + (i,)] + 2.0 * k * val(ix) * g[ix + (i,)], t0[ix + (i,)])
    E.eq('input x', x, x0); E.eq('input t', t, t0)

def multi(E, kinds, shape, names=True):
    m = E.mod('cbx.constraints'); d = shape[-1]
    sf = [make(E, kd, d, tag=str(i)) for i, kd in enumerate(kinds)]
    x, x0, pts = points(E, shape); v = list(E.array('v', (d,)))
    cs = m.get_constraints([s for s, f in sf] if kinds else None); fs = [f for s, f in sf]
    E.check('number of constraints', len(cs) == len([k for k in kinds if k != 'none']))
    G = m.MultiConstraint(cs if kinds else None)
    tot = lambda p: E.sum([f(p) for f in fs]); sq = lambda p: E.sum([f(p) * f(p) for f in fs])
    bc = lambda a: a + E.np.zeros(shape[:-1])
    grads = E.np.zeros(shape)
    for c in cs: grads = grads + c.grad(x)
    derivs(E, 'sum', d, pts, x0, v, bc(G(x)), tot, grads, G.hessian_sum(x), shape)
    derivs(E, 'sum of squares', d, pts, x0, v, bc(G.squared(x)), sq, G.grad_squared_sum(x), G.hessian_squared_sum(x), shape)
    if cs:
        Q = G.call_times_hessian_sum(x)
        for ix in pts:
            for i in range(d):
                for j in range(d): E.eq('sum of value times Hessian %s' % (ix,), at(E, Q, ix, shape)[i, j], E.sum([bc(c(x))[ix] * at(E, c.hessian(x), ix, shape)[i, j] for c in cs]))

def multi_solves(E, kinds, shape):
    m = E.mod('cbx.constraints'); d = shape[-1]
    sf = [make(E, kd, d, tag=str(i)) for i, kd in enumerate(kinds)]
    x, x0, pts = points(E, shape); t = E.array('t', shape); t0 = t.copy(); k = E.real('factor')
    cs = m.get_constraints([s for s, f in sf] if kinds else None)
    G = m.MultiConstraint(cs)
    H = [c.hessian_squared(x) for c in cs]; regular(E, d, pts, lambda ix, i, j: k * E.sum([at(E, h, ix, shape)[i, j] for h in H]))
    y = G.solve_Id_hessian_squared_sum(x, t, factor=k)
    system(E, 'Id + Hessian of squares', d, pts, y, t0, lambda ix, yy, i: k * E.sum([matvec(at(E, h, ix, shape), yy, i, d, E) for h in H]), shape)
    H = [c.call_times_hessian(x) for c in cs]; regular(E, d, pts, lambda ix, i, j: k * E.sum([at(E, h, ix, shape)[i, j] for h in H]))
    y = G.solve_Id_call_times_hessian(x, t, factor=k)
    system(E, 'Id + value times Hessian', d, pts, y, t0, lambda ix, yy, i: k * E.sum([matvec(at(E, h, ix, shape), yy, i, d, E) for h in H]), shape)
    if len(cs) < 2:
        regular(E, d, pts, lambda ix, i, j: 2.0 * k * E.sum([c(x)[ix] * at(E, c.hessian(x), ix, shape)[i, j] for c in cs]))
        y = G.solve_Id_plus_call_grad(x, t, factor=k)
        E.check('shape', E.shape(y) == shape)
        for ix in pts:
            for i in range(d):
                corr = 2.0 * k * cs[0](x)[ix] * cs[0].grad(y)[ix + (i,)] if cs else 0.0
                E.eq('Id + value times gradient %s' % (ix + (i,),), y[ix + (i,)] + corr, t0[ix + (i,)])
    E.eq('input x', x, x0); E.eq('input t', t, t0)

def instances(tier):
    K = ['sphere', 'sphere1', 'plane', 'quadric', 'none']; W = ['call_times_hessian', 'hessian_squared', 'call_grad']
    out = [dict(h='one', params=dict(kind=k, shape=s)) for k in K for s in ((1, 2, 1), (2, 1, 2), (2, 2, 2))]
    out += [dict(h='solves', params=dict(kind=k, shape=s, which=w)) for k in ('sphere', 'plane', 'quadric') for w in W for s in ((1, 2, 1), (2, 1, 2))]
    out += [dict(h='multi', params=dict(kinds=k, shape=s)) for k in ([], ['plane'], ['sphere', 'plane'], ['quadric', 'sphere'], ['sphere', 'none', 'plane'], ['quadric']) for s in ((2, 1, 2), (1, 2, 1))]
    out += [dict(h='multi_solves', params=dict(kinds=k, shape=s)) for k in ([], ['none'], ['plane'], ['sphere'], ['quadric'], ['sphere', 'plane'], ['quadric', 'plane']) for s in ((2, 1, 2), (1, 2, 1)) if s[2] == 1 or k != ['quadric', 'plane']]
    if tier == 'thorough':
        out += [dict(h='one', params=dict(kind=k, shape=(2, 2, 3))) for k in K] + [dict(h='multi', params=dict(kinds=['sphere', 'quadric', 'plane'], shape=(2, 2, 3)))]
        out += [dict(h='solves', params=dict(kind=k, shape=(1, 1, 3), which=w)) for k in ('sphere', 'plane') for w in W] + [dict(h='multi_solves', params=dict(kinds=['sphere', 'plane', 'quadric'], shape=(1, 2, 1)))]
    return out
