"""C25 success evaluation counts exactly the runs that meet every criterion."""
from props import common as C
BOUNDS = 'M in {1,2,3} runs, domain (1,),(2,),(3,),(2,1),(1,2),(2,2); every minimiser, best particle, tolerance and threshold; p in {1, 2, inf}; one, two or three criteria'

def dist(E, a, b, p, d):
    v = [E.abs(a[i] - b[i]) for i in E.idx(d)]
    if p == 1: return E.sum(v)
    if p == 2: return E.norm2([a[i] - b[i] for i in E.idx(d)])
    return E.max(*v) if len(v) > 1 else v[0]

class Dyn:
    """what the criteria read of a dynamic"""
    def __init__(self, E, M, d, f, N=2):
        self.M = M; self.best_particle = E.array('best', (M,) + d); self.f = f; self.d = d; self.N = N

def consistent(E, res, M, idx):
    got = [int(i) for i in res['idx']]
    E.check('indices', got == idx)
    E.check('number', res['num'] == len(idx))
    E.eq('rate', res['rate'], len(idx) / M)

def members(E, res, M, conds):
    got = [int(i) for i in res['idx']]
    E.check('increasing indices', got == sorted(set(got)) and all(0 <= i < M for i in got))
    for m in range(M): E.check('run %d counts' % m, E.iff(conds[m], m in got))
    E.check('number', res['num'] == len(got)); E.eq('rate', res['rate'], len(got) / M)

def distance(E, M, d, p, default_tol=False, scalar=False):
    S = E.mod('cbx.utils.success')
    t = E.array('true', d if not scalar else ()); tol = 0.25 if default_tol else E.real('tol', pos=True)
    dyn = Dyn(E, M, d, None); b = dyn.best_particle.copy()
    kw = {} if default_tol else dict(tol=tol)
    if p is not None: kw['p'] = p
    res = S.dist_to_min(t, **kw)(dyn)
    ds = [dist(E, b[m], t if not scalar else E.np.stack([t]), p if p is not None else float('inf'), d) for m in range(M)]
    members(E, res, M, [E.strict(v, tol) for v in ds])
    E.check('distances', E.shape(res['normdiff']) == (M,))
    for m in range(M): E.eq('distance %d' % m, res['normdiff'][m], ds[m])
    E.eq('best particle', dyn.best_particle, b)

def value(E, M, d):
    S = E.mod('cbx.utils.success')
    f = E.objective('f', ddims=len(d)); th = E.real('thresh')
    dyn = C.build(E, 'CBO', M, 2, d, f=f); dyn.best_particle = E.array('best', (M,) + d); b = dyn.best_particle.copy()
    res = S.value_thresh(thresh=th)(dyn)
    members(E, res, M, [E.strict(f(b[m]), th) for m in range(M)])
    E.eq('best particle', dyn.best_particle, b)

def combined(E, M, d, crits):
    S = E.mod('cbx.utils.success')
    f = E.objective('f', ddims=len(d)); dyn = C.build(E, 'CBO', M, 2, d, f=f); dyn.best_particle = E.array('best', (M,) + d)
    b = dyn.best_particle.copy()
    cs = []; conds = [[] for _ in range(M)]
    for i, c in enumerate(crits):
        if c == 'dist':
            t = E.array('true%d' % i, d); tol = E.real('tol%d' % i, pos=True); cs.append(S.dist_to_min(t, tol=tol, p=2 if i else float('inf')))
            for m in range(M): conds[m].append(E.strict(dist(E, b[m], t, 2 if i else float('inf'), d), tol))
        else:
            th = E.real('thresh%d' % i); cs.append(S.value_thresh(thresh=th))
            for m in range(M): conds[m].append(E.strict(f(b[m]), th))
    res = S.evaluation(criteria=cs, verbosity=0)(dyn)
    members(E, res, M, [E.all(c) for c in conds])

def quiet(E, verbosity):
    """the report is printed exactly when asked for"""
    import io, contextlib
    S = E.mod('cbx.utils.success')
    dyn = Dyn(E, 2, (1,), None); buf = io.StringIO()
    with contextlib.redirect_stdout(buf): res = S.evaluation(criteria=[S.dist_to_min(E.array('true', (1,)), tol=E.real('tol', pos=True))], verbosity=verbosity)(dyn)
    E.check('report', bool(buf.getvalue()) == (verbosity > 0))

def instances(tier):
    o = lambda h, **k: dict(h=h, params=k)
    out = []
    for p in (None, 1, 2):
        for M, d in ((1, (1,)), (2, (1,)), (1, (2,)), (2, (2,)), (3, (2,)), (1, (1, 2)), (2, (2, 1)), (3, (2, 1)), (1, (2, 2)), (2, (2, 2)), (2, (1, 1)), (1, (2, 1))):
            out.append(o('distance', M=M, d=d, p=p))
        if tier == 'thorough': out += [o('distance', M=3, d=(3,), p=p), o('distance', M=3, d=(2, 2), p=p)]
    out += [o('distance', M=2, d=(2,), p=None, default_tol=True), o('distance', M=2, d=(1,), p=None, scalar=True), o('distance', M=1, d=(1,), p=2, scalar=True)]
    out += [o('value', M=M, d=d) for M, d in ((1, (1,)), (2, (2,)), (3, (1,)), (2, (2, 2)), (2, (2, 1)))]
    out += [o('combined', M=2, d=(1,), crits=('dist', 'value')), o('combined', M=2, d=(2,), crits=('value', 'dist')), o('combined', M=3, d=(1,), crits=('dist', 'dist', 'value')), o('combined', M=1, d=(2,), crits=('value', 'dist')), o('combined', M=2, d=(1,), crits=('value',)), o('combined', M=3, d=(1,), crits=('value', 'value'))]
    out += [o('quiet', verbosity=0), o('quiet', verbosity=1)]
    return out
