"""C12 after every step all particles are finite and bounded."""
from props import common as C
BOUNDS = 'post-processing of an arbitrary IEEE double array (NaN, infinities, subnormals) with an arbitrary positive finite threshold, shapes up to (2,2,2); one real step of every dynamic class, M, N, d <= 2'

class Dyn: pass

def post(E, shape, copy=None, thresh=None, noncontig=False):
    P = E.mod('cbx.dynamics.pdyn').post_process_default
    x = E.fparray('x', shape)
    x0 = x.copy()
    t = 1e8 if thresh is None else (E.fparray('t', ())[()] if thresh == 'any' else thresh)
    if thresh == 'any': E.assume(E.and_(E.strict(0.0, t), E.finite(t)))
    kw = {} if copy is None else dict(copy_nan_to_num=copy)
    if thresh is not None: kw['max_thresh'] = t
    d = Dyn(); d.x = x
    P(**kw)(d)
    y = d.x
    E.check('shape', E.shape(y) == tuple(shape))
    for i in E.idx(shape):
        a, b = x0[i], y[i]
        E.check('finite %s' % (i,), E.finite(b))
        E.check('bounded %s' % (i,), E.and_(E.leq(E.neg(t), b), E.leq(b, t)))
        E.check('unchanged inside %s' % (i,), E.implies(E.and_(E.leq(E.neg(t), a), E.leq(a, t)), E.feq(a, b)))
        E.check('NaN becomes the threshold %s' % (i,), E.implies(E.isnan(a), E.feq(b, t)))
        E.check('too large %s' % (i,), E.implies(E.flt(t, a), E.feq(b, t)))
        E.check('too small %s' % (i,), E.implies(E.flt(a, E.neg(t)), E.feq(b, E.neg(t))))

def wild(E, cls, M, N, d, batch=None):
    """a real step whose inner step leaves arbitrary doubles in x"""
    kw = dict(norm=lambda a, axis=None, **k: E.np.zeros(E.shape(a)[:1]))
    dyn = C.build(E, cls, M, N, d, X=E.fparray('x', (M, N) + tuple(d)), post=False, batch=batch, **kw)
    wildx = E.fparray('w', (M, N) + tuple(d))
    def inner(): dyn.x[...] = wildx
    dyn.inner_step = inner
    dyn.terminate(); dyn.step()
    for i in E.idx((M, N) + tuple(d)):
        b = dyn.x[i]
        E.check('finite %s' % (i,), E.finite(b))
        E.check('bounded %s' % (i,), E.and_(E.leq(-1e8, b), E.leq(b, 1e8)))
        E.check('unchanged inside %s' % (i,), E.implies(E.and_(E.leq(-1e8, wildx[i]), E.leq(wildx[i], 1e8)), E.feq(wildx[i], b)))

def bounded(E, cls, M, N, d, batch=None, thresh=None, active=None, noise='anisotropic'):
    """a real step over the reals stays within the threshold"""
    P = E.mod('cbx.dynamics.pdyn').post_process_default
    dyn = C.build(E, cls, M, N, d, post=False, batch=batch, active=active, noise=noise, **(dict(post_process=P(max_thresh=thresh)) if thresh else {}))
    t = thresh or 1e8
    dyn.terminate(); C.step(E, dyn)
    for i in E.idx((M, N) + tuple(d)):
        E.le('upper bound %s' % (i,), dyn.x[i], t); E.le('lower bound %s' % (i,), -t, dyn.x[i])

def instances(tier):
    p = lambda **k: dict(h='post', params=k)
    out = [p(shape=(1, 1, 1)), p(shape=(2, 2, 2)), p(shape=(1, 2, 1), copy=True), p(shape=(2, 1, 2), copy=False), p(shape=(1, 1, 2), thresh='any'), p(shape=(1, 2, 1), thresh='any', copy=True),
           p(shape=(1, 1, 2), thresh=0.5), p(shape=(1, 1, 1, 2))]
    for cls in ('CBO', 'AdamCBO', 'CBS', 'PolarCBO', 'DriftConstrainedCBO', 'RegCombinationCBO'): out.append(dict(h='wild', params=dict(cls=cls, M=1, N=2, d=(1,))))
    out.append(dict(h='wild', params=dict(cls='CBO', M=2, N=2, d=(1,), batch=(1, True))))
    for cls in C.ALL:
        d = (2,) if cls.split(':')[0] in ('HyperSurfaceCBO',) or cls.endswith(('sphere', 'plane')) else (1,)
        out.append(dict(h='bounded', params=dict(cls=cls, M=1, N=2 if d == (1,) else 1, d=d), welldef=True))
    out += [dict(h='bounded', params=dict(cls='CBO', M=2, N=2, d=(1,), batch=(1, True), thresh=2.0)), dict(h='bounded', params=dict(cls='MirrorCBO', M=2, N=1, d=(1,), active=(1,), thresh=2.0)),
            dict(h='bounded', params=dict(cls='CBO', M=1, N=2, d=(2, 2), thresh=0.25))]
    return out
