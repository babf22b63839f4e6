"""C15 trajectories are determined by the inputs, the sampler and the batch seed alone."""
from props import common as C
BOUNDS = 'two dynamics from equal inputs, the first interleaved with an unrelated dynamic of every class and with uses of the global generator; 2 steps, M, N <= 2, d <= 2, every class and noise model, batches, finished runs, default and user sampler; the same dynamic after others of its class with other settings and in a new process'

def full(E, dyn):
    out = C.state(E, dyn)
    for k in ('consensus', 'drift', 'alpha', 'Cov_sqrt'):
        v = getattr(dyn, k, None)
        if v is not None and hasattr(v, 'shape'): out[k] = v.copy()
    out['t'] = getattr(dyn, 't', 0.0); out['it'] = dyn.it
    return out
def same(E, tag, a, b):
    E.check(tag + ': same quantities', set(a) == set(b))
    for k in a:
        if k in b: E.eq('%s: %s' % (tag, k), a[k], b[k])

def other(E, cls, tag):
    """an unrelated dynamic with other inputs and other settings"""
    np = E.np
    dd = (1,) if C.clsname(cls) == 'CBS' else (2,)
    o = C.build(E, cls, 2, 2, dd, X=np.array([[[0.25, 0.5], [1.0, -0.75]], [[1.5, 2.0], [-0.5, 0.125]]])[..., :dd[0]], A=np.array([[2.0], [3.0]]), f=lambda x: (x ** 2).sum(axis=-1), par=dict(dt=0.5, lamda=2.0, sigma=0.25),
                noise='isotropic', sampler=lambda size=None: 0.5 * np.ones(size), names=('x',), **({} if C.clsname(cls) == 'CBS' else dict(batch_args=dict(size=1, partial=False, seed=11))))
    o.terminate(); C.step(E, o)
    return o

def interleaved(E, cls, M, N, d, intruder='CBO', batch=None, active=None, noise='anisotropic', correction='no_correction', smp='rows', steps=2, sched=False, seedless=False):
    f = E.objective('f', ddims=len(d))
    X = E.array('x', (M, N) + tuple(d)); A = E.array('alpha', (M, 1), pos=True); par = C.params(E)
    S = E.mod('cbx.scheduler')
    def make():
        kw = dict(batch_args=dict({} if seedless else dict(seed=7), size=batch[0], partial=batch[1], **(dict(var=batch[2]) if len(batch) > 2 else {}))) if batch else {}
        if smp == 'default': kw['seed'] = 5
        dyn = C.build(E, cls, M, N, d, active=active, X=X, A=A, f=f, par=par, noise=noise, correction=correction, sampler='default' if smp == 'default' else None, **kw)
        return dyn, S.scheduler([S.multiply(factor=1.5, maximum=4.0)]) if sched else S.scheduler([])
    def go(dyn, sc):
        dyn.terminate(); C.step(E, dyn); sc.update(dyn)
    a, sa = make(); seen = []
    g0 = E.global_rng._k, E.rng_count
    for s in range(steps):
        go(a, sa); seen.append(full(E, a))
        if s == 0:
            E.check('the global generator is not used by a step', E.global_rng._k == g0[0])
            E.check('no new unseeded generator in a step', E.rng_count == g0[1])
            o = other(E, intruder, 'o')
            E.np.random.standard_normal(3); E.np.random.normal(size=2); E.np.random.uniform(); E.np.random.seed(3)
        else: o.terminate(); C.step(E, o)
    b, sb = make()
    for s in range(steps):
        go(b, sb)
        same(E, 'step %d' % s, full(E, b), seen[s])

MORE = {'PolarCBO': dict(kappa=2.0, kernel_factor_mode='const'), 'MirrorCBO': dict(mirrormap=dict(name='L2', lamda=3.0)), 'MirrorCBO:ball': dict(mirrormap=dict(name='ProjectionBall', radius=2.0)), 'CBS': dict(mode='optimization'),
        'AdamCBO': dict(betas=(0.5, 0.25), eps=0.5), 'CBOMemory': dict(lamda_memory=2.0), 'PSO': dict(m=0.75, lamda_memory=2.0)}
def process(E, cls, M, N, d, noise='anisotropic', correction='no_correction', batch=None, names=()):
    """after other dynamics (of the same class with other settings, and of another class) the same trajectory as in a new process"""
    np = E.np
    f = E.objective('f', ddims=len(d)); X = E.array('x', (M, N) + tuple(d)); A = E.array('alpha', (M, 1), pos=True); par = C.params(E)
    def go():
        kw = dict(batch_args=dict(batch)) if batch else {}
        S = E.mod('cbx.scheduler')
        dyn = C.build(E, cls, M, N, d, X=X, A=A, f=f, par=par, noise=noise, correction=correction, names=names, **kw)
        dyn.terminate(); C.step(E, dyn); S.scheduler([S.multiply(factor=1.5, maximum=4.0)]).update(dyn)
        return full(E, dyn)
    more = dict(MORE.get(cls, MORE.get(C.clsname(cls), {})))
    if ':' in cls and 'kappa' in more: more['kernel'] = cls.split(':')[1]
    dd = tuple(d)
    g = lambda x: (x ** 2).sum(axis=tuple(range(2, x.ndim)))
    for corr, c in ((correction, cls), ('no_correction', 'CBO')):
        o = C.build(E, c, 2, 2, dd, X=np.linspace(0.25, 1.0, 4 * int(np.prod(dd))).reshape((2, 2) + dd), A=np.array([[2.0], [3.0]]), f=g, par=dict(dt=0.5, lamda=2.0, sigma=0.25), noise=noise, correction=corr,
                    sampler=lambda size=None: 0.5 * np.ones(size), names=('x', 'energy'), correction_eps=0.5, **dict(more if c == cls else {}, **({} if C.clsname(cls) == 'CBS' else dict(batch_args=dict(size=1, seed=11)))))
        o.terminate(); C.step(E, o)
    a = go()
    E.fresh()
    same(E, 'new process', go(), a)

def seeded(E, cls, M, N, d):
    """seed alone: the initial ensemble and the noise are the same for both dynamics, whatever the global generator does"""
    f = E.objective('f', ddims=1)
    kw = dict(x=None, M=M, N=N, d=d, seed=5, noise='anisotropic', check_f_dims=False, f_dim='3D', verbosity=0, dt=0.25, post_process=E.quiet_post(), track_args=dict(names=[]))
    cl = getattr(E.mod('cbx.dynamics'), cls)
    if cls == 'CBS': kw['noise'] = 'covariance'
    ends = []
    for i in range(2):
        dyn = cl(f, **kw)
        x0 = dyn.x.copy()
        dyn.terminate(); C.step(E, dyn)
        ends.append(dict(full(E, dyn), x0=x0))
        E.np.random.uniform(size=4)
    same(E, 'second dynamic', ends[1], ends[0])

def frozen_settings(E, cls):
    """class-level tables are not changed by an instance"""
    import copy
    D = E.mod('cbx.dynamics'); cl = getattr(D, C.clsname(cls))
    look = lambda: {k: (list(v) if isinstance(v, (list, dict)) else v) for c in cl.__mro__ for k, v in vars(c).items() if isinstance(v, (list, dict, int, float, str, tuple)) and not k.startswith('__')}
    before = look()
    d = (2,)
    dyn = C.build(E, cls, 1, 1, d, names=('x', 'energy', 'alpha'))
    dyn.terminate(); C.step(E, dyn)
    E.check('class attributes', look() == before)

def instances(tier):
    i = lambda **k: dict(h='interleaved', params=k)
    out = [i(cls='CBO', M=1, N=2, d=(1,)), i(cls='CBO', M=2, N=2, d=(1,), batch=(1, True), intruder='PolarCBO'), i(cls='CBO', M=2, N=2, d=(1,), batch=(1, False), smp='default', steps=1), i(cls='CBO', M=1, N=1, d=(2,), noise='isotropic', intruder='PSO'),
           i(cls='CBO', M=1, N=2, d=(1,), noise='covariance', intruder='CBS', steps=1), i(cls='CBO', M=2, N=1, d=(1,), active=(1,), noise='constant', intruder='AdamCBO'), i(cls='CBO', M=1, N=2, d=(1,), smp='default', intruder='CBOMemory'),
           i(cls='CBO', M=1, N=2, d=(1,), correction='heavi_side', steps=1), i(cls='CBO', M=1, N=1, d=(1,), correction='heavi_side_reg', sched=True), i(cls='CBO', M=1, N=1, d=(2, 2), noise='isotropic'),
           i(cls='CBO', M=2, N=3, d=(1,), batch=(2, True), steps=1), i(cls='CBO', M=2, N=1, d=(1,), sched=True),
           i(cls='CBO', M=1, N=2, d=(1,), batch=(1, True), steps=3), i(cls='PolarCBO', M=1, N=2, d=(1,), batch=(1, False), steps=3), i(cls='CBO', M=1, N=3, d=(1,), batch=(2, True, 'concat'), steps=2)]
    for cls in C.ALL[1:]:
        d = (2,) if cls.split(':')[0] in ('HyperSurfaceCBO',) or cls.endswith(('sphere', 'plane')) else (1,)
        heavy = cls.endswith('sphere')
        out.append(i(cls=cls, M=1, N=1, d=d, intruder=cls, steps=1 if heavy else 2))
        if cls not in ('CBS',) and not heavy: out.append(i(cls=cls, M=2, N=1, d=d, intruder='CBO', smp='default', steps=1))
    out += [i(cls='CBO', M=1, N=2, d=(1,), batch=(1, True), seedless=True), i(cls='CBO', M=2, N=2, d=(1,), batch=(1, False), seedless=True, steps=1)]
    pr = lambda **k: dict(h='process', params=k)
    out += [pr(cls=c, M=1, N=2 if c in ('CBO', 'PolarCBO', 'MirrorCBO:ball', 'CBOMemory') else 1, d=(2,) if c.startswith('Hyper') or c.endswith(('sphere', 'plane')) else (1,)) for c in C.ALL if c != 'CBO']
    out += [pr(cls='PolarCBO:' + k, M=1, N=2, d=(1,)) for k in ('Laplace', 'InverseQuadratic', 'Constant', 'Taz')]
    out += [pr(cls='CBO', M=1, N=2, d=(1,), noise=n) for n in ('isotropic', 'constant', 'covariance')] + [pr(cls='CBO', M=1, N=2, d=(1,), correction=c) for c in ('heavi_side', 'heavi_side_reg')] + [pr(cls='CBO', M=1, N=2, d=(1,), batch=dict(size=1)), pr(cls='CBO', M=1, N=1, d=(1,), names=('x', 'consensus'))]
    out.append(i(cls='DriftConstrainedCBO:indep', M=1, N=1, d=(2,), intruder='DriftConstrainedCBO:indep', steps=1))
    for k in ('Laplace', 'InverseQuadratic', 'Taz'): out.append(i(cls='PolarCBO:' + k, M=1, N=2, d=(1,), intruder='PolarCBO:Gaussian', steps=1))
    out += [dict(h='seeded', params=dict(cls=c, M=1, N=2, d=1)) for c in ('CBO', 'CBOMemory', 'AdamCBO', 'PolarCBO', 'MirrorCBO', 'CBS')]
    out += [dict(h='frozen_settings', params=dict(cls=c)) for c in C.ALL if ':' not in c] + [dict(h='frozen_settings', params=dict(cls='HyperSurfaceCBO:sphere'))]
    return out
