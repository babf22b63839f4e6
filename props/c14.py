"""C14 caller-owned arrays and argument objects are never modified."""
from props import common as C
BOUNDS = 'construction, two steps and a scheduler update for every dynamic class with initial ensembles of 1 to 4 axes (M, N <= 2, d <= 2); every helper of the package (consensus, schedulers, bisection up to 3 iterations, kernels, mirror maps, constraints, surfaces, penalties, objectives, corrections, noise models, resampling, success criteria) on arbitrary arrays'

def snap(v):
    if isinstance(v, dict): return {k: snap(w) for k, w in v.items()}
    if isinstance(v, (list, tuple)): return type(v)(snap(w) for w in v)
    if hasattr(v, 'shape') and hasattr(v, 'copy'): return v.copy()
    return v
def unchanged(E, label, now, old):
    if isinstance(old, dict):
        E.check(label + ': keys', isinstance(now, dict) and list(now) == list(old))
        for k in old:
            if k in now: unchanged(E, '%s[%s]' % (label, k), now[k], old[k])
    elif isinstance(old, (list, tuple)):
        E.check(label + ': length', len(now) == len(old))
        for i, (a, b) in enumerate(zip(now, old)): unchanged(E, '%s[%d]' % (label, i), a, b)
    elif hasattr(old, 'shape') and hasattr(old, 'copy'):
        if E.shape(old) == () or all(E.shape(old)): E.eq(label, now, old)
    else: E.check(label, now is old or now == old)

class Track:
    def __init__(self): self.n = 0
    def init_history(self, dyn): dyn.history['mine'] = []
    def update(self, dyn): dyn.history['mine'].append(0)

def args(E, cls, shape, batch, alpha, active):
    dd = shape[2:] if len(shape) > 2 else shape[-1:]
    full = (1,) * max(0, 3 - len(shape)) + tuple(shape)
    M, N = full[:2]
    a = C.options(E, cls, dd)
    a['x'] = E.array('x', shape)
    if alpha == 'array': a['alpha'] = E.array('alpha', (M, 1), pos=True)
    elif alpha == 'row': a['alpha'] = E.array('alpha', (M, 1), pos=True)
    else: a['alpha'] = E.real('alpha', pos=True) if alpha == 'real' else alpha
    a['track_args'] = dict(names=['x', 'energy'], save_int=2, extra_tracks=[Track()])
    if batch: a['batch_args'] = dict(size=batch[0], partial=batch[1], seed=3)
    sw = C.Switch(M)
    if active is not None: sw.stop = [r not in active for r in range(M)]
    a['term_criteria'] = [sw, 'max-it', dict(name='max-time', max_time=50.0)]
    return a, M, N, dd

def dynamic(E, cls, shape, batch=None, alpha='array', active=None, steps=2, sched='multiply', noise='anisotropic'):
    a, M, N, dd = args(E, cls, shape, batch, alpha, active)
    old = snap(a)
    f = E.objective('f', ddims=len(dd))
    S = E.mod('cbx.scheduler')
    ends = []
    for i in range(2):
        kw = dict(a)
        if C.clsname(cls) == 'CBS': kw['noise'] = 'covariance'
        else: kw['noise'] = noise
        dyn = getattr(E.mod('cbx.dynamics'), C.clsname(cls))(f, f_dim='3D', check_f_dims=False, dt=0.25, lamda=0.5, sigma=0.75, sampler=C.RowSampler(E, 'z', list(range(M))), post_process=E.quiet_post(), verbosity=0,
                 **{k: v for k, v in kw.items() if not (C.clsname(cls) == 'HyperSurfaceCBO' and k == 'lamda')})
        dyn.sampler.active = lambda: [int(j) for j in dyn.active_runs_idx]
        sc = dict(multiply=lambda: S.scheduler([S.multiply(name='alpha', factor=1.5, maximum=2.0)]), none=lambda: S.scheduler([]))[sched]()
        seen = []
        for s in range(steps):
            dyn.terminate(); C.step(E, dyn); sc.update(dyn)
        ends.append((dyn.x.copy(), dyn.energy.copy(), dyn.best_energy.copy(), dyn.best_particle.copy()))
        unchanged(E, 'after dynamic %d' % i, a, old)
    for nm, u, v in zip(('particles', 'energy', 'best energy', 'best particle'), *ends): E.eq('the same arguments give the same ' + nm, u, v)

def storage(E, cls, M, N, d, active=None):
    """positions, records and best particles are separate arrays"""
    dyn = C.build(E, cls, M, N, d, active=active)
    dyn.terminate(); C.step(E, dyn)
    names = [k for k in ('x', 'y', 'v', 'm', 'best_particle', 'best_cur_particle', 'best_energy', 'best_cur_energy', 'energy') if getattr(dyn, k, None) is not None and hasattr(getattr(dyn, k), 'shape')]
    for k in names:
        before = {j: getattr(dyn, j).copy() for j in names}
        E.inject(getattr(dyn, k), 'over.' + k)
        for j in names:
            if j != k: E.eq('overwriting %s leaves %s' % (k, j), getattr(dyn, j), before[j])

def consensus(E, M, N, d):
    np = E.np
    P = E.mod('cbx.dynamics.pdyn'); PO = E.mod('cbx.dynamics.polarcbo'); H = E.mod('cbx.dynamics.hypersurfacecbo')
    e = E.array('e', (M, N)); x = E.array('x', (M, N) + tuple(d)); al = E.array('a', (M, 1), pos=True); nl = E.array('nl', (M, N, N))
    v = dict(e=e, x=x, al=al, nl=nl); old = snap(v)
    P.compute_consensus_default()(e, x, al); unchanged(E, 'consensus', v, old)
    P.compute_consensus_default(check_coeffs=True)(e, x, al); unchanged(E, 'checked consensus', v, old)
    H.compute_consensus_rescale(e, x, al); unchanged(E, 'rescaled consensus', v, old)
    PO.compute_polar_consensus(e, x, nl, alpha=al[..., None], kernel_factor=al[..., None]); unchanged(E, 'polar consensus', v, old)

class Dyn: pass
def schedulers(E, M, N, its=3):
    np = E.np; S = E.mod('cbx.scheduler')
    al = E.array('a', (M, 1), pos=True); e = E.array('e', (M, N)); v = dict(al=al, e=e); old = snap(v)
    d = Dyn(); d.alpha = al; d.energy = e; d.M = M; d.N = N
    sm = S.multiply(name='alpha', factor=1.5, maximum=2.0); sm.update(d); sm.update(d)
    unchanged(E, 'multiply', v, old)
    d.sigma = E.array('s', (M, 1), pos=True); s0 = d.sigma; so = s0.copy()
    S.scheduler([S.multiply(name='sigma', factor=0.5)]).update(d); E.eq('multiply sigma', s0, so)
    d.alpha = al
    S.effective_sample_size(solve_max_it=0).update(d)
    unchanged(E, 'effective sample size', v, old)

def bisection(E, M, its):
    np = E.np; S = E.mod('cbx.scheduler')
    c = E.array('c', (M,)); lo = E.array('lo', (M,)); hi = lo + E.array('w', (M,), pos=True)
    v = dict(lo=lo, hi=hi, c=c); old = snap(v)
    S.bisection_solve(lambda a: c - a, lo, hi, max_it=its)
    unchanged(E, 'bisection', v, old)

def pure(E, what):
    """a helper called with caller arrays"""
    np = E.np
    M, N, d = 1, 2, 2
    x = E.array('x', (M, N, d)); y = E.array('y', (M, N, d))
    v = dict(x=x, y=y); old = snap(v)
    def call(label, f):
        try: f()
        except np.linalg.LinAlgError: E.assume(False)
        unchanged(E, label, v, old)
    if what.startswith('kernel:'):
        k = E.mod('cbx.dynamics.polarcbo').PolarCBO.kernel_dict[what[7:]](kappa=0.5)
        call('kernel', lambda: k(x[:, None], y[:, :, None])); call('neg_log', lambda: k.neg_log(x[:, None], y[:, :, None]))
    elif what.startswith('map:'):
        MM = E.mod('cbx.dynamics.mirrorcbo'); kw = dict(a=np.array([1.0, 2.0]), b=0.5) if 'Hyperplane' in what else {}
        m = MM.get_mirror_map(dict(name=what[4:], **kw))
        call('grad', lambda: m.grad(x)); call('grad_conj', lambda: m.grad_conj(x))
    elif what.startswith('constraint:'):
        CN = E.mod('cbx.constraints')
        A = np.array([[2.0, 1.0], [1.0, 3.0]]); b = np.array([1.0, 2.0])
        conf = [dict(sphere=dict(name='sphere', r=2.0), plane=dict(name='plane', a=b, b=0.5), quadric=dict(name='quadric', A=A, b=b, c=0.25))[n] for n in what[11:].split('+')]
        v['A'] = A; v['b'] = b; v['conf'] = conf; old.update(snap(dict(A=A, b=b, conf=conf)))
        G = CN.MultiConstraint(CN.get_constraints(conf))
        for nm in ('squared', 'grad_squared_sum', 'hessian_squared_sum', 'hessian_sum', 'call_times_hessian_sum'): call(nm, lambda: getattr(G, nm)(x))
        call('value', lambda: G(x))
        for c in G.constraints:
            for nm in ('grad', 'hessian', 'squared', 'grad_squared', 'hessian_squared', 'call_times_hessian'): call('one ' + nm, lambda: getattr(c, nm)(x))
        call('implicit hessian', lambda: G.solve_Id_call_times_hessian(x, y, factor=0.25))
        call('implicit squared hessian', lambda: G.solve_Id_hessian_squared_sum(x, y, factor=0.25))
        if len(conf) == 1: call('implicit gradient', lambda: G.solve_Id_plus_call_grad(x, y, factor=0.25))
    elif what.startswith('surface:'):
        H = E.mod('cbx.dynamics.hypersurfacecbo')
        s = H.get_sdf(dict(sphere=None, plane=dict(name='plane', a=np.array([1.0, 2.0]), b=0.5))[what[8:]])
        for nm in ('grad', 'Laplacian', 'proj', 'get_proj_matrix'): call(nm, lambda: getattr(s, nm)(x))
        call('tangent', lambda: s.proj_tangent_space(x, y))
    elif what.startswith('penalty:'):
        R = E.mod('cbx.regularizers'); n = what[8:]
        cfg = dict(L0=dict(name='L0'), L1=dict(name='L1', lamda=2.0), Plane=dict(name='Plane', a=np.array([1.0, 2.0]), b=0.5), Sphere=dict(name='Sphere', r=2.0),
                   Quadric=dict(name='Quadric', A=np.array([[2.0, 1.0], [1.0, 3.0]]), b=np.array([1.0, 2.0]), c=0.5))[n]
        v['cfg'] = cfg; old['cfg'] = snap(cfg); lam = E.array('l', (M, 1), pos=True); v['lam'] = lam; old['lam'] = lam.copy()
        r = R.regularize_objective(E.objective('f'), cfg, lamda=lam, p=2)
        call('regularised objective', lambda: r(x)); call('broadcast', lambda: r.broadcast_lamda(x))
    elif what.startswith('objective:'):
        O = E.mod('cbx.objectives'); nm = what[10:]; kw = {}
        if nm == 'Multimodal': pass
        ob = getattr(O, nm)(**kw)
        keep = {k: (w, snap(w)) for k, w in vars(ob).items() if hasattr(w, 'shape') or isinstance(w, list)}
        call('value', lambda: ob(x))
        for k, (w, o) in keep.items(): unchanged(E, 'attribute ' + k, w, o)

def noises(E, M, N, d):
    NZ = E.mod('cbx.noise')
    for nm in ('isotropic', 'anisotropic', 'constant', 'covariance'):
        D = Dyn(); D.norm = E.np.linalg.norm; D.sampler = E.sampler('z' + nm); D.dt = 0.25; D.lamda = 1.0; D.x = E.array('x', (M, N) + tuple(d)); D.drift = E.array('dr', (M, N) + tuple(d)); D.alpha = E.array('a', (M, 1), pos=True)
        D.active_runs_idx = E.np.arange(M); D.update_covariance = lambda: None; D.Cov_sqrt = E.array('C', (M, d[0], d[0]))
        v = dict(x=D.x, drift=D.drift, alpha=D.alpha, C=D.Cov_sqrt); old = snap(v)
        NZ.get_noise(nm, D)(D)
        unchanged(E, nm + ' noise', v, old)

def results(E, M, N):
    """success criteria and resampling triggers leave the dynamic and the minimiser alone"""
    np = E.np; SU = E.mod('cbx.utils.success'); R = E.mod('cbx.utils.resampling')
    D = Dyn(); D.M = M; D.N = N; D.f = E.objective('f'); D.best_particle = E.array('b', (M, 2)); D.x = E.array('x', (M, N, 2)); D.verbosity = 0
    D.update_diff = E.array('u', (M,)); D.best_energy = E.array('be', (M,)); D.active_runs_idx = np.arange(M); D.consensus = E.array('c', (M, 1, 2)); D.norm = np.linalg.norm; D.copy = lambda a: a.copy(); D.to_numpy = lambda a: a
    xt = E.array('t', (2,))
    v = dict(b=D.best_particle, x=D.x, u=D.update_diff, be=D.best_energy, c=D.consensus, xt=xt); old = snap(v)
    SU.evaluation([SU.dist_to_min(xt), SU.value_thresh(0.5)])(D); unchanged(E, 'success', v, old)
    for t in (R.ensemble_update_resampling(0.5), R.loss_update_resampling(2), R.consensus_stagnation(2, 0.5)):
        for k in range(2): t(D); unchanged(E, '%s %d' % (type(t).__name__, k), v, old)

def wrappers(E, f_dim, shape):
    """the promoted objective and the counter leave the points alone"""
    O = E.mod('cbx.utils.objective_handling')
    f = E.objective('f', ddims=1)
    x = E.array('x', shape); old = x.copy()
    O._promote_objective(f, f_dim)(x)
    E.eq('points', x, old)

OBJ = 'three_hump_camel McCormick Rosenbrock Himmelblau Rastrigin Rastrigin_multimodal Ackley Ackley_multimodal accelerated_sinus nd_sinus p_4th_order Quadratic Banana Bimodal Unimodal Multimodal Bukin6 cross_in_tray Easom drop_wave Holder_table snowflake eggholder Michalewicz'.split()
def instances(tier):
    y = lambda **k: dict(h='dynamic', params=k); pu = lambda w: dict(h='pure', params=dict(what=w))
    out = [y(cls='CBO', shape=s) for s in ((1,), (2,), (2, 1), (1, 2, 1), (2, 1, 1))] + [y(cls='CBO', shape=(1, 1, 2, 2), noise='isotropic', steps=1), y(cls='CBO', shape=(2, 2, 1), batch=(1, True), steps=2), y(cls='CBO', shape=(2, 2, 1), batch=(1, False), steps=1, active=(1,)),
           y(cls='CBO', shape=(2, 1, 1), alpha='real'), y(cls='CBO', shape=(1, 2, 1), alpha=1.5)]
    for cls in C.ALL[1:]:
        d = 2 if cls.split(':')[0] in ('HyperSurfaceCBO',) or cls.endswith(('sphere', 'plane')) else 1
        out.append(y(cls=cls, shape=(1, 1, d), steps=1)); out.append(y(cls=cls, shape=(1, d), steps=1 if cls.endswith(':sphere') else 2, alpha=2.0))
    out += [dict(h='storage', params=dict(cls=c, M=2, N=1, d=(1,), active=(0,))) for c in ('CBO', 'PolarCBO', 'MirrorCBO', 'AdamCBO')]
    out += [dict(h='storage', params=dict(cls=c, M=1, N=1, d=(1,))) for c in ('CBO', 'CBOMemory', 'PSO', 'CBS', 'MirrorCBO')]
    out += [dict(h='consensus', params=dict(M=2, N=2, d=(1,))), dict(h='consensus', params=dict(M=1, N=2, d=(2, 1))), dict(h='schedulers', params=dict(M=1, N=2)), dict(h='schedulers', params=dict(M=2, N=2)),
            dict(h='bisection', params=dict(M=1, its=2)), dict(h='bisection', params=dict(M=2, its=1))]
    out += [pu('kernel:' + k) for k in ('Gaussian', 'Laplace', 'Constant', 'InverseQuadratic', 'Taz')]
    out += [pu('map:' + k) for k in ('ElasticNet', 'L2', 'None', 'ProjectionBall', 'ProjectionHyperplane', 'ProjectionSphere', 'ProjectionSquare', 'LogBarrierBox', 'NonsmoothBarrier', 'Entropy', 'EntropySimplex')]
    out += [pu('constraint:' + k) for k in ('sphere', 'plane', 'quadric', 'plane+sphere', 'sphere+quadric')] + [pu('surface:sphere'), pu('surface:plane')]
    out += [pu('penalty:' + k) for k in ('L1', 'Plane', 'Sphere', 'Quadric', 'L0')] + [pu('objective:' + k) for k in OBJ]
    out += [dict(h='noises', params=dict(M=2, N=2, d=(2,))), dict(h='results', params=dict(M=2, N=2))]
    out += [dict(h='wrappers', params=dict(f_dim=k, shape=s)) for k in ('1D', '2D', '3D') for s in ((2, 1), (2, 2, 1))]
    return out
