"""Builders shared by the scenarios: every dynamic class over arbitrary (symbolic) inputs."""
import numpy

class RowSampler:
    """random draws named by global run, particle and component, so that a dynamic with several runs and a dynamic
    with one of these runs can be given the same draws"""
    def __init__(self, E, name, rows):
        self.E = E; self.name = name; self.rows = rows; self.k = 0; self.active = lambda: list(range(len(rows)))
        self.sizes = []; self.free = None
    def __call__(self, size=None, *a, **kw):
        E = self.E
        size = (size,) if isinstance(size, int) else tuple(int(s) for s in size)
        act = list(self.active())
        if size[0] == len(act): rows = [self.rows[i] for i in act]
        elif size[0] == len(self.rows): rows = self.rows
        elif self.free is not None:
            self.k += 1
            if self.k > self.free: E.assume(False)
            return E.array('%s#%d.free' % (self.name, self.k), size)
        else: raise ValueError('sampler called with %s for %d active of %d runs' % (size, len(act), len(self.rows)))
        self.sizes.append(size)
        parts = [E.array('%s#%d.run%d' % (self.name, self.k, r), size[1:]) for r in rows]
        self.k += 1
        return E.np.stack(parts, axis=0) if parts else E.np.zeros(size)

class Switch:
    """termination criterion whose answers the scenario sets"""
    def __init__(self, M): self.stop = [False] * M
    def __call__(self, dyn): return numpy.array(self.stop)

def clsname(spec): return spec.split(':')[0]

def options(E, spec, d):
    """constructor arguments that select a variant of the class"""
    cls, _, var = spec.partition(':')
    kw = {}
    np = E.np
    dd = d[-1]
    if cls == 'MirrorCBO':
        mm = {'': None, 'None': None, 'ball': dict(name='ProjectionBall'), 'sphere': dict(name='ProjectionSphere'),
              'elastic': dict(name='ElasticNet'), 'l2': dict(name='L2', lamda=2.0), 'simplex': dict(name='EntropySimplex'), 'square': dict(name='ProjectionSquare')}[var]
        kw['mirrormap'] = mm
    elif cls in ('DriftConstrainedCBO', 'RegCombinationCBO'):
        kw['constraints'] = {'': None, 'none': None, 'sphere': [dict(name='sphere', r=1.0)],
                             'plane': [dict(name='plane', a=np.array([3.0, 4.0][:dd]), b=0.5)],
                             'two': [dict(name='plane', a=np.array([3.0, 4.0][:dd]), b=0.5), dict(name='plane', a=np.array([4.0, 3.0][:dd]), b=0.25)],
                             'indep': [dict(name='plane', a=np.array([3.0, 4.0][:dd]), b=0.5)]}[var]
        kw['eps'] = 0.5
        if var == 'indep': kw.update(sigma_indep=0.5, eps_indep=0.125)
    elif cls == 'HyperSurfaceCBO':
        kw['sdf'] = {'': None, 'sphere': None, 'plane': dict(name='plane', a=np.array([3.0, 4.0][:dd]), b=1.0)}[var]
    elif cls == 'PolarCBO':
        if var: kw['kernel'] = var
    elif cls == 'CBS':
        kw['mode'] = var or 'sampling'
    return kw

def build(E, spec, M, N, d, active=None, batch=None, noise='anisotropic', correction='no_correction', rows=None, f=None,
          X=None, A=None, par=None, tag='', post=True, names=(), sampler=None, track=None, **kw):
    """a dynamic over the runs `rows` of an ensemble of M runs; everything numeric is an arbitrary input"""
    cls = getattr(E.mod('cbx.dynamics'), clsname(spec))
    f = f or E.objective('f', ddims=len(d))
    if X is None: X = E.array('x', (M, N) + tuple(d))
    if A is None: A = E.array('alpha', (M, 1), pos=True)
    par = par or params(E)
    rows = list(range(M)) if rows is None else rows
    sw = Switch(len(rows))
    if active is not None: sw.stop = [r not in active for r in rows]
    smp = None if sampler == 'default' else (sampler or RowSampler(E, 'z', rows))
    opt = options(E, spec, d)
    opt.update(kw)
    if clsname(spec) == 'CBS' and noise not in ('covariance', 'sampling', None): noise = 'covariance'
    if correction == 'heavi_side_reg': opt.setdefault('correction_eps', 0.5)
    if batch: opt['batch_args'] = dict(size=batch[0], partial=batch[1], seed=E.rowseed('batch', rows))
    if post: opt['post_process'] = E.quiet_post()
    if clsname(spec) == 'HyperSurfaceCBO': opt.pop('lamda', None)
    dyn = cls(f, f_dim='3D', check_f_dims=False, x=X[rows].copy(), alpha=A[rows].copy(), dt=par['dt'], lamda=par['lamda'], sigma=par['sigma'],
              sampler=smp, noise=noise, correction=correction, track_args=track if track is not None else dict(names=list(names)), term_criteria=[sw], verbosity=0, **opt)
    if smp is not None: smp.active = lambda: [int(i) for i in dyn.active_runs_idx]
    dyn._switch = sw
    return dyn

def params(E, dt=0.25): return dict(dt=dt, lamda=E.real('lamda', pos=True), sigma=E.real('sigma', pos=True))

def step(E, dyn):
    """one step; ill-posed implicit steps (singular matrix) are outside the scenario"""
    try: dyn.step()
    except E.np.linalg.LinAlgError: E.assume(False)

def active_of(dyn): return [int(i) for i in dyn.active_runs_idx]

def scheduled(dyn, r, N):
    """indices of the mini-batch of run r used in the last step"""
    return [int(j) for j in dyn.batch_idx[r]] if dyn.batched else list(range(N))

def moved(dyn, r, N):
    """particles of run r updated in the last step"""
    return scheduled(dyn, r, N) if (dyn.batched and dyn.batch_partial) else list(range(N))

def state(E, dyn):
    """every array of the dynamic whose first axis is the run"""
    out = {}
    for k in ('x', 'y', 'v', 'm', 'energy', 'best_energy', 'best_particle', 'best_cur_energy', 'best_cur_particle', 'num_f_eval', 'f_min', 'update_diff'):
        v = getattr(dyn, k, None)
        if v is None or not hasattr(v, 'shape'): continue
        sh = E.shape(v)
        if len(sh) and sh[0] == dyn.M: out[k] = v.copy()
    return out

HAVOC = ('x', 'x_eval', 'y', 'v', 'm', 'energy', 'consensus', 'best_energy', 'best_particle', 'best_cur_energy', 'best_cur_particle')
def havoc(E, dyn, rows, tag='h', keep=()):
    """replace the state of the dynamic by an arbitrary one (the same for the same global runs)"""
    for k in HAVOC:
        v = getattr(dyn, k, None)
        if v is None or k in keep or not hasattr(v, 'shape'): continue
        sh = E.shape(v)
        if not sh or sh[0] != len(rows): continue
        dom = dict(pos=True) if k == 'v' and type(dyn).__name__ == 'AdamCBO' else {}
        for i, r in enumerate(rows): v[i, ...] = E.array('%s.%s.run%d' % (tag, k, r), sh[1:], **dom)
    for i, r in enumerate(rows):           # the record is at least as good as the present energies
        e = [dyn.energy[i, j] for j in range(dyn.N)]
        dyn.best_energy[i] = E.lower('%s.best_energy_of.run%d' % (tag, r), e)

def eqrows(E, label, a, b, tol=None):
    """elementwise equality that also accepts infinities"""
    E.eq(label, a, b, tol)

ALL = ['CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'CBS', 'PolarCBO', 'MirrorCBO', 'MirrorCBO:ball', 'DriftConstrainedCBO:plane', 'DriftConstrainedCBO:none',
       'DriftConstrainedCBO:sphere', 'HyperSurfaceCBO:sphere', 'HyperSurfaceCBO:plane', 'RegCombinationCBO:sphere', 'RegCombinationCBO:plane', 'RegCombinationCBO:none']

def whole_numbers(E, spec, M, N, d, steps=1, batch=None, noise='anisotropic'):
    """an ensemble of whole numbers goes through the same states whether it is given as integers or as floating point numbers"""
    n = M * N * int(numpy.prod(d))
    V = (numpy.arange(n) * 2 % 5 - 2).reshape((M, N) + tuple(d)); V[..., 0][V[..., 0] == 0] = 3
    f = E.objective('f', ddims=len(d)); A = E.array('alpha', (M, 1), pos=True); par = params(E)
    st = []
    for X in (V.astype(float), V):
        dyn = build(E, spec, M, N, d, batch=batch, noise=noise, X=X, A=A, par=par, f=f)
        dyn.terminate(); L = []
        for s in range(steps): step(E, dyn); L.append(state(E, dyn))
        st.append(L)
    for s in range(steps):
        a, b = st[0][s], st[1][s]
        E.check('step %d: same quantities' % s, set(a) == set(b))
        for k in a: E.eq('step %d: %s' % (s, k), b[k], a[k])
