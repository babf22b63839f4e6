"""C23 the torch backend computes the same step as the numpy backend, its helpers agree with the numpy ones."""
from props import common as C
BOUNDS = 'M <= 3 runs, N <= 4 particles, domains of up to two axes, up to 2 steps with both backends on the same arbitrary ensemble, objective values, draws and parameters (CBO, MirrorCBO, DriftConstrainedCBO, RegCombinationCBO; every batching mode, finished runs, isotropic, anisotropic and constant noise); effective sample size up to 2 bisection steps; networks of one layer with up to 3 parameters groups'
ASSUMPTIONS = ['exact arithmetic in double precision tensors', 'torch operations behave like the numpy operations of the same name (replays run real torch)']

def T(E): return E.mod('torch')
def ten(E, a): return T(E).from_numpy(a.copy())
def num(x): return x.detach().cpu().numpy() if hasattr(x, 'detach') else x
def tensor_like(x): return hasattr(x, 'detach')

def lift(E, f):
    """the objective on tensors"""
    def g(x): return T(E).from_numpy(f(num(x)))
    return g
class TSampler:
    def __init__(self, E, inner): self.E = E; self.inner = inner
    def __call__(self, size=None, *a, **k): return T(self.E).from_numpy(self.inner(size=tuple(size)))

# ---------------------------------------------------------------- helpers
def consensus(E, M, N, d, shift=None):
    U = E.mod('cbx.utils.torch_utils'); P = E.mod('cbx.dynamics.pdyn')
    e, x, a = E.array('e', (M, N)), E.array('x', (M, N) + tuple(d)), E.array('alpha', (M, 1), pos=True)
    c, en = U.compute_consensus_torch(ten(E, e), ten(E, x), ten(E, a))
    c2, en2 = P.compute_consensus_default()(e.copy(), x.copy(), a.copy())
    E.check('tensor', tensor_like(c)); E.check('array', not tensor_like(en))
    E.eq('consensus', num(c), c2); E.eq('energy', en, en2)

def polar(E, M, N, d, general=False):
    U = E.mod('cbx.utils.torch_utils'); P = E.mod('cbx.dynamics.polarcbo')
    e, x, a, n = E.array('e', (M, N)), E.array('x', (M, N) + tuple(d)), E.array('alpha', (M, 1, 1), pos=True), E.array('nl', (M, N, N))
    kf = E.real('kf', pos=True)
    c, en = U.compute_polar_consensus_torch(ten(E, e), ten(E, x), ten(E, n), alpha=ten(E, a), kernel_factor=kf)
    c2, en2 = P.compute_polar_consensus(e.copy(), x.copy(), n.copy(), alpha=a.copy(), kernel_factor=kf)
    E.check('tensor', tensor_like(c)); E.check('array', not tensor_like(en))
    E.eq('consensus', num(c), c2); E.eq('energy', en, en2)
    c3, _ = U.compute_polar_consensus_torch(ten(E, e), ten(E, x), ten(E, n))
    c4, _ = P.compute_polar_consensus(e.copy(), x.copy(), n.copy())
    E.eq('default parameters', num(c3), c4)

def norm(E, shape, axis, ord=None):
    U = E.mod('cbx.utils.torch_utils')
    x = E.array('x', shape)
    kw = {} if ord is None else dict(ord=float('inf') if ord == 'max' else ord)
    E.eq('norm', num(U.norm_torch(ten(E, x), axis=axis, **kw)), E.np.linalg.norm(x, axis=axis, **kw))

def post(E, M, N, kinds, thresh):
    """one component is nan, infinite or arbitrary; the default thresholds and a given one"""
    U = E.mod('cbx.utils.torch_utils'); P = E.mod('cbx.dynamics.pdyn')
    class D: pass
    x = E.array('x', (M, N, 1))
    for i, k in enumerate(kinds):
        if k != 'v': x[i // N % M, i % N, 0] = float(k)
    a, b = D(), D(); a.x = ten(E, x); b.x = x.copy()
    th = None if thresh is None else E.real('thresh', pos=True)
    pt = U.post_process_default_torch() if th is None else U.post_process_default_torch(max_thresh=th)
    pn = P.post_process_default() if th is None else P.post_process_default(max_thresh=th)
    pt(a); pn(b)
    E.check('tensor', tensor_like(a.x))
    E.eq('processed', num(a.x), b.x)

def ess(E, M, N, its, default=False):
    U = E.mod('cbx.utils.torch_utils'); S = E.mod('cbx.scheduler')
    class D: pass
    en = E.array('e', (M, N))
    eta = E.real('eta', lo=0, hi=1)
    mx = 1e5 if default else 8.0
    a, b = D(), D()
    for d, torch in ((a, True), (b, False)):
        d.M = M; d.energy = en.copy(); d.x = ten(E, E.array('x', (M, N, 1))) if torch else E.array('x', (M, N, 1))
        al = E.array('alpha', (M, 1), pos=True); d.alpha = ten(E, al) if torch else al.copy(); d.active_runs_idx = E.np.arange(M); d.N = N
    kw = {} if default else dict(maximum=mx)
    st = U.effective_sample_size(eta=eta, solve_max_it=its, **kw); sn = S.effective_sample_size(eta=eta, solve_max_it=its, **kw)
    E.check('the same defaults', st.minimum == sn.minimum and st.maximum == sn.maximum and U.effective_sample_size().eta == S.effective_sample_size().eta
            and U.effective_sample_size().solve_max_it == S.effective_sample_size().solve_max_it and U.effective_sample_size().maximum == S.effective_sample_size().maximum
            and U.effective_sample_size().name == S.effective_sample_size().name)
    st.update(a); sn.update(b)
    E.check('tensor', tensor_like(a.alpha))
    E.eq('alpha', num(a.alpha), b.alpha)
    E.eq('energy stays', a.energy, en)

def draws(E, shape):
    """the samplers return the draws of torch, the exponential one with the drawn signs"""
    t = T(E); U = E.mod('cbx.utils.torch_utils')
    z = E.array('z', shape); ex = E.array('exp', shape, pos=True); sg = [E.int('sign%s' % (ix,), 0, 1) for ix in E.idx(shape)]
    calls = []
    def randn(*a, size=None, **k):
        calls.append(('randn', tuple(size) if size is not None else a)); return ten(E, z)
    class Exponential:
        def __init__(self, rate): calls.append(('rate', rate))
        def sample(self, s): calls.append(('sample', tuple(s))); return ten(E, ex)
    def randint(lo, hi, size=None, **k):
        calls.append(('randint', (lo, hi, tuple(size)))); s = E.np.array(sg).reshape(shape); return T(E).tensor(s) if not hasattr(s, 'n') else s
    old = t.randn, t.randint, t.distributions.Exponential
    try:
        t.randn, t.randint, t.distributions.Exponential = randn, randint, Exponential
        E.eq('normal', num(U.standard_normal_torch('cpu')(size=shape)), z)
        r = U.exponential_torch('cpu')(size=shape)
        E.eq('exponential', E.np.abs(num(r)), ex)
        for q, ix in enumerate(E.idx(shape)): E.eq('sign %s' % (ix,), num(r)[ix], E.ite(sg[q] == 1, ex[ix], -ex[ix]))
    finally: t.randn, t.randint, t.distributions.Exponential = old
    E.check('the shape and the distribution asked for', calls[0] == ('randn', shape) and sorted(map(str, calls[1:])) == sorted(map(str, [('rate', 1.0), ('sample', shape), ('randint', (0, 2, shape))])))

def initial(E, M, N, d):
    """without an ensemble the particles are drawn from [-1, 1]; the other parameters become tensors of the ensemble's type"""
    U = E.mod('cbx.utils.torch_utils'); D = E.mod('cbx.dynamics')
    f = E.objective('f', ddims=1); al = E.real('al', pos=True)
    t = T(E); u = E.array('u', (M, N, d), lo=0, hi=1)
    def uniform_(self, lo=0.0, hi=1.0, **k): return self.copy_(ten(E, u) * (hi - lo) + lo)
    def rand(*a, size=None, **k): return ten(E, u)
    old = t.Tensor.uniform_, t.rand
    t.Tensor.uniform_, t.rand = uniform_, rand
    try: dyn = U.to_torch_dynamic(D.CBO)(lift(E, f), f_dim='3D', check_f_dims=False, M=M, N=N, d=d, alpha=3.0, term_criteria=[C.Switch(M)], verbosity=0, track_args=dict(names=[]))
    finally: t.Tensor.uniform_, t.rand = old
    E.check('tensors', tensor_like(dyn.x) and tensor_like(dyn.alpha) and tensor_like(dyn.best_particle))
    E.check('shapes', tuple(dyn.x.shape) == (M, N, d) and tuple(dyn.alpha.shape) == (M, 1) and (dyn.M, dyn.N) == (M, N) and tuple(dyn.d) == (d,))
    x = num(dyn.x)
    for ix in E.idx((M, N, d)): E.eq('uniform in [-1, 1] %s' % (ix,), x[ix], 2 * u[ix] - 1, tol=1e-5)
    E.eq('alpha', num(dyn.alpha), E.np.full((M, 1), 3.0))

# ---------------------------------------------------------------- whole steps
def pair(E, spec, M, N, d, batch, noise, active, post, seed=True, alpha='tensor', save=False):
    U = E.mod('cbx.utils.torch_utils')
    f = E.objective('f', ddims=len(d)); par = C.params(E)
    X, A = E.array('x', (M, N) + tuple(d)), E.array('alpha', (M, 1), pos=True)
    out = []
    for torch in (False, True):
        cls = getattr(E.mod('cbx.dynamics'), C.clsname(spec))
        if torch: cls = U.to_torch_dynamic(cls)
        opt = C.options(E, spec, d)
        if C.clsname(spec) == 'MirrorCBO': opt['mirrormap'] = None
        sw = C.Switch(M)
        if active is not None: sw.stop = [r not in active for r in range(M)]
        smp = C.RowSampler(E, 'z', list(range(M)))
        if batch: opt['batch_args'] = dict(size=batch[0], partial=batch[1], seed=E.rowseed('batch', list(range(M))))
        if not post: opt['post_process'] = E.quiet_post()
        a = A.copy()
        if alpha == 'float': a = 2.0
        elif torch: a = ten(E, A)
        dyn = cls(lift(E, f) if torch else f, f_dim='3D', check_f_dims=False, x=ten(E, X) if torch else X.copy(), alpha=a, dt=par['dt'], lamda=par['lamda'], sigma=par['sigma'],
                  sampler=TSampler(E, smp) if torch else smp, noise=noise, track_args=dict(names=['x', 'energy', 'update_norm'] if save else []), term_criteria=[sw], verbosity=0, save_consensus_eval_points=save, **opt)
        smp.active = lambda dyn=dyn: [int(i) for i in dyn.active_runs_idx]
        out.append(dyn)
    return out

KEYS = ('x', 'x_eval', 'energy', 'consensus', 'drift', 'best_particle', 'best_energy', 'best_cur_particle', 'best_cur_energy', 'f_min', 'update_diff', 'num_f_eval', 'alpha', 'consensus_eval_points')
TENSORS = ('x', 'consensus', 'best_particle')
def compare(E, label, n, t):
    for k in KEYS:
        u, v = getattr(n, k, None), getattr(t, k, None)
        if u is None and v is None: continue
        E.check('%s: both have %s' % (label, k), u is not None and v is not None)
        E.eq('%s: %s' % (label, k), num(v), u)
    for k in TENSORS: E.check('%s: %s is a tensor' % (label, k), tensor_like(getattr(t, k)))
    E.check('%s: step counter' % label, n.it == t.it); E.eq('%s: time' % label, n.t, t.t)
    E.check(label + ': the numpy form is an array', not tensor_like(t.to_numpy(t.x))); E.eq(label + ': the numpy form', t.to_numpy(t.x), num(t.x))

def steps(E, spec, M, N, d, batch=None, noise='anisotropic', active=None, n=1, post=False, alpha='tensor', save=False):
    a, b = pair(E, spec, M, N, d, batch, noise, active, post, alpha=alpha, save=save)
    for k in range(n):
        for dyn in (a, b):
            dyn.terminate(); C.step(E, dyn)
        compare(E, 'step %d' % k, a, b)
    if save:
        for k in ('x', 'energy', 'update_norm'):
            u, v = a.history[k], b.history[k]
            E.check('history of %s' % k, len(u) == len(v))
            for i in range(len(u)): E.eq('history of %s, entry %d' % (k, i), num(v[i]), num(u[i]))

def name_kept(E):
    """the conversion keeps class, constructor arguments and methods of the dynamic"""
    U = E.mod('cbx.utils.torch_utils'); D = E.mod('cbx.dynamics')
    for k in ('CBO', 'MirrorCBO', 'DriftConstrainedCBO', 'RegCombinationCBO', 'CBS'):
        c = U.to_torch_dynamic(getattr(D, k))
        E.check(k + ' is a subclass', issubclass(c, getattr(D, k)))
        E.check(k + ' keeps its step', c.inner_step is getattr(D, k).inner_step and c.step is getattr(D, k).step)

# ---------------------------------------------------------------- networks
def nets(E, sizes, pres):
    t = T(E)
    class Net(t.nn.Module):
        def __init__(self, pre):
            super().__init__()
            for n, s in sizes: setattr(self, n, t.nn.Parameter(ten(E, E.array('%s.%s' % (pre, n), s))))
        def forward(self, x):
            r = x @ self.w.T
            return r + self.b if any(n == 'b' for n, _ in sizes) else r
    return [Net(p) for p in pres]

def networks(E, K, i, o, B, bias=True, order=None):
    """parameters flattened to an ensemble and read back give the same networks"""
    U = E.mod('cbx.utils.torch_utils'); t = T(E)
    sizes = [('w', (o, i))] + ([('b', (o,))] if bias else [])
    models = nets(E, sizes, ['net%d' % k for k in range(K)])
    names = [n for n, _ in sizes]
    if order == 'reverse': names = names[::-1]
    pp = U.get_param_properties(models, pnames=names) if order is not None else U.get_param_properties(models)
    w = U.flatten_parameters(models, names)
    dim = o * i + (o if bias else 0)
    E.check('one row of all parameters per network', tuple(w.shape) == (K, dim))
    a = 0
    for n in names:
        s = dict(sizes)[n]; sz = 1
        for q in s: sz *= q
        E.check('properties of ' + n, tuple(pp[n][0]) == tuple(s) and pp[n][1] == a and pp[n][2] == a + sz)
        for k in range(K): E.eq('parameters %s of network %d' % (n, k), num(w[k, a:a + sz]).reshape(s), E.array('net%d.%s' % (k, n), s))
        a += sz
    E.check('no other parameters', list(pp) == names)
    x = ten(E, E.array('in', (B, i)))
    y = U.eval_models(x, models[0], w, pp)
    E.check('outputs', tuple(y.shape) == (K, B, o))
    X = E.array('in', (B, i))
    for k in range(K):
        W = E.array('net%d.w' % k, (o, i)); bb = E.array('net%d.b' % k, (o,)) if bias else None
        for q in range(B):
            for j in range(o):
                want = E.sum(X[q, r] * W[j, r] for r in range(i)) + (bb[j] if bias else 0)
                E.eq('network %d, input %d, output %d' % (k, q, j), num(y)[k, q, j], want)
        E.eq('single network %d' % k, num(U.eval_model(x, models[0], w[k], pp)), num(y)[k])
    target = E.array('target', (B, o))
    loss = lambda p, q: t.sum((p - q) ** 2)
    L = U.eval_losses(x, ten(E, target), loss, models[0], w, pp)
    for k in range(K):
        E.eq('loss of network %d' % k, num(L)[k], E.sum((num(y)[k, q, j] - target[q, j]) * (num(y)[k, q, j] - target[q, j]) for q in range(B) for j in range(o)))
        E.eq('single loss of network %d' % k, num(U.eval_loss(x, ten(E, target), loss, models[0], w[k], pp)), num(L)[k])
    for k in range(K):
        for n, s in sizes: E.eq('network %d keeps its %s' % (k, n), num(dict(models[k].named_parameters())[n]), E.array('net%d.%s' % (k, n), s))

def accuracy(E, o, sizes):
    """fraction of the inputs, over all parts of the data, whose largest output is the label"""
    U = E.mod('cbx.utils.torch_utils'); t = T(E)
    m, = nets(E, [('w', (o, 1))], ['net']); pp = U.get_param_properties([m]); w = U.flatten_parameters([m], ['w'])[0]
    W = E.array('net.w', (o, 1)); data = []; right = 0; n = 0
    for q, s in enumerate(sizes):
        x = E.array('in%d' % q, (s, 1)); y = [E.choice('label%d.%d' % (q, j), o) for j in range(s)]
        data.append((ten(E, x), t.tensor(y)))
        for j in range(s):
            out = [x[j, 0] * W[c, 0] for c in range(o)]
            best = 0
            for c in range(1, o):
                if E.decided(E.strict(out[best], out[c])): best = c
                elif not E.decided(E.strict(out[c], out[best])): E.assume(False)
            right += best == y[j]; n += 1
    E.eq('accuracy', num(U.eval_acc(m, w, pp, data)) * n, right, tol=1e-6)

def instances(tier):
    th = tier == 'thorough'
    I = []
    def add(h, **p):
        ex = {k: p.pop(k) for k in ('timeout', 'max_paths', 'validate', 'cost', 'eager', 'welldef') if k in p}
        I.append(dict(h=h, params=p, torch=True, **ex))
    for M, N, d in [(1, 2, (1,)), (2, 3, (2,)), (2, 2, (2, 2)), (1, 1, (2,)), (2, 4, (1, 2))] + ([(3, 4, (3,)), (2, 5, (2, 3))] if th else []): add('consensus', M=M, N=N, d=d)
    for M, N, d in [(1, 2, (1,)), (2, 2, (2,)), (1, 2, (2, 2)), (2, 3, (1,))] + ([(2, 3, (2, 2)), (3, 3, (2,))] if th else []): add('polar', M=M, N=N, d=d)
    for s, a in [((2, 3), -1), ((2, 2, 2), -1), ((2, 3, 2), 1), ((3, 2), 0)]: add('norm', shape=s, axis=a)
    for o in (1, 'max'): add('norm', shape=(2, 3), axis=-1, ord=o)
    for kinds in [('v', 'v', 'v'), ('nan', 'v', 'v'), ('inf', '-inf', 'v'), ('-inf', 'nan', 'inf')]:
        for tr in (None, 1): add('post', M=1, N=3, kinds=kinds, thresh=tr)
    add('ess', M=1, N=2, its=1); add('ess', M=2, N=2, its=2); add('ess', M=1, N=2, its=1, default=True)
    if th: add('ess', M=2, N=3, its=3)
    add('draws', shape=(2, 2)); add('draws', shape=(1, 2, 1)); add('initial', M=2, N=2, d=2); add('initial', M=1, N=3, d=1); add('name_kept')
    for spec in ('CBO', 'MirrorCBO', 'DriftConstrainedCBO:none', 'RegCombinationCBO:none'):
        for noise in ('anisotropic', 'isotropic', 'constant') if spec == 'CBO' else ('anisotropic',):
            add('steps', spec=spec, M=2, N=2, d=(2,), noise=noise)
        add('steps', spec=spec, M=2, N=3, d=(1,), batch=(2, True)); add('steps', spec=spec, M=3, N=2, d=(1,), active=(0, 2))
    add('steps', spec='CBO', M=2, N=3, d=(1,), batch=(2, False)); add('steps', spec='CBO', M=3, N=3, d=(1,), batch=(2, False), active=(1, 2)); add('steps', spec='CBO', M=3, N=3, d=(1,), batch=(2, True), active=(0, 2))
    add('steps', spec='CBO', M=2, N=2, d=(2, 2)); add('steps', spec='CBO', M=2, N=2, d=(2, 2), noise='isotropic', active=(1,)); add('steps', spec='CBO', M=2, N=2, d=(1,), n=2); add('steps', spec='CBO', M=1, N=3, d=(1,), n=2, batch=(2, True))
    add('steps', spec='CBO', M=2, N=2, d=(1,), post=True); add('steps', spec='CBO', M=2, N=2, d=(1,), alpha='float'); add('steps', spec='CBO', M=2, N=2, d=(1,), n=2, save=True)
    add('steps', spec='CBS:optimization', M=2, N=2, d=(1,), noise='anisotropic')
    if th:
        for spec in ('CBO', 'MirrorCBO', 'DriftConstrainedCBO:none', 'RegCombinationCBO:none'):
            add('steps', spec=spec, M=2, N=4, d=(2,), noise='isotropic', batch=(2, False), n=2); add('steps', spec=spec, M=3, N=3, d=(2, 2), active=(0, 2), n=2)
    for K, i, o, B, b, od in [(1, 1, 1, 1, True, None), (2, 2, 2, 1, True, None), (2, 2, 1, 2, True, 'reverse'), (3, 1, 2, 2, False, None), (2, 3, 2, 1, True, 'same')]: add('networks', K=K, i=i, o=o, B=B, bias=b, order=od)
    add('accuracy', o=2, sizes=(1, 2)); add('accuracy', o=3, sizes=(1,)); add('accuracy', o=2, sizes=(2, 1))
    return I
