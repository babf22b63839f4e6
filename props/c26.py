"""C26 variant dynamics follow their documented update equations and reduce to CBO without their extra mechanism."""
from props import common as C
BOUNDS = 'one step from an arbitrary state (and two/three steps from the start in the moment estimates); M in {1,2,3}, N in {1,2,3}, domain (1,),(2,), (2,2) for AdamCBO, PSO and the memory variant; arbitrary noise callable; batches and active subsets; iteration numbers 0, 1, 2, 7'
ASSUMPTIONS = ['implicit steps with a singular matrix are outside the bounds', 'the correctness of the noise models, the consensus formula and the constraint derivatives is C04, C01 and C17']

class Recorder:
    """an arbitrary noise model: remembers the drifts it is given and answers with arbitrary numbers"""
    def __init__(self, E): self.E = E; self.reset()
    def reset(self): self.drift = []; self.value = []
    n = 0
    def __call__(self, dyn):
        self.drift.append(dyn.drift.copy()); self.n += 1
        self.value.append(self.E.array('noise#%d' % self.n, self.E.shape(dyn.drift)))
        return self.value[-1].copy()

def row(E, arr, dyn, k, r, j, idx, N):
    """entry of particle j of run r in an array over the updated particles (or over all particles)"""
    s = E.shape(arr); act = C.active_of(dyn); mv = C.moved(dyn, r, N)
    return arr[(k if s[0] == len(act) else r, mv.index(j) if s[1] == len(mv) else j) + idx]

def each(E, dyn, M, N):
    """(active position, run, particle, updated?)"""
    act = C.active_of(dyn)
    for r in range(M):
        for j in range(N):
            yield (act.index(r) if r in act else None), r, j, (r in act and j in C.moved(dyn, r, N))

def cons(E, label, dyn, k, r, d, points, energies, B, al):
    w = [E.exp(-al * energies[r, b]) for b in B]
    vals, ix = E.wmean(w, [points[r, b] for b in B])
    for v, i in zip(vals, ix): E.eq(label + ' consensus of run %d %s' % (r, i), dyn.consensus[(k, 0) + i], v)

def setup(E, spec, M, N, d, active, batch, start='havoc', **kw):
    f = E.objective('f', ddims=len(d)); A = E.array('alpha', (M, 1), pos=True)
    par = C.params(E); par['dt'] = E.real('dt', pos=True)
    rec = Recorder(E)
    dyn = C.build(E, spec, M, N, d, active=active, batch=batch, noise=rec, f=f, A=A, par=par, **kw)
    dyn.terminate()
    if start == 'havoc': C.havoc(E, dyn, list(range(M)))
    return dyn, f, A, par, rec

def adam(E, M, N, d, active=None, batch=None, it=0, steps=1, start='havoc', default=False):
    b = (0.9, 0.99) if default else (E.real('beta0', lo=0.0625, hi=0.875), E.real('beta1', lo=0.0625, hi=0.9375))
    kw = {} if default else dict(betas=b, eps=E.real('eps', lo=0.0009765625, hi=1.0))
    dyn, f, A, par, rec = setup(E, 'AdamCBO', M, N, d, active, batch, start, **kw)
    eps = 1e-8 if default else kw['eps']
    dyn.it = it
    if start != 'havoc': E.eq('no momentum at the start', dyn.m, 0 * dyn.x); E.eq('no second moment at the start', dyn.v, 0 * dyn.x)
    for s in range(steps):
        x0, m0, v0 = dyn.x.copy(), dyn.m.copy(), dyn.v.copy(); rec.reset(); t = dyn.it + 1
        dyn.step()
        for k, r, j, mvd in each(E, dyn, M, N):
            lab = 's%d %d,%d ' % (s, r, j)
            if not mvd:
                for nm, a, z in (('x', dyn.x, x0), ('m', dyn.m, m0), ('v', dyn.v, v0)): E.eq(lab + nm + ' of an unscheduled particle', a[r, j], z[r, j])
                continue
            for i in E.idx(d):
                q = (r, j) + i; dr = x0[q] - dyn.consensus[(k, 0) + i]
                m = b[0] * m0[q] + (1 - b[0]) * dr
                v = b[1] * v0[q] + (1 - b[1]) * dr * dr
                E.eq(lab + 'first moment', dyn.m[q], m); E.eq(lab + 'second moment', dyn.v[q], v)
                E.eq(lab + 'drift seen by the noise', row(E, rec.drift[-1], dyn, k, r, j, i, N), dr)
                mh = m / (1 - b[0] ** t); vh = v / (1 - b[1] ** t)
                n = row(E, rec.value[-1], dyn, k, r, j, i, N)
                E.eq(lab + 'update', dyn.x[q], x0[q] - par['lamda'] * (mh / (E.sqrt(vh) + eps)) + par['sigma'] * n)
        for k, r in enumerate(C.active_of(dyn)): cons(E, 's%d' % s, dyn, k, r, d, x0, dyn.energy, C.scheduled(dyn, r, N), A[r, 0])

def improved(E, lab, dyn, r, j, f, y0, e0, d):
    e = f(dyn.x[r, j])
    better = E.strict(e, e0[r, j])
    E.eq(lab + 'best energy of the particle', dyn.energy[r, j], E.ite(better, e, e0[r, j]))
    for i in E.idx(d): E.eq(lab + 'best position of the particle', dyn.y[(r, j) + i], E.ite(better, dyn.x[(r, j) + i], y0[(r, j) + i]))

def pso(E, M, N, d, active=None, batch=None, start='havoc', correction='no_correction', default=False, steps=1):
    kw = {} if default else dict(m=E.real('mass', pos=True), gamma=E.real('gamma', pos=True), lamda_memory=E.real('lm', pos=True), sigma_memory=E.real('sm', pos=True))
    if correction == 'heavi_side_reg': kw['correction_eps'] = 0.5
    dyn, f, A, par, rec = setup(E, 'PSO', M, N, d, active, batch, start, correction=correction, **kw)
    ms = 0.001 if default else kw['m']; ga = 0.999 if default else kw['gamma']; lm = 0.4 if default else kw['lamda_memory']; sm = 0.4 * par['sigma'] if default else kw['sigma_memory']
    if start != 'havoc':
        E.eq('at rest at the start', dyn.v, 0 * dyn.x); E.eq('memory at the start', dyn.y, dyn.x)
        for r in range(M):
            for j in range(N): E.eq('energy at the start %d,%d' % (r, j), dyn.energy[r, j], f(dyn.x[r, j]))
    dt = par['dt']
    for s in range(steps):
        x0, v0, y0, e0 = dyn.x.copy(), dyn.v.copy(), dyn.y.copy(), dyn.energy.copy(); rec.reset()
        dyn.step()
        for k, r in enumerate(C.active_of(dyn)): cons(E, 's%d' % s, dyn, k, r, d, y0, e0, C.scheduled(dyn, r, N), A[r, 0])
        for k, r, j, mvd in each(E, dyn, M, N):
            lab = 's%d %d,%d ' % (s, r, j)
            if not mvd:
                for nm, a, z in (('x', dyn.x, x0), ('y', dyn.y, y0), ('v', dyn.v, v0), ('energy', dyn.energy, e0)): E.eq(lab + nm + ' of an unscheduled particle', a[r, j], z[r, j])
                continue
            w = 1.0
            if correction != 'no_correction':
                fc = f(dyn.consensus[k, 0])
                w = E.ite(E.strict(fc, e0[r, j]), 1.0, 0.0) if correction == 'heavi_side' else 0.5 + 0.5 * E.fn('tanh', (e0[r, j] - fc) / 0.5)
            for i in E.idx(d):
                q = (r, j) + i; dc = x0[q] - dyn.consensus[(k, 0) + i]; dm = x0[q] - y0[q]
                E.eq(lab + 'consensus drift seen by the noise', row(E, rec.drift[0], dyn, k, r, j, i, N), dc)
                E.eq(lab + 'memory drift seen by the noise', row(E, rec.drift[1], dyn, k, r, j, i, N), dm)
                n = par['sigma'] * row(E, rec.value[0], dyn, k, r, j, i, N) + sm * row(E, rec.value[1], dyn, k, r, j, i, N)
                v = (ms * v0[q] - w * par['lamda'] * dt * dc - lm * dt * dm + n) / (ms + ga * dt)
                E.eq(lab + 'velocity', dyn.v[q], v); E.eq(lab + 'position', dyn.x[q], x0[q] + dt * v)
            improved(E, lab, dyn, r, j, f, y0, e0, d)

def memory(E, M, N, d, active=None, batch=None, start='havoc', default=False, steps=1, correction='no_correction'):
    kw = {} if default else dict(lamda_memory=E.real('lm', pos=True), sigma_memory=E.real('sm', pos=True))
    dyn, f, A, par, rec = setup(E, 'CBOMemory', M, N, d, active, batch, start, correction=correction, **kw)
    lm = 0.4 if default else kw['lamda_memory']; sm = 0.4 * par['sigma'] if default else kw['sigma_memory']
    if start != 'havoc': E.eq('memory at the start', dyn.y, dyn.x)
    dt = par['dt']
    for s in range(steps):
        x0, y0, e0 = dyn.x.copy(), dyn.y.copy(), dyn.energy.copy(); rec.reset()
        dyn.step()
        for k, r in enumerate(C.active_of(dyn)): cons(E, 's%d' % s, dyn, k, r, d, y0, e0, C.scheduled(dyn, r, N), A[r, 0])
        for k, r, j, mvd in each(E, dyn, M, N):
            lab = 's%d %d,%d ' % (s, r, j)
            if not mvd:
                for nm, a, z in (('x', dyn.x, x0), ('y', dyn.y, y0), ('energy', dyn.energy, e0)): E.eq(lab + nm + ' of an unscheduled particle', a[r, j], z[r, j])
                continue
            w = 1.0
            if correction == 'heavi_side': w = E.ite(E.strict(f(dyn.consensus[k, 0]), e0[r, j]), 1.0, 0.0)
            for i in E.idx(d):
                q = (r, j) + i; dc = w * (x0[q] - dyn.consensus[(k, 0) + i])
                xs = x0[q] - par['lamda'] * dt * dc + par['sigma'] * row(E, rec.value[0], dyn, k, r, j, i, N)
                dm = xs - y0[q]
                E.eq(lab + 'consensus drift seen by the noise', row(E, rec.drift[0], dyn, k, r, j, i, N), dc)
                E.eq(lab + 'memory drift seen by the noise', row(E, rec.drift[1], dyn, k, r, j, i, N), dm)
                E.eq(lab + 'position', dyn.x[q], xs - lm * dt * dm + sm * row(E, rec.value[1], dyn, k, r, j, i, N))
            improved(E, lab, dyn, r, j, f, y0, e0, d)

def cbs(E, M, N, d, mode, active=None, noise='covariance'):
    """sampling: unit noise parameter whatever sigma is given; noise scaled by the temperature in sampling mode only"""
    f = E.objective('f', ddims=1); A = E.array('alpha', (M, 1), pos=True)
    par = C.params(E); par['dt'] = E.real('dt', pos=True)
    dyn = C.build(E, 'CBS:' + mode, M, N, d, active=active, noise=noise, f=f, A=A, par=par)
    dyn.terminate(); x0 = dyn.x.copy()
    dyn.step()
    act = C.active_of(dyn); dyn.sampler.k = 0; z = dyn.sampler(dyn.sampler.sizes[-1])
    for k, r in enumerate(act): cons(E, '', dyn, k, r, d, x0, dyn.energy, range(N), A[r, 0])
    for k, r, j, mvd in each(E, dyn, M, N):
        if not mvd: E.eq('finished run %d' % r, dyn.x[r, j], x0[r, j]); continue
        al = A[r, 0]; c = [dyn.consensus[(k, 0) + i] for i in E.idx(d)]
        w = [E.exp(-al * f(x0[r, b])) for b in range(N)]
        var = E.sum([w[b] * (x0[r, b, 0] - c[0]) * (x0[r, b, 0] - c[0]) for b in range(N)]) / E.sum(w)
        fac = 2 * par['dt'] * (1 + al if mode == 'sampling' else 1)
        rest = dyn.x[r, j, 0] - (x0[r, j, 0] - par['lamda'] * par['dt'] * (x0[r, j, 0] - c[0]))
        E.eq('squared noise of %d,%d' % (r, j), rest * rest, fac * var * z[k, j, 0] * z[k, j, 0])

def cbs_refuses(E, what):
    D = E.mod('cbx.dynamics')
    kw = dict(x=E.array('x', (1, 3) + ((2, 2) if what == 'domain' else (1,))))
    if what == 'batch': kw['batch_args'] = dict(size=2)
    try: D.CBS(E.objective('f'), f_dim='3D', check_f_dims=False, verbosity=0, **kw); ok = False
    except NotImplementedError: ok = True
    E.check('unsupported setting is refused', ok)

def cbs_run(E, M, steps):
    """run() and optimize() do the same steps and optimize() returns the best particles"""
    f = E.objective('f'); A = E.array('alpha', (M, 1), pos=True); X = E.array('x', (M, 2, 1)); par = C.params(E)
    out = []
    for how in ('run', 'optimize'):
        dyn = C.build(E, 'CBS', M, 2, (1,), f=f, A=A, X=X, par=par)
        dyn.term_criteria = [lambda q: E.np.array([q.it >= steps] * M)]
        res = dyn.run(sched=None) if how == 'run' else dyn.optimize(sched=None)
        out.append(dyn)
    E.eq('same ensemble', out[0].x, out[1].x); E.eq('optimize returns the best particles', res, out[1].best_particle)
    E.eq('same best energies', out[0].best_energy, out[1].best_energy); E.check('iterations', int(out[0].it) == steps)

def gradients(E, var, d):
    """formulas of the constraints of C.options"""
    if var == 'sphere': return [(lambda x: E.sum([v * v for v in x]) - 1.0, lambda x: [2 * v for v in x], 2.0)]
    pl = {'plane': [((3.0, 4.0), 0.5)], 'indep': [((3.0, 4.0), 0.5)], 'two': [((3.0, 4.0), 0.5), ((4.0, 3.0), 0.25)], 'none': []}[var]
    out = []
    for a, b in pl:
        a = E.np.array(a[:d]); n = E.norm2(list(a)); u = list(a / n)
        out.append((lambda x, u=u, b=b, n=n: E.sum([p * q for p, q in zip(u, x)]) - b / n, lambda x, u=u: u, 0.0))
    return out

def constrained(E, var, M, N, d, active=None, batch=None):
    """(I + dt/eps H)(x' - x) = -(lamda dt drift + dt/eps grad + sigma noise), H and grad of the sum of the squared constraints"""
    dyn, f, A, par, rec = setup(E, 'DriftConstrainedCBO:' + var, M, N, d, active, batch)
    x0 = dyn.x.copy(); G = gradients(E, var, d[0]); fac = par['dt'] / 0.5
    C.step(E, dyn)
    for k, r in enumerate(C.active_of(dyn)): cons(E, '', dyn, k, r, d, x0, dyn.energy, C.scheduled(dyn, r, N), A[r, 0])
    for k, r, j, mvd in each(E, dyn, M, N):
        lab = '%d,%d ' % (r, j)
        if not mvd: E.eq(lab + 'of an unscheduled particle', dyn.x[r, j], x0[r, j]); continue
        D = range(d[0]); x = [x0[r, j, i] for i in D]; u = [x0[r, j, i] - dyn.x[r, j, i] for i in D]
        for i in D:
            dr = x[i] - dyn.consensus[k, 0, i]
            E.eq(lab + 'drift seen by the noise', row(E, rec.drift[-1], dyn, k, r, j, (i,), N), dr)
            grad = E.sum([2 * g(x) * dg(x)[i] for g, dg, h in G])
            Hu = E.sum([2 * (dg(x)[i] * dg(x)[l] + (g(x) * h if i == l else 0.0)) * u[l] for g, dg, h in G for l in D])
            E.eq(lab + 'implicit step %d' % i, u[i] + fac * Hu, par['lamda'] * par['dt'] * dr + fac * grad + par['sigma'] * row(E, rec.value[-1], dyn, k, r, j, (i,), N))

def indep(E, M, N, d, active=None, draws=1):
    """independent noise while an active run has concentrated around its last consensus, then the constrained step"""
    rows = list(range(M)); smp = C.RowSampler(E, 'w', rows); smp.free = draws * M
    f = E.objective('f', ddims=1); A = E.array('alpha', (M, 1), pos=True); par = C.params(E)
    rec = Recorder(E)
    dyn = C.build(E, 'DriftConstrainedCBO:indep', M, N, d, noise=rec, f=f, A=A, par=par, sampler=smp)
    log = []
    def sampler(size):
        size = tuple(int(s) for s in size)
        if len(log) >= draws: E.assume(False)
        log.append(E.array('w#%d' % len(log), size)); snaps.append(dyn.x.copy()); return log[-1].copy()
    snaps = []
    dyn.terminate(); dyn.step(); dyn.sampler = sampler
    E.check('no independent noise before there is a consensus', not log)
    if active is not None: dyn._switch.stop = [r not in active for r in rows]
    dyn.terminate()
    dyn.x[...] = E.array('x1', (M, N) + d); dyn.last_consensus[...] = E.array('c1', (M, 1) + d)
    cur = dyn.x.copy(); c = dyn.last_consensus.copy()
    dyn.indep_noise_step()
    act = C.active_of(dyn)
    conc = lambda x, r: E.strict(E.sum([(x[r, j, i] - c[r, 0, i]) * (x[r, j, i] - c[r, 0, i]) for j in range(N) for i in range(d[0])]) / (N * d[0]), 0.125)
    for s, w in enumerate(log):
        E.eq('draw %d: ensemble so far' % s, snaps[s], cur)
        who = [r for r in act if bool(conc(cur, r))]
        E.check('draw %d: size' % s, E.shape(w) == (len(who), N) + d)
        for a, r in enumerate(who): cur[r] = cur[r] + 0.5 * E.sqrt(par['dt']) * w[a]
    E.eq('ensemble after the independent noise', dyn.x, cur)
    for r in act: E.check('run %d is not concentrated afterwards' % r, E.not_(conc(cur, r)))

def indep_state(E, M, N, d, active=None):
    """the consensus remembered for the next step is the one of each active run"""
    f = E.objective('f', ddims=1); rec = Recorder(E)
    dyn = C.build(E, 'DriftConstrainedCBO:plane', M, N, d, noise=rec, f=f, active=active)
    dyn.terminate(); dyn.last_consensus[...] = E.array('c0', (M, 1) + d); c0 = dyn.last_consensus.copy()
    C.step(E, dyn); act = C.active_of(dyn)
    for r in range(M): E.eq('remembered consensus of run %d' % r, dyn.last_consensus[r, 0], dyn.consensus[act.index(r), 0] if r in act else c0[r, 0])

def regcomb(E, var, M, N, d, active=None, batch=None, nu=None, huge=False):
    """objective f + (1/nu) sum g^2; implicit step for the gradient of the squared constraint (g frozen)"""
    nu = E.real('nu', pos=True)
    kw = dict(nu=nu)
    if huge: kw['eps'] = 1e16
    dyn, f, A, par, rec = setup(E, 'RegCombinationCBO:' + var, M, N, d, active, batch, **kw)
    x0 = dyn.x.copy(); G = gradients(E, var, d[0]); fac = par['dt'] / 0.5
    if var == 'sphere':                 # regular systems only
        for r in range(M):
            for j in range(N): E.assume(E.not_(E.feq(1 + 4 * fac * G[0][0](list(x0[r, j])), 0.0)))
    C.step(E, dyn)
    reg = lambda x: f(x) + E.sum([g(list(x)) * g(list(x)) for g, dg, h in G]) / nu
    act = C.active_of(dyn)
    for k, r in enumerate(act):
        B = C.scheduled(dyn, r, N)
        for b in B: E.eq('energy %d,%d' % (r, b), dyn.energy[r, b], reg(x0[r, b]))
        cons(E, '', dyn, k, r, d, x0, dyn.energy, B, A[r, 0])
    for k, r, j, mvd in each(E, dyn, M, N):
        lab = '%d,%d ' % (r, j)
        if not mvd: E.eq(lab + 'of an unscheduled particle', dyn.x[r, j], x0[r, j]); continue
        D = range(d[0]); x = [x0[r, j, i] for i in D]; y = [dyn.x[r, j, i] for i in D]
        for i in D:
            dr = x[i] - dyn.consensus[k, 0, i]
            E.eq(lab + 'drift seen by the noise', row(E, rec.drift[-1], dyn, k, r, j, (i,), N), dr)
            rhs = x[i] - par['lamda'] * par['dt'] * dr + par['sigma'] * row(E, rec.value[-1], dyn, k, r, j, (i,), N)
            if huge: E.eq(lab + 'explicit step %d' % i, y[i], rhs); continue
            # sphere: gradient at the new point, plane: constant gradient
            E.eq(lab + 'implicit step %d' % i, y[i] + fac * E.sum([2 * g(x) * (dg(y)[i]) for g, dg, h in G]), rhs)

def reduces(E, spec, M, N, d, active=None, batch=None, steps=1, noise='anisotropic', **kw):
    """without the extra mechanism the step is the one of CBO"""
    f = E.objective('f', ddims=len(d)); A = E.array('alpha', (M, 1), pos=True); X = E.array('x', (M, N) + tuple(d)); par = C.params(E)
    if spec == 'PSO': kw = dict(m=0.0, gamma=1.0, lamda_memory=0.0, sigma_memory=0.0)
    if spec == 'CBOMemory': kw = dict(lamda_memory=0.0, sigma_memory=0.0)
    a = C.build(E, spec, M, N, d, active=active, batch=batch, f=f, A=A, X=X, par=par, noise=noise, **kw)
    b = C.build(E, 'CBO', M, N, d, active=active, batch=batch, f=f, A=A, X=X, par=par, noise=noise)
    if spec.startswith('DriftConstrainedCBO'):      # its noise enters with the opposite sign: same law, mirrored draws
        inner = b.noise_callable.sampler
        b.noise_callable.sampler = lambda size: -inner(size)
    for s in range(steps):
        for q in (a, b): q.terminate(); q.step()
        E.eq('s%d same consensus' % s, a.consensus, b.consensus)
        if spec != 'PSO': E.eq('s%d same ensemble' % s, a.x, b.x)
        else: E.eq('s%d same ensemble' % s, a.x, b.x)
    if spec not in ('PSO', 'CBOMemory'):
        E.eq('same energies', a.energy, b.energy); E.eq('same best', a.best_particle, b.best_particle)

def whole_numbers(E, spec, M, N, d, **k): C.whole_numbers(E, spec, M, N, d, **k)

def instances(tier):
    o = lambda h, **k: dict(h=h, params=k)
    out = []
    shapes = [dict(M=1, N=2, d=(2,)), dict(M=2, N=2, d=(1,)), dict(M=1, N=3, d=(1,)), dict(M=3, N=2, d=(1,), active=(0, 2)), dict(M=2, N=2, d=(2,), active=(1,)),
              dict(M=1, N=3, d=(1,), batch=(2, True)), dict(M=1, N=3, d=(1,), batch=(2, False)), dict(M=2, N=3, d=(1,), batch=(2, True), active=(1,)), dict(M=2, N=2, d=(1,), batch=(1, False), active=(0,)), dict(M=1, N=1, d=(2, 2))]
    for h in ('adam', 'pso', 'memory'):
        for s in shapes: out.append(o(h, **s))
        out += [o(h, M=1, N=2, d=(1,), start='begin', default=True), o(h, M=2, N=1, d=(1,), start='begin', steps=2)]
    for it in (1, 2, 7): out.append(o('adam', M=1, N=2, d=(1,), it=it))
    out += [o('adam', M=1, N=1, d=(1,), start='begin', steps=3, default=True), o('adam', M=2, N=2, d=(1,), active=(1,), it=3, default=True)]
    for c in ('heavi_side', 'heavi_side_reg'): out += [o('pso', M=1, N=2, d=(1,), correction=c), o('pso', M=2, N=2, d=(1,), active=(1,), correction=c)]
    out += [o('memory', M=1, N=2, d=(1,), correction='heavi_side')]
    for mode in ('sampling', 'optimization'): out += [o('cbs', M=1, N=2, d=(1,), mode=mode), o('cbs', M=2, N=2, d=(1,), mode=mode), o('cbs', M=2, N=2, d=(1,), mode=mode, active=(1,)), o('cbs', M=1, N=3, d=(1,), mode=mode, noise='sampling')]
    out += [o('cbs_refuses', what='batch'), o('cbs_refuses', what='domain'), o('cbs_run', M=1, steps=1), o('cbs_run', M=2, steps=1)]
    for var in ('plane', 'sphere', 'two', 'none'):
        out += [o('constrained', var=var, M=1, N=1, d=(2,)), o('constrained', var=var, M=2, N=2, d=(1,)), o('constrained', var=var, M=2, N=1, d=(2,), active=(1,)), o('constrained', var=var, M=1, N=3, d=(1,), batch=(2, True)), o('constrained', var=var, M=2, N=2, d=(1,), batch=(1, False), active=(0,))]
    out += [o('indep', M=1, N=1, d=(1,)), o('indep', M=1, N=1, d=(2,)), o('indep', M=2, N=1, d=(1,)), o('indep', M=2, N=1, d=(1,), active=(1,)), o('indep', M=1, N=2, d=(1,)), o('indep', M=1, N=1, d=(1,), draws=2),
            o('indep_state', M=2, N=2, d=(1,)), o('indep_state', M=2, N=2, d=(2,), active=(1,)), o('indep_state', M=3, N=1, d=(1,), active=(0, 2))]
    for var in ('plane', 'sphere', 'none'):
        out += [o('regcomb', var=var, M=1, N=2, d=(2,)), o('regcomb', var=var, M=2, N=2, d=(1,)), o('regcomb', var=var, M=2, N=2, d=(2,), active=(1,)), o('regcomb', var=var, M=1, N=3, d=(1,), batch=(2, True)), o('regcomb', var=var, M=2, N=2, d=(1,), batch=(1, False), active=(0,)), o('regcomb', var=var, M=1, N=2, d=(2,), huge=True)]
    for spec in ('CBOMemory', 'MirrorCBO:None', 'DriftConstrainedCBO:none', 'RegCombinationCBO:none'):
        out += [o('reduces', spec=spec, M=1, N=2, d=(2,)), o('reduces', spec=spec, M=2, N=2, d=(1,), active=(1,)), o('reduces', spec=spec, M=1, N=3, d=(1,), batch=(2, True)), o('reduces', spec=spec, M=1, N=3, d=(1,), batch=(2, False))]
    out += [o('reduces', spec='PSO', M=1, N=2, d=(2,)), o('reduces', spec='PSO', M=2, N=2, d=(1,), active=(1,))]
    for spec in ('PSO', 'CBOMemory', 'AdamCBO', 'CBS', 'PolarCBO', 'MirrorCBO:l2', 'DriftConstrainedCBO:plane', 'RegCombinationCBO:plane', 'HyperSurfaceCBO:plane'):
        out.append(o('whole_numbers', spec=spec, M=1, N=2, d=(1,) if spec in ('CBS', 'PolarCBO') else (2,)))
    if tier == 'thorough':
        for h in ('adam', 'pso', 'memory'): out += [o(h, M=2, N=3, d=(2,), batch=(2, True), active=(1,)), o(h, M=3, N=3, d=(2,)), o(h, M=1, N=2, d=(2, 2)), o(h, M=1, N=2, d=(1,), start='begin', steps=2)]
        out += [o('constrained', var=v, M=2, N=2, d=(2,)) for v in ('plane', 'sphere', 'two')] + [o('indep', M=2, N=2, d=(1,), draws=2), o('indep', M=3, N=1, d=(1,), active=(0, 2))]
    return out
