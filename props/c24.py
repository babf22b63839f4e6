"""C24 resampling perturbs exactly the runs whose trigger fired."""
from props import common as C
BOUNDS = 'M in {1,2,3}, N in {1,2}, domain (1,),(2,),(2,2); one or two triggers with arbitrary answers, active subsets; two calls; histories of three to five steps of arbitrary update sizes, best energies and consensus points; patience and waiting time 1 to 3'

class Draws:
    def __init__(self, E): self.E = E; self.log = []
    def __call__(self, size=None, *a, **k):
        z = self.E.array('z%d' % len(self.log), size); self.log.append(z.copy()); return z

def answer(E, name, M, among=None):
    """an arbitrary subset of the runs, as a trigger returns it"""
    import numpy
    return [m for m in range(M) if (among is None or m in among) and E.decided(E.bool('%s.%d' % (name, m)))]

def direct(E, cls, M, N, d, triggers=1, active=None, calls=1, var='x', sig='default'):
    import numpy
    dt = E.real('dt', pos=True)
    par = C.params(E); par['dt'] = dt
    smp = Draws(E)
    dyn = C.build(E, cls, M, N, d, active=active, par=par, sampler=smp)
    smp.active = lambda: None
    dyn.terminate(); act = C.active_of(dyn)
    R = E.mod('cbx.utils.resampling').resampling
    said = []
    def trig(t):
        def g(dyn):
            a = answer(E, 't%d.%d' % (t, len(said)), M); said.append(a); return numpy.array(a, dtype=int)
        return g
    kw = {} if sig == 'default' else dict(sigma_indep=E.real('sigma_indep', pos=True))
    s = 0.1 if sig == 'default' else kw['sigma_indep']
    r = R([trig(t) for t in range(triggers)], var_name=var, **kw)
    count = [0] * M
    for c in range(calls):
        x0 = getattr(dyn, var).copy(); n0 = len(smp.log); e0 = dyn.energy.copy(); b0 = dyn.best_energy.copy(); k0 = len(said)
        r(dyn)
        fired = sorted({m for a in said[k0:] for m in a if m in act})
        x1 = getattr(dyn, var)
        E.check('shape', E.shape(x1) == E.shape(x0))
        if fired: E.check('draws', len(smp.log) == n0 + 1)
        for m in range(M):
            if m not in fired: E.eq('other run %d' % m, x1[m], x0[m]); continue
            z = smp.log[n0]; nz = E.shape(z)[0]; row = fired.index(m) if nz == len(fired) else m
            E.check('a draw for every run', nz in (len(fired), M)); E.check('a draw for every particle', E.shape(z)[1:] == (N,) + tuple(d))
            if nz not in (len(fired), M) or E.shape(z)[1:] != (N,) + tuple(d): return
            E.eq('perturbed run %d' % m, x1[m], x0[m] + s * E.sqrt(dt) * z[row])
            count[m] += 1
        E.eq('energies', dyn.energy, e0); E.eq('best energies', dyn.best_energy, b0)
        if r.num_resampling is not None: E.eq('number of resamplings', r.num_resampling, E.np.array([float(v) for v in count]))
        else: E.check('nothing resampled', not any(count))

def insteps(E, cls, M, N, d, active=None):
    """as the documented post-processing of a step: the step of the other runs is the one without resampling"""
    import numpy
    par = C.params(E); X = E.array('x', (M, N) + d); A = E.array('alpha', (M, 1), pos=True); f = E.objective('f', ddims=len(d))
    R = E.mod('cbx.utils.resampling').resampling
    said = []
    def trig(dyn): a = answer(E, 'fire', M); said.append(a); return numpy.array(a, dtype=int)
    r = R([trig], sigma_indep=0.5)
    out = []
    for pp in (None, lambda dyn: r(dyn)):
        dyn = C.build(E, cls, M, N, d, active=active, par=par, X=X, A=A, f=f, post=False, post_process=pp or E.quiet_post())
        if pp: dyn.sampler.free = 10
        dyn.terminate(); dyn.step(); out.append(dyn)
    a, b = out; act = C.active_of(b)
    for m in range(M):
        if m in said[0] and m in act:
            E.eq('counted', r.num_resampling[m], 1.0)
            q = [i for i in act if i in said[0]]
            z = E.array('z#%d.free' % b.sampler.k, (len(q), N) + d) if len(q) not in (len(act), M) else None
            if z is not None: E.eq('perturbed run %d' % m, b.x[m], a.x[m] + 0.5 * E.sqrt(par['dt']) * z[q.index(m)])
        else: E.eq('other run %d' % m, b.x[m], a.x[m])
    E.eq('best energy', b.best_energy, a.best_energy)

def update(E, M):
    dyn = C.build(E, 'CBO', M, 1, (1,))
    th = E.real('thresh', pos=True)
    t = E.mod('cbx.utils.resampling').ensemble_update_resampling(th)
    for c in range(2):
        u = E.array('u%d' % c, (M,), lo=0); dyn.update_diff = u.copy()
        idx = [int(i) for i in t(dyn)]
        for m in range(M): E.check('fires exactly below the threshold %d' % m, E.iff(E.strict(u[m], th), m in idx))

def loss(E, M, steps, wait):
    t = E.mod('cbx.utils.resampling').loss_update_resampling(wait_thresh=wait)
    dyn = C.build(E, 'CBO', M, 1, (1,))
    best = [None] * M; cnt = [0] * M
    for s in range(steps):
        e = E.array('best%d' % s, (M,)); dyn.best_energy = e.copy()
        idx = [int(i) for i in t(dyn)]
        for m in range(M):
            cnt[m] += 1
            if best[m] is None or E.decided(E.strict(e[m], best[m])): cnt[m] = 0; best[m] = e[m]
            fire = cnt[m] >= wait
            if fire: cnt[m] = 0
            E.check('step %d run %d' % (s, m), fire == (m in idx))
        E.eq('best energies are not changed', dyn.best_energy, e)

def stagnation(E, M, d, steps, patience, active=None):
    import numpy
    th = E.real('thresh', pos=True)
    t = E.mod('cbx.utils.resampling').consensus_stagnation(patience=patience, update_thresh=th)
    dyn = C.build(E, 'CBO', M, 2, d, active=active)
    dyn.terminate(); act = C.active_of(dyn)
    hist = []
    for s in range(steps):
        c = E.array('c%d' % s, (len(act), 1) + d); dyn.consensus = c.copy(); hist.append(c)
        idx = [int(i) for i in t(dyn)]
        E.eq('consensus is not changed', dyn.consensus, c)
        for m in range(M):
            if m not in act: E.check('finished run %d step %d' % (m, s), m not in idx); continue
            k = act.index(m)
            if s == 0: E.check('no information yet', m not in idx); continue
            w = range(max(1, s + 1 - patience), s + 1)
            small = [E.strict(E.norm2([hist[i][(k, 0) + q] - hist[i - 1][(k, 0) + q] for q in E.idx(d)]), th) for i in w]
            E.check('step %d run %d' % (s, m), E.iff(E.all(small), m in idx))

def tracked(E, M, N, d, active=None, calls=2):
    import numpy
    f = E.objective('f', ddims=len(d))
    smp = Draws(E)
    dyn = C.build(E, 'CBO', M, N, d, active=active, f=f, sampler=smp); smp.active = None
    dyn.terminate(); act = C.active_of(dyn)
    said = []
    def trig(dyn): a = answer(E, 'fire%d' % len(said), M, act); said.append(a); return numpy.array(a, dtype=int)
    r = E.mod('cbx.utils.resampling').resampling([trig], track_best_consensus=True)
    best = [None] * M
    for c in range(calls):
        con = E.array('c%d' % c, (len(act), 1) + d); dyn.consensus = con.copy()
        r(dyn)
        for m in said[-1]:
            k = act.index(m); e = f(con[k, 0])
            if best[m] is None or E.decided(E.strict(e, best[m][0])): best[m] = (e, con[k, 0])
        for m in range(M):
            if best[m] is None: continue
            E.eq('best consensus energy %d' % m, r.best_consensus_energy[m], E.np.stack([best[m][0]]))
            E.eq('best consensus %d' % m, r.best_consensus[m, 0], best[m][1])

def instances(tier):
    o = lambda h, **k: dict(h=h, params=k)
    out = []
    for cls in ('CBO', 'PSO', 'CBS', 'CBOMemory', 'AdamCBO'): out.append(o('direct', cls=cls, M=2, N=2, d=(1,)))
    out += [o('direct', cls='CBO', M=3, N=2, d=(2,), calls=2), o('direct', cls='CBO', M=2, N=1, d=(2, 2), triggers=2), o('direct', cls='CBO', M=3, N=2, d=(1,), active=(0, 2), triggers=2),
            o('direct', cls='CBO', M=1, N=2, d=(1,), calls=3), o('direct', cls='CBO', M=2, N=2, d=(1,), sig='any', calls=2), o('direct', cls='PSO', M=2, N=2, d=(1,), var='v'),
            o('direct', cls='CBO', M=2, N=2, d=(2,), active=(1,))]
    out += [o('insteps', cls='CBO', M=2, N=2, d=(1,)), o('insteps', cls='CBO', M=3, N=2, d=(1,), active=(0, 2)), o('insteps', cls='PSO', M=2, N=2, d=(2,))]
    out += [o('update', M=1), o('update', M=3)]
    out += [o('loss', M=1, steps=4, wait=1), o('loss', M=1, steps=5, wait=2), o('loss', M=2, steps=4, wait=2), o('loss', M=1, steps=5, wait=3)]
    out += [o('stagnation', M=1, d=(1,), steps=4, patience=2), o('stagnation', M=2, d=(2,), steps=3, patience=1), o('stagnation', M=3, d=(1,), steps=3, patience=2, active=(0, 2)), o('stagnation', M=1, d=(2, 2), steps=3, patience=5), o('stagnation', M=1, d=(1,), steps=5, patience=3)]
    out += [o('tracked', M=1, N=2, d=(1,)), o('tracked', M=2, N=1, d=(2,)), o('tracked', M=3, N=1, d=(1,), active=(0, 2)), o('tracked', M=1, N=1, d=(2, 2), calls=3)]
    if tier == 'thorough':
        out += [o('loss', M=2, steps=6, wait=2), o('loss', M=2, steps=5, wait=3), o('stagnation', M=2, d=(1,), steps=5, patience=2), o('tracked', M=3, N=1, d=(1,), active=(1, 2), calls=3), o('direct', cls='CBO', M=3, N=2, d=(2,), calls=3, triggers=2)]
    return out
