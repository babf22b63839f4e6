"""C03 one CBO step is exactly the CBO update of the scheduled particles."""
from props import common as C
BOUNDS = 'one step from an arbitrary ensemble; M in {1,2,3}, N in {1,2,3}, domain (1,),(2,),(2,2); all batch modes and permutations; active subsets; three corrections; five noise models and an arbitrary noise callable'

class Recorder:
    """an arbitrary noise model: remembers the drift it is given and answers with arbitrary numbers"""
    def __init__(self, E): self.E = E; self.drift = None; self.value = None; self.calls = 0
    def __call__(self, dyn):
        self.calls += 1
        self.drift = dyn.drift.copy()
        self.value = self.E.array('noise#%d' % self.calls, self.E.shape(dyn.drift))
        return self.value.copy()

def row(E, arr, dyn, k, r, j, idx, M, N):
    """entry of particle j of run r in an array over the updated particles (or over all particles)"""
    s = E.shape(arr); act = C.active_of(dyn); mv = C.moved(dyn, r, N)
    a = k if s[0] == len(act) else r
    b = mv.index(j) if s[1] == len(mv) else j
    return arr[(a, b) + idx]

def step(E, M, N, d, noise='any', correction='no_correction', active=None, batch=None, dtsym=False, steps=1):
    par = C.params(E)
    if dtsym: par['dt'] = E.real('dt', pos=True)
    rec = Recorder(E) if noise == 'any' else None
    kw = dict(correction_eps=0.5) if correction == 'heavi_side_reg' else {}
    f = E.objective('f', ddims=len(d))
    dyn = C.build(E, 'CBO', M, N, d, active=active, batch=batch, noise=rec or noise, correction=correction, par=par, f=f, **kw)
    dyn.terminate()
    for s in range(steps): one(E, dyn, f, rec, M, N, d, noise, correction, par, 's%d ' % s if steps > 1 else '')

def one(E, dyn, f, rec, M, N, d, noise, correction, par, lab):
    x0 = dyn.x.copy()
    z0 = dyn.sampler.k
    dyn.step()
    x1 = dyn.x; c = dyn.consensus; act = C.active_of(dyn)
    E.check(lab + 'shape', E.shape(x1) == E.shape(x0))
    zs = None
    if rec is None:
        # the draw of this step again, as the same inputs
        dyn.sampler.k = z0
        zs = dyn.sampler(dyn.sampler.sizes[-1]); dyn.sampler.sizes.pop()
    idx = E.idx(d)
    for r in range(M):
        if r not in act:
            E.eq(lab + 'finished run %d' % r, x1[r], x0[r]); continue
        k = act.index(r); mv = C.moved(dyn, r, N); B = C.scheduled(dyn, r, N)
        if correction != 'no_correction': fc = f(c[k, 0])
        for j in range(N):
            if j not in mv:
                E.eq(lab + 'unscheduled %d,%d' % (r, j), x1[r, j], x0[r, j]); continue
            w = 1.0
            if correction != 'no_correction':
                e = f(x0[r, j]) if j in B else dyn.energy[r, j]
                if correction == 'heavi_side': w = E.ite(E.strict(fc, e), 1.0, 0.0)
                else: w = 0.5 + 0.5 * E.fn('tanh', (e - fc) / 0.5)
            drift = {i: w * (x0[(r, j) + i] - c[(k, 0) + i]) for i in idx}
            for i in idx:
                if rec is not None:
                    E.eq(lab + 'drift seen by the noise %d,%d%s' % (r, j, i), row(E, rec.drift, dyn, k, r, j, i, M, N), drift[i])
                    n = row(E, rec.value, dyn, k, r, j, i, M, N)
                else:
                    z = row(E, zs, dyn, k, r, j, i, M, N)
                    n = E.sqrt(par['dt']) * z
                    if noise == 'anisotropic': n = n * drift[i]
                    elif noise == 'isotropic': n = n * E.norm2(list(drift.values()))
                E.eq(lab + 'update %d,%d%s' % (r, j, i), x1[(r, j) + i], x0[(r, j) + i] - par['lamda'] * par['dt'] * drift[i] + par['sigma'] * n)

def whole_numbers(E, M, N, d, **k): C.whole_numbers(E, 'CBO', M, N, d, **k)

def instances(tier):
    o = lambda **k: dict(h='step', params=k)
    out = [o(M=2, N=2, d=(2,), dtsym=True), o(M=1, N=3, d=(1,)), o(M=2, N=2, d=(2, 2)), o(M=1, N=1, d=(2,)),
           o(M=2, N=2, d=(2,), noise='isotropic', dtsym=True), o(M=2, N=2, d=(2,), noise='anisotropic'), o(M=2, N=2, d=(1,), noise='constant'),
           o(M=1, N=2, d=(2, 2), noise='isotropic'),
           o(M=2, N=2, d=(1,), active=(1,)), o(M=3, N=2, d=(2,), active=(0, 2)), o(M=3, N=2, d=(1,), active=(2,), noise='isotropic'),
           o(M=1, N=3, d=(1,), batch=(2, True)), o(M=1, N=3, d=(2,), batch=(2, False)), o(M=2, N=2, d=(1,), batch=(1, True)), o(M=2, N=2, d=(2,), batch=(1, False)),
           o(M=2, N=3, d=(1,), batch=(2, True), active=(1,)), o(M=2, N=3, d=(1,), batch=(2, False), active=(0,)), o(M=2, N=3, d=(1,), batch=(2, True), active=(0,), noise='anisotropic'),
           o(M=1, N=4, d=(1,), batch=(2, True), steps=2)]
    for corr in ('heavi_side', 'heavi_side_reg'):
        out += [o(M=1, N=2, d=(2,), correction=corr), o(M=2, N=2, d=(2,), correction=corr), o(M=2, N=2, d=(1,), correction=corr, active=(1,)),
                o(M=1, N=3, d=(1,), correction=corr, batch=(2, True)), o(M=1, N=3, d=(1,), correction=corr, batch=(2, False)),
                o(M=1, N=2, d=(2, 2), correction=corr), o(M=3, N=2, d=(1,), correction=corr, active=(0, 2), noise='anisotropic')]
    for k in (dict(M=2, N=2, d=(2,)), dict(M=1, N=2, d=(1,), noise='constant', steps=2), dict(M=1, N=3, d=(1,), batch=(2, True), noise='isotropic')): out.append(dict(h='whole_numbers', params=k))
    if tier == 'thorough':
        out += [o(M=3, N=3, d=(2,), dtsym=True, noise='isotropic'), o(M=3, N=3, d=(2,), active=(0, 2), batch=(2, True), noise='anisotropic'),
                o(M=1, N=4, d=(2,), batch=(3, False), correction='heavi_side'), o(M=2, N=2, d=(2,), steps=2, noise='anisotropic'), o(M=2, N=2, d=(2,), steps=2, noise='isotropic')]
    return out
