"""C04 the noise models scale the random sample as documented."""
from props import common as C
BOUNDS = 'one noise evaluation for an arbitrary drift, energies, alpha and dt; M in {1,2,3}, N in {1,2,3}, domain (1,),(2,),(2,2) (covariance noise: d in {1,2}); all batch modes and active subsets'

ASSUMPTIONS = ['covariance noise with d=2: the weighted covariance is positive definite (a Gram matrix in general position)', 'numpy.linalg.eigh returns an eigendecomposition of its (lower-triangle) input']

def prepare(E, M, N, d, noise, active, batch, smp=None):
    par = C.params(E); par['dt'] = E.real('dt', pos=True)
    f = E.objective('f', ddims=len(d))
    dyn = C.build(E, 'CBO', M, N, d, active=active, batch=batch, noise=noise, par=par, f=f, **(dict(sampler=smp) if smp else {}))
    dyn.terminate()
    dyn.pre_step()
    act = C.active_of(dyn); n = N if not dyn.batched or not dyn.batch_partial else dyn.batch_size
    dyn.drift = E.array('drift', (len(act), n) + tuple(d))
    return dyn, act, n, par

def scaling(E, noise, M, N, d, active=None, batch=None):
    dyn, act, n, par = prepare(E, M, N, d, noise, active, batch)
    D = dyn.drift.copy(); dyn.sampler.k = 0
    out = dyn.noise()
    dyn.sampler.k = 0
    z = dyn.sampler(E.shape(D))
    E.check('shape', E.shape(out) == E.shape(D))
    E.eq('drift is not changed', dyn.drift, D)
    for k in range(len(act)):
        for j in range(n):
            nrm = E.norm2([D[(k, j) + i] for i in E.idx(d)])
            for i in E.idx(d):
                t = z[(k, j) + i] * E.sqrt(par['dt'])
                if noise == 'isotropic': t = t * nrm
                elif noise == 'anisotropic': t = t * D[(k, j) + i]
                E.eq('noise %d,%d%s' % (k, j, i), out[(k, j) + i], t)

class Basis:
    """draws: unit vectors for the first particles of every run, arbitrary ones for the others"""
    def __init__(self, E, d): self.E = E; self.d = d; self.calls = 0
    def __call__(self, size=None, *a, **k):
        self.calls += 1
        z = self.E.array('z%d' % self.calls, size)
        for j in range(min(self.d, size[1])):
            for i in range(self.d): z[:, j, i] = 1.0 if i == j else 0.0
        self.z = z.copy()
        return z

def covariance(E, M, N, d, active=None, batch=None, noise='covariance', weights=True):
    smp = Basis(E, d)
    dyn, act, n, par = prepare(E, M, N, (d,), noise, active, batch, smp)
    if d > 1: E.psd()
    dyn.energy[...] = E.array('energy', (M, N)) if weights else E.np.zeros((M, N)) + E.real('level')
    D = dyn.drift.copy(); en = dyn.energy.copy()
    out = dyn.noise()
    E.check('shape', E.shape(out) == E.shape(D))
    E.eq('energies are not changed', dyn.energy, en)
    for k, r in enumerate(act):
        al = dyn.alpha[r, 0]; P = C.moved(dyn, r, N)
        w = [E.exp(-al * en[r, p]) for p in P]; tot = E.sum(w)
        fac2 = 2 * par['dt'] * (1 + al)
        col = [[out[k, j, i] for i in range(d)] for j in range(d)]          # factor * S e_j
        for i in range(d):
            for l in range(d):
                cov = E.sum([w[p] * D[k, p, i] * D[k, p, l] for p in range(len(P))]) / tot
                E.eq('square of the scaling matrix, run %d (%d,%d)' % (r, i, l), E.sum([col[j][i] * col[j][l] for j in range(d)]) / fac2, cov)
        if d == 1: E.le('square root is not negative, run %d' % r, 0.0, col[0][0])
        for j in range(d, n):
            for i in range(d):
                E.eq('linear in the sample %d,%d,%d' % (r, j, i), out[k, j, i], E.sum([col[q][i] * smp.z[k, j, q] for q in range(d)]))

def instances(tier):
    o = lambda **k: dict(h='scaling', params=k); c = lambda **k: dict(h='covariance', params=k)
    out = []
    for nz in ('isotropic', 'anisotropic', 'constant'):
        out += [o(noise=nz, M=1, N=1, d=(1,)), o(noise=nz, M=2, N=2, d=(2,)), o(noise=nz, M=2, N=2, d=(2, 2)), o(noise=nz, M=3, N=2, d=(2,), active=(0, 2)),
                o(noise=nz, M=2, N=2, d=(1,), active=(1,)), o(noise=nz, M=2, N=2, d=(2,), batch=(1, True)), o(noise=nz, M=2, N=3, d=(1,), batch=(2, False), active=(0,)),
                o(noise=nz, M=1, N=3, d=(2,), batch=(2, True))]
    out += [c(M=1, N=2, d=1), c(M=2, N=2, d=1), c(M=3, N=2, d=1, active=(0, 2)), c(M=2, N=3, d=1, batch=(2, True)), c(M=2, N=3, d=1, batch=(2, False), active=(1,)),
            c(M=2, N=2, d=1, noise='sampling'), c(M=1, N=3, d=2, weights=False), c(M=1, N=3, d=2), c(M=2, N=3, d=2, active=(1,), weights=False)]
    if tier == 'thorough':
        out += [o(noise=nz, M=3, N=3, d=(3,), active=(0, 2), batch=b) for nz in ('isotropic', 'anisotropic', 'constant') for b in (None, (2, True), (2, False))]
        out += [c(M=3, N=3, d=1, active=(0, 2), batch=(2, True)), c(M=2, N=3, d=2), c(M=3, N=4, d=1)]
    return out
