"""C07 the memory dynamics keep each particle's historical best."""
import numpy
from props import common as C
from props.c06 import pair
BOUNDS = ('one step from an arbitrary state (inductive: together with the check of the initial state this covers every number of steps), and two or three steps from an '
          'arbitrary ensemble; M in {1,2,3}, N in {1,2,3}, d in {1,2,(2,2)}; all batch modes, any active subset; non-finite moves for each particle')

def induct(E, cls, M, N, d, active=None, batch=None, noise='anisotropic', correction='no_correction'):
    f = E.objective('f', ddims=len(d)); X = E.array('x', (M, N) + tuple(d))
    dyn = C.build(E, cls, M, N, d, batch=batch, noise=noise, correction=correction, f=f, X=X)
    E.eq('initial memory', dyn.y, X)
    for m in range(M):
        for j in range(N): E.eq('initial energy', dyn.energy[m, j], f(X[m, j]))
    C.havoc(E, dyn, list(range(M)))
    act = list(range(M)) if active is None else list(active)
    dyn._switch.stop = [m not in act for m in range(M)]
    dyn.terminate()
    st = C.state(E, dyn)
    C.step(E, dyn)
    for m in range(M):
        mov = C.moved(dyn, m, N) if m in act else []
        for j in range(N):
            t = 'run %d particle %d ' % (m, j); old = st['energy'][m, j]
            if j not in mov:
                E.eq(t + 'not scheduled: memory', dyn.y[m, j], st['y'][m, j]); E.eq(t + 'not scheduled: energy', dyn.energy[m, j], old); continue
            e = f(dyn.x[m, j])
            if E.decided(E.strict(e, old)):
                E.eq(t + 'better position is remembered', dyn.y[m, j], dyn.x[m, j]); E.eq(t + 'better energy is remembered', dyn.energy[m, j], e)
            elif E.decided(E.strict(old, e)):
                E.eq(t + 'worse position is not remembered', dyn.y[m, j], st['y'][m, j]); E.eq(t + 'worse energy is not remembered', dyn.energy[m, j], old)
            else: E.check(t + 'tie', pair(E, dyn.y[m, j], dyn.energy[m, j], [(dyn.x[m, j], old), (st['y'][m, j], old)]))
            E.le(t + 'energy does not increase', dyn.energy[m, j], old)

def nonfinite(E, cls, N, d, bad, batch=None):
    """a step that leaves the real numbers for one particle does not disturb the memory"""
    f = lambda x: (x ** 2).sum(axis=tuple(range(2, 2 + len(d))))
    smp = E.sampler('z'); k = {'n': 0}
    def sampler(size=None, *a, **kw):
        r = smp(size)
        for j in range(r.shape[1]):
            if j == bad[0]: r[0, j] = float(bad[1])
        return r
    dyn = C.build(E, cls, 1, N, d, f=f, sampler=sampler, batch=batch)
    dyn.terminate()
    st = C.state(E, dyn)
    dyn.step()
    j = bad[0] if not batch else C.moved(dyn, 0, N)[bad[0]]
    E.eq('memory', dyn.y[0, j], st['y'][0, j])
    E.eq('energy', dyn.energy[0, j], st['energy'][0, j])
    for i in range(N):
        E.check('memory is finite', E.all(E.finite(v) for v in dyn.y[0, i].reshape(-1)))

def whole_energies(E, cls, M, N, d, fd, steps=1):
    """the first energies are whole numbers (an objective that is constant there), later ones are not"""
    g = E.objective('f', ddims=1)
    def point(p): return 1 if p[0] > 0 else g(p)
    def points(q): return E.np.array([point(p) for p in q])
    def ensemble(x): return E.np.array([[point(p) for p in q] for q in x])
    X = E.array('x', (M, N, d), pos=True); par = C.params(E)
    dyn = getattr(E.mod('cbx.dynamics'), cls)({'1D': point, '2D': points, '3D': ensemble}[fd], f_dim=fd, check_f_dims=False, x=X.copy(), alpha=E.array('alpha', (M, 1), pos=True), sampler=E.sampler('z'), noise='constant',
                                              post_process=E.quiet_post(), verbosity=0, **par)
    best = [[(X[m, j], 1) for j in range(N)] for m in range(M)]
    for s in range(steps):
        dyn.step()
        for m in range(M):
            for j in range(N):
                e = point(dyn.x[m, j]); t = 'step %d run %d particle %d ' % (s, m, j)
                if E.decided(E.strict(e, best[m][j][1])): best[m][j] = (dyn.x[m, j].copy(), e)
                elif E.decided(E.feq(e, best[m][j][1])): return
                E.eq(t + 'energy', dyn.energy[m, j], best[m][j][1]); E.eq(t + 'memory', dyn.y[m, j], best[m][j][0])

def instances(tier):
    o = lambda cls, M=1, N=2, d=(1,), **k: dict(h='induct', lazy=False, eager=True, params=dict(cls=cls, M=M, N=N, d=d, **k))
    out = []
    for cls in ('CBOMemory', 'PSO'):
        out += [o(cls), o(cls, d=(2,)), o(cls, d=(2, 2)), o(cls, M=2), o(cls, N=3), o(cls, M=2, active=(1,)), o(cls, M=3, N=1, active=(0, 2)), o(cls, batch=(1, True)), o(cls, batch=(1, False)),
                o(cls, N=3, batch=(2, True)), o(cls, M=2, batch=(1, True), active=(1,)), o(cls, M=2, batch=(1, False), active=(0,)), o(cls, noise='isotropic', d=(2,)),
                o(cls, noise='constant'), o(cls, M=2, active=(0,), d=(2,), N=1, noise='isotropic')]
        for b in ((0, 'inf'), (1, '-inf'), (0, 'nan')):
            out.append(dict(h='nonfinite', lazy=False, params=dict(cls=cls, N=2, d=(1,), bad=b)))
        out.append(dict(h='nonfinite', lazy=False, params=dict(cls=cls, N=2, d=(2,), bad=(0, 'nan'), batch=(1, True))))
        for fd in ('1D', '2D', '3D'): out.append(dict(h='whole_energies', params=dict(cls=cls, M=1, N=1 if fd == '2D' else 2, d=1, fd=fd)))
        if tier == 'thorough': out += [o(cls, M=2, N=3, batch=(2, True), active=(1,)), o(cls, N=3, d=(2,)), o(cls, M=2, N=2, d=(2,)), o(cls, N=4, batch=(2, False)), o(cls, M=3, N=2, active=(0, 2)), o(cls, noise='covariance', N=3), o(cls, correction='heavi_side', N=2)]
    return out
