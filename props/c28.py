"""C28 the plotting helpers draw the recorded data and leave the dynamic alone.  The axis and the pyplot module are replaced by
recorders with the shape rules of matplotlib, so the data handed to the artists are terms over the inputs."""
from props import common as C
BOUNDS = 'M <= 3 runs (also with finished runs), N <= 4 particles, 1 to 3 dimensions, up to 3 steps; plots of the running dynamic and of its history, with consensus and drift, every batching mode; objective grids of up to 4 points per axis'
ASSUMPTIONS = ['matplotlib draws the data it is given']

class Any:
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        return lambda *a, **kw: Any()
def flat(E, a): return E.np.asarray(a).reshape(-1)
class Scatter(Any):
    def __init__(self, E, ax, x, y): self.E = E; self.ax = ax; self.removed = False; self.set(x, y)
    def set(self, x, y):
        E = self.E; x, y = flat(E, x), flat(E, y)
        if len(x) != len(y): raise ValueError('x and y must be the same size')
        self.xy = E.np.stack([x, y], axis=-1)
    def set_offsets(self, z):
        z = self.E.np.asarray(z)
        if z.ndim == 1 and len(z) == 2: z = z[None, :]
        if z.ndim != 2 or z.shape[1] != 2: raise ValueError('offsets must be of shape (n, 2)')
        self.xy = z.copy()
    def get_offsets(self): return self.xy
    def remove(self): self.removed = True
class Quiver(Scatter):
    def __init__(self, E, ax, x, y, u, v):
        Scatter.__init__(self, E, ax, x, y); self.N = len(self.xy); self.set_UVC(u, v)
    def set_UVC(self, u, v, c=None):
        u, v = flat(self.E, u), flat(self.E, v)
        if len(u) != self.N or len(v) != self.N: raise ValueError('Argument U has a size %d which does not match %d, the number of arrow positions' % (len(u), self.N))
        self.uv = self.E.np.stack([u, v], axis=-1)
class Axis(Any):
    def __init__(self, E): self.E = E; self.artists = []; self.lines = []; self.contours = []; self.titles = []
    def scatter(self, x, y, *a, **k): s = Scatter(self.E, self, x, y); s.kw = k; self.artists.append(s); return s
    def quiver(self, x, y, u, v, *a, **k): s = Quiver(self.E, self, x, y, u, v); s.kw = k; self.artists.append(s); return s
    def plot(self, x, y, *a, **k): self.lines.append((x, y, k)); return Any()
    def contourf(self, X, Y, Z, *a, **k): self.contours.append((X, Y, Z, k)); return self.contours[-1]
    contour = pcolormesh = contourf
    def set_title(self, s, *a, **k): self.titles.append(s)
class Plt(Any):
    def __init__(self, E): self.E = E; self.paused = []; self.saved = []; self.ax = Axis(E)
    def subplots(self, *a, **k): return Any(), self.ax
    def gca(self, *a, **k): return self.ax
    def pause(self, w): self.paused.append(w)
    def savefig(self, name, **k): self.saved.append((name, k))
def plotting(E):
    m = E.mod('cbx.plotting'); m.plt = Plt(E); return m
def scatters(ax): return [a for a in ax.artists if type(a) is Scatter and not a.removed]
def quivers(ax): return [a for a in ax.artists if type(a) is Quiver and not a.removed]

NAMES = ('x', 'x_old', 'energy', 'consensus', 'drift', 'best_energy', 'best_particle', 'num_f_eval', 'update_diff', 'alpha', 'active_runs_idx')
def freeze(E, dyn):
    s = {k: getattr(dyn, k).copy() for k in NAMES if getattr(dyn, k, None) is not None}
    h = {k: [v.copy() if hasattr(v, 'copy') else v for v in L] for k, L in dyn.history.items()}
    return s, h, dyn.it
def untouched(E, label, dyn, fr):
    s, h, it = fr
    for k, v in s.items(): E.eq('%s: %s stays' % (label, k), getattr(dyn, k), v)
    E.check(label + ': step counter stays', dyn.it == it)
    E.check(label + ': history keys stay', set(dyn.history) == set(h))
    for k in h:
        E.check('%s: entries of %s' % (label, k), len(dyn.history[k]) == len(h[k]))
        for i, v in enumerate(h[k]):
            if hasattr(v, 'shape'): E.eq('%s: %s entry %d stays' % (label, k, i), dyn.history[k][i], v)

def simulate(E, M, N, d, steps, stop=None, batch=None, names=(), spec='CBO', each=None, init=None):
    """the dynamic after some steps and, for every step, the ensemble and consensus it used, the particles it moved"""
    dyn = C.build(E, spec, M, N, (d,), batch=batch, names=names, noise='anisotropic')
    stop = {int(r): k for r, k in (stop or {}).items()}          # JSON turns keys into strings
    if init: init(dyn)
    log = []
    for k in range(steps):
        dyn._switch.stop = [r in stop and k >= stop[r] for r in range(M)]
        dyn.terminate()
        X = dyn.x.copy(); C.step(E, dyn)
        act = C.active_of(dyn); row = {}
        for q, r in enumerate(act):
            row[r] = (dyn.consensus[q].copy(), C.moved(dyn, r, N))
        log.append((X, row))
        if each: each(dyn, k, log)
    return dyn, log

def expected(E, label, ax, X, entry, run, dims, d, consensus, drift, f=None, energy=True, position=0):
    """scatter plots of ensemble and consensus and arrows from the moved particles to the consensus"""
    S = scatters(ax); N = X.shape[1]
    E.check(label + ': number of scatter plots', len(S) == 1 + bool(consensus))
    z = S[0].xy
    E.check(label + ': one point per particle', len(z) == N)
    for j in range(N):
        E.eq('%s: particle %d' % (label, j), z[j, 0], X[run, j, dims[0]])
        E.eq('%s: particle %d, second coordinate' % (label, j), z[j, 1], X[run, j, dims[1]] if d > 1 else (f(X[run, j][None, None, :])[0, 0] if energy else 0.0))
    if entry is None: return
    c, mv = entry
    if consensus:
        z = S[1].xy
        E.check(label + ': one consensus point', len(z) == len(c))
        for j in range(len(c)):
            E.eq('%s: consensus %d' % (label, j), z[j, 0], c[j, dims[0]]); E.eq('%s: consensus %d, second coordinate' % (label, j), z[j, 1], c[j, dims[1]] if d > 1 else 0.0)
    if drift and d > 1:
        q, = quivers(ax)
        E.check(label + ': one arrow per moved particle', len(q.xy) == len(mv) and len(q.uv) == len(mv))
        for j, p in enumerate(mv):
            for a in (0, 1):
                E.eq('%s: arrow %d starts at the particle, %d' % (label, j, a), q.xy[j, a], X[run, p, dims[a]])
                E.eq('%s: arrow %d points to the consensus, %d' % (label, j, a), q.uv[j, a], c[min(j, len(c) - 1), dims[a]] - X[run, p, dims[a]])

def live(E, M, N, d, run, steps=1, dims=None, stop=None, batch=None, consensus=True, drift=True, energy=True, spec='CBO'):
    """a plot that is updated after every step shows the ensemble the step started from, its consensus and the drift towards it"""
    P = plotting(E); ax = Axis(E); dm = dims or (0, 1); last = {}; pl = {}
    def init(dyn):
        fr = freeze(E, dyn)
        pl['p'] = P.PlotDynamic(dyn, num_run=run, ax=ax, dims=None if dims is None else list(dims), plot_consensus=consensus, plot_drift=drift, eval_energy_1d=energy, objective_args=dict(num_pts=2))
        pl['p'].init_plot()
        untouched(E, 'first plot', dyn, fr)
        expected(E, 'first plot', ax, dyn.x, None, run, dm, d, consensus, drift, dyn.f, energy)
    def each(dyn, k, log):
        fr = freeze(E, dyn)
        pl['p'].update(wait=0.25)
        untouched(E, 'step %d' % k, dyn, fr)
        X, row = log[-1]
        if run in row: last['e'] = row[run]; last['x'] = X
        else:         # a finished run keeps its ensemble, its last consensus stays
            expected(E, 'finished, step %d' % k, ax, X, None, run, dm, d, consensus, drift, dyn.f, energy)
            if consensus and 'e' in last: E.eq('finished, step %d: consensus stays' % k, scatters(ax)[1].xy[0, 0], last['e'][0][0, dm[0]])
            return
        expected(E, 'step %d' % k, ax, X, row[run], run, dm, d, consensus, drift, dyn.f, energy)
    simulate(E, M, N, d, steps, stop, batch, spec=spec, each=each, init=init)
    E.check('one pause per update', P.plt.paused == [0.25] * steps)

def late(E, M, N, d, run, dims=None, stop=None, batch=None):
    """a plot that is created after some steps shows the current ensemble and the last consensus; the next update shows the step"""
    P = plotting(E); ax = Axis(E); dm = dims or (0, 1)
    dyn, log = simulate(E, M, N, d, 1, stop, batch)
    fr = freeze(E, dyn)
    p = P.PlotDynamic(dyn, num_run=run, ax=ax, dims=None if dims is None else list(dims), plot_consensus=True, plot_drift=True, objective_args=dict(num_pts=2)); p.init_plot()
    X, row = log[0]
    expected(E, 'first plot', ax, dyn.x, None, run, dm, d, True, True, dyn.f)
    z = scatters(ax)[1].xy
    E.check('consensus of a running run', len(z) == (run in row))
    if run in row:
        for a in (0, 1): E.eq('first plot: consensus %d' % a, z[0, a], row[run][0][0, dm[a]] if a == 0 or d > 1 else 0.0)
    p.update(); expected(E, 'update', ax, X, row.get(run), run, dm, d, True, True, dyn.f)
    untouched(E, 'plots', dyn, fr)

def history(E, M, N, d, run, steps=2, dims=None, stop=None, batch=None, consensus=True, drift=True, energy=True, order=None, given=False, spec='CBO'):
    """the plot of the i-th entry of the history shows the ensemble, consensus and drift of the same step, whatever was plotted before"""
    P = plotting(E); ax = Axis(E); dm = dims or (0, 1)
    dyn, log = simulate(E, M, N, d, steps, stop, batch, names=('x', 'consensus', 'drift'), spec=spec)
    fr = freeze(E, dyn)
    kw = {}
    if given: own = [E.array('own%d' % k, (M, N, d)) for k in range(steps + 1)]; kw['particles'] = own
    p = P.PlotDynamicHistory(dyn, num_run=run, ax=ax, dims=None if dims is None else list(dims), plot_consensus=consensus, plot_drift=drift, eval_energy_1d=energy, objective_args=dict(num_pts=2), **kw)
    E.check('number of plots', p.max_it == steps)
    expected(E, 'first plot', ax, own[0] if given else log[0][0], None if given else log[0][1].get(run), run, dm, d, consensus, drift, dyn.f, energy)
    for i in (order or range(steps)):
        p.plot_at_ind(i)
        X, row = log[i]
        if given: X = own[i]; expected(E, 'entry %d' % i, ax, X, None, run, dm, d, consensus, drift, dyn.f, energy)
        else: expected(E, 'entry %d' % i, ax, X, row.get(run), run, dm, d, consensus, drift, dyn.f, energy)
    untouched(E, 'history', dyn, fr)

def runs(E, steps, freq, save):
    """run_plots shows every freq-th entry, decorates, pauses and saves it"""
    P = plotting(E); ax = Axis(E); N = 2
    dyn, log = simulate(E, 1, N, 2, steps, names=('x', 'consensus'))
    fr = freeze(E, dyn); seen = []
    p = P.PlotDynamicHistory(dyn, ax=ax, plot_consensus=True, objective_args=dict(num_pts=2))
    def pause(w): seen.append((w, scatters(ax)[0].xy.copy(), scatters(ax)[1].xy.copy(), ax.titles[-1] if ax.titles else None))
    P.plt.pause = pause
    p.run_plots(freq=freq, wait=0.5, save_args=dict(fname='plot_', dpi=7) if save else None)
    idx = [i for i in range(steps) if i % freq == 0]
    E.check('every freq-th entry', len(seen) == len(idx))
    for (w, z, c, t), i in zip(seen, idx):
        X, row = log[i]
        E.check('pause and title', w == 0.5 and t == 'Iteration: %d' % i)
        for j in range(N):
            for a in (0, 1): E.eq('entry %d particle %d' % (i, j), z[j, a], X[0, j, a]); E.eq('entry %d consensus' % i, c[0, a], row[0][0][0, a])
    E.check('saved files', P.plt.saved == ([('plot_%d.png' % i, dict(dpi=7)) for i in idx] if save else []))
    untouched(E, 'history', dyn, fr)

def missing(E):
    """without the recorded data the corresponding part is left out, without particles the plot is refused"""
    P = plotting(E)
    dyn, log = simulate(E, 1, 2, 2, 1, names=('x',)); ax = Axis(E)
    p = P.PlotDynamicHistory(dyn, ax=ax, plot_consensus=True, plot_drift=True, objective_args=dict(num_pts=2)); p.plot_at_ind(0)
    expected(E, 'only particles', ax, log[0][0], None, 0, (0, 1), 2, False, False)
    E.check('no arrows', not quivers(ax))
    dyn, log = simulate(E, 1, 2, 2, 1, names=('consensus',))
    try: P.PlotDynamicHistory(dyn, ax=Axis(E)); E.check('refused', False)
    except RuntimeError: pass

def contour(E, n, d, dims, ylim, via):
    """contour plots show the objective on the grid, the other coordinates are zero"""
    P = plotting(E); f = E.objective('f', ddims=1); ax = Axis(E)
    x0, x1 = -1.0, 3.0
    kw = dict(x_min=x0, x_max=x1, num_pts=n)
    if ylim is not None: kw.update(y_min=ylim[0], y_max=ylim[1])
    y0, y1 = (x0 if ylim is None or ylim[0] is None else ylim[0]), (x1 if ylim is None or ylim[1] is None else ylim[1])
    if via == 'function': P.contour_2D(f, ax=ax, d=d, dims=None if dims is None else list(dims), alpha=0.5, **kw)
    else:
        dyn = C.build(E, 'CBO', 1, 2, (d,), f=f)
        P.PlotDynamic(dyn, ax=ax, dims=None if dims is None else list(dims), objective_args=dict(kw, alpha=0.5)).init_plot()
    dm = dims or (0, 1)
    E.check('one contour plot', len(ax.contours) == 1 and ax.contours[0][3] == dict(alpha=0.5))
    X, Y, Z, _ = ax.contours[0]
    X, Y = (E.np.broadcast_to(X[None, :], (n, n)) if len(E.shape(X)) == 1 else X), (E.np.broadcast_to(Y[:, None], (n, n)) if len(E.shape(Y)) == 1 else Y)
    E.check('shape', E.shape(Z) == (n, n) and E.shape(X) == (n, n) and E.shape(Y) == (n, n))
    for i in range(n):
        for j in range(n):
            E.eq('grid x %d %d' % (i, j), X[i, j], x0 + (x1 - x0) * j / (n - 1)); E.eq('grid y %d %d' % (i, j), Y[i, j], y0 + (y1 - y0) * i / (n - 1))
            p = E.np.zeros((1, d)); p[0, dm[0]] = X[i, j]; p[0, dm[1]] = Y[i, j]
            E.eq('value %d %d' % (i, j), Z[i, j], f(p)[0])

def line(E, n, via):
    P = plotting(E); f = E.objective('f', ddims=1); ax = Axis(E); kw = dict(x_min=-2.0, x_max=4.0, num_pts=n)
    if via == 'function': P.plot_1D(f, ax=ax, color='k', **kw)
    elif via == 'gca': P.plot_1D(f, color='k', **kw); ax = P.plt.ax
    else: P.PlotDynamic(C.build(E, 'CBO', 1, 2, (1,), f=f), ax=ax, objective_args=dict(kw, color='k')).init_plot()
    E.check('one line', len(ax.lines) == 1 and ax.lines[0][2] == dict(color='k'))
    x, y, _ = ax.lines[0]
    E.check('points', E.shape(x) == (n,) and E.shape(y) == (n,))
    for i in range(n):
        E.eq('grid %d' % i, x[i], -2.0 + 6.0 * i / (n - 1)); E.eq('value %d' % i, y[i], f(x[i:i + 1][None, :])[0])

def instances(tier):
    th = tier == 'thorough'
    I = []
    def add(h, **p):
        ex = {k: p.pop(k) for k in ('timeout', 'max_paths', 'validate', 'cost', 'eager', 'welldef') if k in p}
        I.append(dict(h=h, params=p, **ex))
    for d, dims in [(1, None), (2, None), (2, (1, 0)), (3, (0, 2)), (3, (2, 1))]:
        add('live', M=2, N=2, d=d, run=1, dims=dims); add('history', M=2, N=2, d=d, run=1, dims=dims)
    add('live', M=1, N=2, d=1, run=0, energy=False); add('history', M=1, N=2, d=1, run=0, energy=False, steps=1)
    add('live', M=2, N=2, d=2, run=0, steps=2); add('live', M=2, N=2, d=2, run=0, consensus=False); add('live', M=2, N=2, d=2, run=0, drift=False)
    for run in (0, 1): add('live', M=2, N=2, d=2, run=run, steps=2, stop={0: 1} if run else {1: 1}); add('history', M=2, N=2, d=2, run=run, steps=2, stop={0: 1} if run else {1: 1})
    add('live', M=3, N=2, d=2, run=1, steps=2, stop={1: 1}); add('history', M=3, N=2, d=2, run=2, steps=2, stop={0: 0, 1: 1}); add('history', M=2, N=2, d=2, run=0, steps=2, stop={0: 1}); add('live', M=3, N=2, d=2, run=2, steps=1, stop={0: 0})
    for part in (True, False):
        add('live', M=2, N=3, d=2, run=1, batch=(2, part)); add('history', M=2, N=3, d=2, run=1, steps=1, batch=(2, part)); add('live', M=2, N=3, d=2, run=1, steps=1, batch=(2, part), stop={0: 0})
        add('history', M=2, N=3, d=2, run=1, steps=1, batch=(2, part), stop={0: 0})
    add('live', M=1, N=3, d=2, run=0, batch=(2, True), steps=2); add('history', M=1, N=3, d=2, run=0, batch=(2, True), steps=2)
    add('history', M=1, N=2, d=2, run=0, steps=3, order=(2, 0, 1)); add('history', M=1, N=2, d=2, run=0, steps=2, consensus=False); add('history', M=1, N=2, d=2, run=0, steps=2, drift=False, given=True)
    add('live', M=2, N=2, d=2, run=1, spec='PolarCBO', drift=False); add('history', M=2, N=2, d=2, run=1, spec='PolarCBO', drift=False)
    for steps, freq, save in [(3, 1, False), (3, 2, True), (2, 5, True)]: add('runs', steps=steps, freq=freq, save=save)
    add('missing')
    for kw in [dict(d=2, run=1), dict(d=3, run=0, dims=(2, 0)), dict(d=2, run=1, stop={0: 0}), dict(d=2, run=0, stop={0: 0}), dict(d=2, run=1, batch=(1, True)), dict(d=1, run=1)]: add('late', M=2, N=2, **kw)
    for n, d, dims, yl in [(2, 2, None, None), (3, 3, (2, 0), None), (2, 2, (1, 0), (0.0, 2.0)), (3, 2, None, (-2.0, 0.0)), (2, 4, (1, 3), (0.5, None))]:
        for via in ('function', 'dynamic'): add('contour', n=n, d=d, dims=dims, ylim=yl, via=via)
    for via in ('function', 'gca', 'dynamic'): add('line', n=3, via=via)
    if th:
        add('live', M=3, N=4, d=3, run=1, dims=(2, 0), batch=(2, True), stop={0: 0}); add('history', M=2, N=3, d=2, run=1, batch=(2, False), steps=2, stop={0: 1}, max_paths=3000)
        add('history', M=3, N=3, d=3, run=1, steps=3, stop={0: 1, 2: 2}, dims=(1, 2)); add('contour', n=4, d=3, dims=(1, 2), ylim=(-1.0, 0.0), via='dynamic')
    return I
