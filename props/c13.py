"""C13 history entries are faithful, immutable snapshots at the configured interval."""
from props import common as C
BOUNDS = '3 to 4 consecutive real steps (+ reset + 2 steps) from arbitrary states, save intervals 1..3, M, N <= 2, d <= 2 and one multi-dimensional domain; every dynamic class and every tracking key'
TRACK = dict(x='x', energy='energy', update_norm='update_diff', consensus='consensus', drift='drift')

def fresh(E, dyn, tag):
    """between two steps: the arrays the code updates in place get arbitrary new contents, in place"""
    for k in ('x', 'y', 'm', 'energy', 'best_energy', 'best_particle', 'x_eval'):
        v = getattr(dyn, k, None)
        if v is not None and hasattr(v, 'shape'): E.inject(v, '%s.%s' % (tag, k))

def snapshot(E, dyn, names):
    np = E.np; out = {}
    for n in names:
        if n == 'drift_mean':
            out[n] = np.array([E.sum([E.abs(dyn.drift[m, i, k]) for i in range(dyn.drift.shape[1]) for k in range(dyn.drift.shape[2])]) / (dyn.drift.shape[1] * dyn.drift.shape[2]) for m in range(dyn.drift.shape[0])])
        else:
            v = getattr(dyn, TRACK.get(n, n))
            out[n] = v.copy() if hasattr(v, 'copy') else v
    if 'drift' in names: out['particle_idx'] = dyn.x.copy()[dyn.particle_idx]      # the selected particles identify the index
    return out

def compare(E, tag, hist, want, names, dyn, every, X):
    for n in names:
        got = hist[n]; off = 1 if n == 'x' else 0
        E.check('%s number of entries of %s' % (tag, n), len(got) == len(want) + off)
        for k, w in enumerate(want):
            if k + off >= len(got): break
            E.eq('%s %s entry %d' % (tag, n, k), got[k + off], w[n])
    if 'drift' in names:
        E.check(tag + ' number of index entries', len(hist['particle_idx']) == len(want))

def entries(E, cls, M, N, d, names, save_int, steps, batch=None, active=None, noise='anisotropic', reset=False):
    opened = dict(names=list(names), save_int=save_int)
    X = E.array('x', (M, N) + tuple(d))
    dyn = C.build(E, cls, M, N, d, X=X, batch=batch, noise=noise, track=opened)
    if active is not None: dyn._switch.stop = [r not in active for r in range(M)]
    first = dyn.x.copy()
    def play(tag, steps):
        out = []
        for s in range(steps):
            dyn.terminate(); C.step(E, dyn)
            if s % save_int == 0: out.append(snapshot(E, dyn, names))
            fresh(E, dyn, '%s%d' % (tag, s))
        return out
    want = play('h', steps)
    hist = dyn.history
    if 'x' in names: E.eq('initial ensemble', hist['x'][0], first)
    compare(E, 'run', hist, want, names, dyn, save_int, X)
    if reset:
        start = dyn.x.copy()
        dyn.reset()
        E.check('reset: counter', dyn.it == 0)
        if hasattr(dyn, 't'): E.eq('reset: time', dyn.t, 0.0)
        E.check('reset: interval', dyn.save_int == save_int)
        E.check('reset: quantities', set(dyn.history) == set(hist))
        if 'x' in names: E.eq('reset: initial ensemble', dyn.history['x'][0], start)
        want2 = play('g', reset)
        compare(E, 'after reset', dyn.history, want2, names, dyn, save_int, X)
        compare(E, 'history before the reset', hist, want, names, dyn, save_int, X)
        if 'x' in names: E.eq('initial ensemble before the reset', hist['x'][0], first)
    E.check('configuration of the caller', opened == dict(names=list(names), save_int=save_int))

def base(E, M, N, d, names, save_int, steps):
    """the base class without consensus: positions are recorded before the post processing of the step"""
    PD = E.mod('cbx.dynamics.pdyn').ParticleDynamic
    X = E.array('x', (M, N) + tuple(d)); cnt = [0]
    class Dyn(PD):
        def inner_step(self):
            self.x[...] = E.array('new%d' % cnt[0], (M, N) + tuple(d)); self.energy[...] = E.array('en%d' % cnt[0], (M, N)); cnt[0] += 1
    dyn = Dyn(E.objective('f'), f_dim='3D', check_f_dims=False, x=X.copy(), post_process=E.quiet_post(), track_args=dict(names=list(names), save_int=save_int), verbosity=0)
    want = []
    for s in range(steps):
        dyn.step()
        if s % save_int == 0: want.append(snapshot(E, dyn, names))
    if 'x' in names: E.eq('initial ensemble', dyn.history['x'][0], X)
    compare(E, 'run', dyn.history, want, names, dyn, save_int, X)
    E.check('only the named quantities', set(dyn.history) == set(names))

def processed(E, cls, M, N, d, names, save_int, steps, batch=None):
    """with an arbitrary post-processing of the user: the entries are the state the step ended in"""
    X = E.array('x', (M, N) + tuple(d)); k = [0]
    def post(dyn):
        k[0] += 1; dyn.x = E.array('post%d' % k[0], (M, N) + tuple(d))
    dyn = C.build(E, cls, M, N, d, X=X, batch=batch, track=dict(names=list(names), save_int=save_int), post_process=post, post=False)
    first = dyn.x.copy(); want = []
    for s in range(steps):
        dyn.terminate(); C.step(E, dyn)
        if s % save_int == 0: want.append(snapshot(E, dyn, names))
    E.check('post-processed once per step', k[0] == steps)
    if 'x' in names: E.eq('initial ensemble', dyn.history['x'][0], first)
    compare(E, 'run', dyn.history, want, names, dyn, save_int, X)

class Counter:
    """an extra track of the user"""
    def __init__(self): self.n = []; self.inits = 0
    def init_history(self, dyn): self.inits += 1; dyn.history['mine'] = []
    def update(self, dyn): dyn.history['mine'].append(dyn.it)

def reuse(E, cls, M, N, save_int, steps):
    """one tracking configuration, with extra tracks, for two dynamics one after the other"""
    np = E.np; c = Counter(); extra = [c]; names = ['x', 'update_norm']
    cfg = dict(names=names, extra_tracks=extra, save_int=save_int)
    dyns = []
    for i in range(2):
        dyn = C.build(E, cls, M, N, (1,), X=E.array('x%d' % i, (M, N, 1)), track=cfg)
        first = dyn.x.copy(); want = []
        for s in range(steps):
            dyn.terminate(); C.step(E, dyn)
            if s % save_int == 0: want.append(snapshot(E, dyn, names))
            fresh(E, dyn, 'h%d.%d' % (i, s))
        dyns.append((dyn, first, want))
    k = len([s for s in range(steps) if s % save_int == 0])
    for i, (dyn, first, want) in enumerate(dyns):
        E.eq('dynamic %d: initial ensemble' % i, dyn.history['x'][0], first)
        compare(E, 'dynamic %d' % i, dyn.history, want, names, dyn, save_int, None)
        E.check('dynamic %d: one extra entry per interval' % i, dyn.history['mine'] == [s for s in range(steps) if s % save_int == 0])
    E.check('configuration unchanged', cfg == dict(names=['x', 'update_norm'], extra_tracks=[c], save_int=save_int) and len(extra) == 1 and names == ['x', 'update_norm'])
    E.check('one start per dynamic', c.inits == 2)

def optimised(E, cls, M, N, save_int, steps):
    """a whole optimisation run: one entry per interval, the last state is not lost or duplicated"""
    T = E.mod('cbx.utils.termination')
    S = E.mod('cbx.scheduler')
    f = E.objective('f')
    dyn = C.build(E, cls, M, N, (1,), f=f, track=dict(names=['x', 'energy', 'alpha'], save_int=save_int), names=())
    dyn.term_criteria = [T.max_it_term(steps)]
    want = [dyn.x.copy()]; wa = []
    orig = dyn.post_step
    def watched():
        it = dyn.it
        orig()
        if it % save_int == 0: want.append(dyn.x.copy()); wa.append(dyn.alpha.copy())
        fresh(E, dyn, 'o%d' % it)
    dyn.post_step = watched
    dyn.optimize()
    E.check('steps', dyn.it == steps)
    E.check('number of entries', len(dyn.history['x']) == len(want) and len(dyn.history['alpha']) == len(wa) == len(dyn.history['energy']))
    for k in range(len(want)): E.eq('x %d' % k, dyn.history['x'][k], want[k])
    for k in range(len(wa)): E.eq('alpha %d' % k, dyn.history['alpha'][k], wa[k])

FULL = ('x', 'energy', 'update_norm', 'consensus', 'drift', 'drift_mean', 'best_particle', 'best_energy', 'alpha')
def instances(tier):
    e = lambda **k: dict(h='entries', params=k, welldef=False)
    out = [e(cls='CBO', M=1, N=2, d=(1,), names=FULL, save_int=1, steps=3, reset=2), e(cls='CBO', M=1, N=1, d=(2,), names=FULL, save_int=2, steps=4), e(cls='CBO', M=1, N=1, d=(1,), names=FULL, save_int=3, steps=4, reset=2),
           e(cls='CBO', M=2, N=2, d=(1,), names=FULL, save_int=1, steps=2, batch=(1, True)), e(cls='CBO', M=2, N=1, d=(1,), names=FULL, save_int=1, steps=3, active=(1,)),
           e(cls='CBO', M=2, N=2, d=(1,), names=('x', 'drift'), save_int=2, steps=3, batch=(1, False)), e(cls='CBO', M=1, N=1, d=(2, 2), names=('x', 'energy', 'update_norm', 'consensus', 'drift'), save_int=1, steps=2, noise='constant')]
    for cls in C.ALL[1:]:
        d = (2,) if cls.split(':')[0] in ('HyperSurfaceCBO',) or cls.endswith(('sphere', 'plane')) else (1,)
        n = ('x', 'energy', 'update_norm', 'consensus', 'best_particle', 'best_cur_particle') + (('y',) if cls.split(':')[0] in ('CBOMemory', 'MirrorCBO', 'PSO') else ()) + (('v',) if cls in ('PSO', 'AdamCBO') else ())
        heavy = cls == 'RegCombinationCBO:sphere'      # many sign cases per step
        out.append(e(cls=cls, M=1, N=1, d=d, names=n, save_int=1 if heavy else 2, steps=2 if heavy else 3, reset=0 if heavy else 1))
    out += [dict(h='base', params=dict(M=1, N=2, d=(1,), names=('x', 'energy', 'update_norm'), save_int=i, steps=4)) for i in (1, 2, 3)]
    out += [dict(h='processed', params=dict(cls=c, M=1, N=2, d=(1,), names=('x', 'energy', 'update_norm', 'best_particle'), save_int=i, steps=2, **k)) for c, i, k in (('CBO', 1, {}), ('CBO', 2, {}), ('PSO', 1, {}), ('AdamCBO', 1, {}), ('CBO', 1, dict(batch=(1, True))))]
    out += [dict(h='reuse', params=dict(cls=c, M=1, N=1, save_int=i, steps=3)) for c, i in (('CBO', 1), ('PolarCBO', 2), ('CBOMemory', 2))]
    out += [dict(h='optimised', params=dict(cls=c, M=1, N=1, save_int=i, steps=3)) for c, i in (('CBO', 1), ('CBO', 2), ('AdamCBO', 3), ('CBOMemory', 2))]
    if tier == 'thorough':
        out += [e(cls=c, M=2, N=2, d=(1,), names=FULL, save_int=2, steps=3, reset=1, active=(0,)) for c in ('CBO', 'AdamCBO', 'CBOMemory')]
        out += [e(cls='CBO', M=2, N=3, d=(1,), names=FULL, save_int=2, steps=5, batch=(2, True)), e(cls='CBO', M=1, N=2, d=(2,), names=FULL, save_int=3, steps=7, reset=4)]
    return out
