"""C08 a run stops exactly when one of its termination criteria holds."""
import itertools, numpy
from props import common as C
BOUNDS = ('one check from an arbitrary state (iteration, time, energies, update sizes, evaluation counts, thresholds all arbitrary) for M in {1,2,3} runs and every pair/triple of criteria; '
          'energy stagnation over 3 to 4 steps with patience 2, 3; optimize() with arbitrary answers of the criterion over 3 checks; computed update sizes and current best energies for one step')

class Dummy: pass

def terms(E, names, M):
    """criterion arguments with arbitrary thresholds and the condition each documents, per run"""
    out = []
    for k, nm in enumerate(names):
        p = 'c%d.' % k
        if nm == 'energy-tol':
            v = E.real(p + 'energy_tol'); out.append((dict(name=nm, energy_tol=v), lambda d, m, v=v: E.strict(d.f_min[m], v)))
        elif nm == 'diff-tol':
            v = E.real(p + 'diff_tol'); out.append((dict(name=nm, diff_tol=v), lambda d, m, v=v: E.strict(d.update_diff[m], v)))
        elif nm == 'max-eval':
            v = E.int(p + 'max_eval', 0, 6); out.append((dict(name=nm, max_eval=v), lambda d, m, v=v: (d.num_f_eval[m] + (d.batch_size if hasattr(d, 'batch_size') else d.N)) > v))
        elif nm == 'max-it':
            v = E.int(p + 'max_it', 0, 50); out.append((dict(name=nm, max_it=v), lambda d, m, v=v: d.it >= v))
        elif nm == 'max-it-none':
            out.append((dict(name='max-it', max_it=None), lambda d, m: False))
        elif nm == 'max-time':
            v = E.real(p + 'max_time'); out.append((dict(name=nm, max_time=v), lambda d, m, v=v: E.below(v, d.t)))
    return out

def criteria(E, names, M, N=2, batch=None, base=False, alias=None):
    ts = terms(E, names, M)
    spec = [dict(t[0]) for t in ts]
    if alias:
        for s in spec: s['name'] = s['name'].replace('-', alias)
    D = E.mod('cbx.dynamics')
    kw = dict(batch_args=dict(size=batch)) if batch else {}
    cls = E.mod('cbx.dynamics.pdyn').ParticleDynamic if base else D.CBO
    dyn = cls(E.objective('f'), f_dim='3D', check_f_dims=False, x=E.array('x', (M, N, 1)), term_criteria=spec, verbosity=0, track_args=dict(names=[]), **kw)
    dyn.f_min = E.array('fmin', (M,)); dyn.update_diff = E.array('ud', (M,))
    for m in range(M): dyn.num_f_eval[m] = E.choice('ev%d' % m, 4)
    dyn.it = E.int('it', 0, 60); dyn.t = E.real('t')
    stop = dyn.terminate()
    act = C.active_of(dyn)
    for m in range(M):
        hold = [i for i, t in enumerate(ts) if bool(t[1](dyn, m))]
        E.check('run %d is active exactly when no criterion holds' % m, (m in act) == (not hold))
        r = dyn.term_reason[m]
        if m not in act: E.check('reason of run %d' % m, r is not None and [int(i) for i in r] == hold)
        else: E.check('an active run has no reason', r is None)
    E.check('number of active runs', int(dyn.num_active_runs) == len(act))
    E.check('optimisation ends when no run is active', bool(stop) == (len(act) == 0))

def stagnation(E, M, patience, steps, finish=None, cls='CBO', N=1):
    f = E.objective('f'); T = E.mod('cbx.utils.termination')
    thr = E.real('thr', pos=True)
    x = E.array('x', (M, N, 1))
    dyn = C.build(E, cls, M, N, (1,), f=f, X=x)
    term = T.select_term(dict(name='energy-stagnation', patience=patience, std_thresh=thr))
    dyn.term_criteria = dyn.term_criteria + [term]
    loss = [[] for _ in range(M)]; done = [False] * M
    for s in range(steps + 1):
        dyn._switch.stop = [finish == m and s >= 1 for m in range(M)]
        dyn.terminate()
        act = C.active_of(dyn)
        for m in range(M):
            if dyn._switch.stop[m]: done[m] = True
            if done[m]:
                E.check('finished run %d stays finished' % m, m not in act); continue
            l = loss[m][-patience:]
            if len(l) < patience:
                E.check('step %d: no stagnation of run %d before %d steps' % (s, m, patience), m in act); continue
            mean = E.sum(l) / patience
            cond = E.strict(E.sqrt(E.sum([(v - mean) * (v - mean) for v in l]) / patience), thr)
            E.check('step %d: run %d stops exactly when the last %d consensus energies stagnate' % (s, m, patience), E.iff(cond, m not in act))
            if m not in act:
                done[m] = True
                E.check('reason of run %d' % m, [int(i) for i in dyn.term_reason[m]] == [1])
        if s == steps or not act: break
        dyn.step()
        C.havoc(E, dyn, list(range(M)), 'h%d' % s, keep=('consensus',))
        for k, m in enumerate(act): loss[m].append(f(dyn.consensus[k, 0]))

def optimize(E, cls, M, checks):
    """optimize() with arbitrary answers of the criterion"""
    ans = [[E.bool('stop%d.%d' % (s, m)) for m in range(M)] for s in range(checks)]
    log = []; stepped = []
    def term(dyn):
        log.append(dyn.it)
        return numpy.array(ans[len(log) - 1]) if len(log) <= checks else numpy.array([True] * M)
    dyn = C.build(E, cls, M, 1, (1,))
    dyn.term_criteria = [term]
    old = dyn.step
    def step():
        stepped.append(len(log))
        E.check('steps use the runs active at the last check', C.active_of(dyn) == [m for m in range(M) if not ans[len(log) - 1][m]])
        old(); C.havoc(E, dyn, list(range(M)), 'h%d' % len(stepped))
    dyn.step = step
    ups = []
    class Sched:
        def update(self, d): ups.append(len(stepped))
    if clsname_has_sched(cls): res = dyn.optimize(sched=Sched())
    else: res = dyn.optimize(sched=None)
    first = next((s for s in range(checks) if all(ans[s])), checks)
    E.check('one step per check with an active run', stepped == list(range(1, first + 1)))
    E.check('no check after the last', len(log) == first + 1)
    E.check('time and iterations', int(dyn.it) == first)
    if clsname_has_sched(cls): E.check('the scheduler runs once per step', ups == list(range(1, first + 1)))
    E.eq('the best particle is returned', res, dyn.best_particle)

def clsname_has_sched(cls): return not cls.startswith('CBS')

def computed(E, cls, M, N, d, active=None):
    """the quantities the criteria read: update size, current best energy and time after one step"""
    f = E.objective('f', ddims=len(d))
    dyn = C.build(E, cls, M, N, d, active=active, f=f)
    dyn.terminate()
    dyn.step()
    before = dyn.x.copy(); t0 = dyn.t; i0 = dyn.it
    C.step(E, dyn)
    dd = int(numpy.prod(d))
    for m in range(M):
        v = [dyn.x[(m, j) + ix] - before[(m, j) + ix] for j in range(N) for ix in E.idx(d)]
        E.eq('update size of run %d' % m, dyn.update_diff[m] * N, E.norm2(v))
        E.eq('energy of run %d' % m, dyn.f_min[m], E.min(*[dyn.energy[m, j] for j in range(N)]))
    E.eq('time', dyn.t, t0 + dyn.dt); E.eq('iteration', dyn.it, i0 + 1)

def instances(tier):
    out = []
    names = ['energy-tol', 'diff-tol', 'max-eval', 'max-it', 'max-time']
    c = lambda names, M=2, **k: dict(h='criteria', params=dict(names=tuple(names), M=M, **k))
    for n in names: out += [c([n], M=1), c([n], M=3, alias='_'), c([n], M=2, alias=' ')]
    for a, b in itertools.combinations(names, 2): out.append(c([a, b]))
    for a, b, e in itertools.combinations(names, 3): out.append(c([a, b, e], M=1))
    out += [c(['max-it-none']), c(['max-it-none', 'energy-tol']), c(['max-eval'], batch=1), c(['max-eval', 'max-it'], base=True), c(['diff-tol', 'energy-tol'], base=True), c(['energy-tol', 'energy-tol'], M=2), c(['diff-tol', 'energy-tol', 'max-time'], M=2)]
    s = lambda **k: dict(h='stagnation', params=k)
    out += [s(M=1, patience=2, steps=3), s(M=2, patience=2, steps=2), s(M=2, patience=2, steps=3, finish=0), s(M=2, patience=2, steps=3, finish=1), s(M=1, patience=3, steps=4), s(M=1, patience=1, steps=2), s(M=3, patience=2, steps=2, finish=1), s(M=1, patience=2, steps=2, cls='CBOMemory')]
    for cls in ('CBO', 'CBS', 'PSO', 'CBOMemory'): out.append(dict(h='optimize', params=dict(cls=cls, M=2, checks=3)))
    out.append(dict(h='optimize', params=dict(cls='CBO', M=3, checks=2)))
    for cls in ('CBO', 'PSO', 'CBOMemory', 'AdamCBO', 'PolarCBO'):
        out += [dict(h='computed', params=dict(cls=cls, M=2, N=1, d=(1,))), dict(h='computed', params=dict(cls=cls, M=1, N=2, d=(2,)))]
    out += [dict(h='computed', params=dict(cls='CBO', M=1, N=2, d=(2, 2))), dict(h='computed', params=dict(cls='CBO', M=2, N=2, d=(1,), active=(1,)))]
    return out
