"""C06 best-so-far is monotone and belongs to an evaluated point."""
from props import common as C
BOUNDS = ('1 to 3 steps from an arbitrary ensemble, M in {1,2} runs, N in {1,2,3} particles, d in {1,2,(2,2)}; every dynamic class; full, partial-batch and '
          'full-update batches; all runs active or one finished after the first step')
ASSUMPTIONS = ['no two scheduled evaluations are compared through rounding (real arithmetic)']

def record(E, cls, M, N, d, steps, batch=None, stop=None, noise='anisotropic', correction='no_correction'):
    f = E.objective('f', ddims=len(d))
    dyn = C.build(E, cls, M, N, d, batch=batch, noise=noise, correction=correction, f=f)
    memory = hasattr(dyn, 'y') and C.clsname(cls) in ('CBOMemory', 'PSO')
    last = [[None] * N for _ in range(M)]          # (point, energy) of every particle
    seen = [[] for _ in range(M)]                  # every (point, energy) used so far
    def used(m, j, p):
        e = f(p); last_ = (p, e)
        seen[m].append(last_)
        if memory and last[m][j] is not None:      # the memory keeps the better one
            q = last[m][j]
            better = E.decided(E.strict(e, q[1]))
            last[m][j] = last_ if better else q
        else: last[m][j] = last_
    if memory:
        for m in range(M):
            for j in range(N): used(m, j, dyn.x[m, j].copy())
    prev = [None] * M
    for s in range(steps):
        dyn._switch.stop = [s >= 1 and stop == m for m in range(M)]
        dyn.terminate()
        act = C.active_of(dyn)
        before = dyn.x.copy()
        C.step(E, dyn)
        for m in act:
            idx = C.moved(dyn, m, N) if memory else C.scheduled(dyn, m, N)
            for j in idx: used(m, j, (dyn.x if memory else before)[m, j].copy())
        for m in range(M):
            t = 'step %d run %d ' % (s, m)
            es = [v for _, v in seen[m]]
            E.eq(t + 'best energy is the minimum of all energies used', dyn.best_energy[m], E.min(*es))
            if prev[m] is not None: E.le(t + 'best energy does not increase', dyn.best_energy[m], prev[m])
            prev[m] = dyn.best_energy[m]
            cur = [q for q in last[m] if q is not None]
            E.eq(t + 'current best energy is the minimum over the particles', dyn.best_cur_energy[m], E.min(*[v for _, v in cur]))
            E.eq(t + 'f_min', dyn.f_min[m], dyn.best_cur_energy[m])
            E.check(t + 'best particle has the best energy', pair(E, dyn.best_particle[m], dyn.best_energy[m], seen[m]))
            E.check(t + 'current best particle has the current best energy', pair(E, dyn.best_cur_particle[m], dyn.best_cur_energy[m], cur))

def pair(E, p, v, pairs):
    q0 = p.reshape(-1)
    return E.any(E.and_(E.same(v, e), E.all(E.same(q0[i], q.reshape(-1)[i]) for i in range(len(q0)))) for q, e in pairs)

def instances(tier):
    o = lambda cls, M=1, N=2, d=(1,), steps=2, **k: dict(h='record', lazy=False, params=dict(cls=cls, M=M, N=N, d=d, steps=steps, **k))
    out = []
    for cls in C.ALL:
        if cls.startswith('RegCombination'): continue
        dd = (2,) if cls.startswith('HyperSurface') or cls.endswith(('sphere', 'plane')) else (1,)
        simple = dd == (1,) and ':ball' not in cls
        out.append(o(cls, d=dd, steps=2 if simple else 1))
        out.append(o(cls, M=2, N=2 if simple and (cls not in ('CBOMemory', 'PSO') or tier == 'thorough') else 1, d=dd, stop=0, steps=2))
    for cls in ('CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'MirrorCBO', 'PolarCBO'):
        out.append(o(cls, batch=(1, True), steps=2))
        out.append(o(cls, batch=(1, False), steps=2))
        out.append(o(cls, d=(2, 2), N=1 if cls in ('CBOMemory', 'PSO') else 2, steps=1) if cls != 'PolarCBO' else o(cls, d=(2,), steps=1))
        out.append(o(cls, N=1, M=2, stop=1, steps=2))
    out += [o('CBO', N=3, batch=(2, True), steps=2), o('CBO', N=3, steps=1), o('CBO', N=1, steps=3), o('CBO', correction='heavi_side'), o('CBO', noise='covariance', steps=2), o('CBO', M=2, batch=(1, True), stop=0, steps=2)]
    if tier == 'thorough':
        out += [o('CBO', steps=3), o('CBO', N=3, steps=2), o('CBO', M=2, N=3, stop=0, steps=2), o('CBOMemory', steps=3), o('PSO', N=3, steps=1), o('CBOMemory', batch=(1, True), steps=3), o('CBO', N=3, batch=(1, True), steps=3), o('CBO', batch=(1, False), steps=3)]
    for i in out:
        if i['params']['cls'] in ('CBOMemory', 'PSO', 'MirrorCBO:ball'): i['eager'] = True
        if 'sphere' in i['params']['cls']: i['welldef'] = True
    return out
