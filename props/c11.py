"""C11 mini-batches are valid, duplicate-free and cover every particle per epoch."""
from props import common as C
BOUNDS = 'up to 6 consecutive batches, every permutation of each shuffle as an integer unknown; N <= 6, M <= 2, every batch size 1..N+1 (and None); partial/full and resample/concatenate modes; active subsets; real steps with N <= 3; one step of every dynamic class from an arbitrary state'

def dynamic(E, M, N, size, partial=True, var='resample', active=None, seed=None):
    X = E.np.zeros((M, N, 1))
    for r in range(M):
        for j in range(N): X[r, j, 0] = 16.0 * r + j + 1.0
    dyn = C.build(E, 'CBO', M, N, (1,), active=active, X=X, noise='constant')
    dyn.init_batch_idx(dict(size=size, partial=partial, var=var, seed=seed or E.permseed('perm')))
    dyn.terminate()
    return dyn, X

def epochs(E, M, N, size, steps, partial=True, var='resample', active=None):
    dyn, X = dynamic(E, M, N, size, partial, var, active)
    b = N if size is None else min(size, N)
    act = C.active_of(dyn)
    E.check('batch size', dyn.batch_size == b)
    if b == N:
        for s in range(steps):
            dyn.set_batch_idx()
            for nm, idx in (('consensus', dyn.consensus_idx), ('particle', dyn.particle_idx)):
                E.eq('step %d: %s index selects every particle of the active runs' % (s, nm), X[idx], X[act])
        return
    # all shuffles used so far, as unknowns: pool of run r = index sequence still to be used
    used = {r: [] for r in range(M)}
    for s in range(steps):
        dyn.set_batch_idx()
        B = dyn.batch_idx
        E.check('shape of the batch %d' % s, E.shape(B) == (M, b))
        fresh = False
        for r in range(M):
            q = [B[r, i] for i in range(b)]
            E.check('step %d run %d: indices in range' % (s, r), E.all(E.and_(0 <= v, v < N) for v in q))
            E.check('step %d run %d: distinct' % (s, r), E.all(E.not_(E.same(q[i], q[j])) for i in range(b) for j in range(i)))
            left = N - len(used[r])
            if left >= b:
                # still enough unused indices of this shuffle: none is repeated
                E.check('step %d run %d: disjoint from the earlier batches of the epoch' % (s, r), E.all(E.not_(E.same(u, v)) for u in used[r] for v in q))
                used[r] += q
            elif var == 'concat':
                # the unused indices come first: every index not used in this epoch is in the batch
                for p in range(N):
                    E.check('step %d run %d: left-over index %d is used' % (s, r, p), E.or_(E.any(E.same(u, p) for u in used[r]), E.any(E.same(v, p) for v in q)))
                # a new epoch starts; indices of the batch that were not left over belong to it
                rest = q[left:]
                used[r] = list(rest)
            else: used[r] = list(q)
        # the index expressions select exactly the batch of every active run
        ci = dyn.consensus_idx
        E.eq('step %d: consensus runs' % s, ci[0], [[r] * b for r in act])
        E.eq('step %d: consensus particles' % s, ci[1], B[act, :])
        if partial:
            E.eq('step %d: updated runs' % s, dyn.particle_idx[0], [[r] * b for r in act])
            E.eq('step %d: updated particles' % s, dyn.particle_idx[1], B[act, :])
        else: E.eq('step %d: update index is every particle of the active runs' % s, X[dyn.particle_idx], X[act])

def used_in_step(E, M, N, size, steps, partial=True, var='resample', active=None):
    """the objective is evaluated at the particles of the batch and the update moves them (partial) or all (full)"""
    dyn, X = dynamic(E, M, N, size, partial, var, active, seed=E.rowseed('batch', list(range(M))))
    f = dyn.f if hasattr(dyn.f, 'log') else None
    log = E.calls['f']
    b = min(size, N); act = C.active_of(dyn)
    for s in range(steps):
        dyn.x = X.copy(); n0 = len(log)
        dyn.step()
        ev = [float(p.reshape(-1)[0]) for p, _ in log[n0:]]
        E.check('step %d: one evaluation per particle of the batch' % s, len(ev) == b * len(act))
        for r in act:
            mine = sorted(int(round(v - 16.0 * r - 1)) for v in ev if 16.0 * r < v < 16.0 * (r + 1))
            E.check('step %d run %d: evaluated particles are the batch' % (s, r), mine == sorted(int(j) for j in dyn.batch_idx[r]))
        z = dyn.sampler.sizes[-1]
        E.check('step %d: draws for the updated particles' % s, z == (len(act), b if partial else N, 1))
        for r in range(M):
            for j in range(N):
                if r not in act or (partial and j not in C.scheduled(dyn, r, N)): E.eq('step %d: %d,%d stays' % (s, r, j), dyn.x[r, j], X[r, j])

def touched(E, spec, M, N, d, active=None, batch=(1, True), steps=1):
    """every dynamic class: the update changes particles of the batch only (partial) or of all particles of active runs (full)"""
    dyn = C.build(E, spec, M, N, d, active=active, batch=batch)
    dyn.terminate()
    for s in range(steps):
        if s == 0: C.havoc(E, dyn, list(range(M)))
        keep = {k: getattr(dyn, k).copy() for k in ('x', 'y', 'v', 'm') if getattr(dyn, k, None) is not None and E.shape(getattr(dyn, k))[:2] == (M, N)}
        C.step(E, dyn); act = C.active_of(dyn)
        for m in range(M):
            mv = C.moved(dyn, m, N) if m in act else []
            for j in range(N):
                if j in mv: continue
                for k in keep: E.eq('step %d: %s of particle %d,%d stays' % (s, k, m, j), getattr(dyn, k)[m, j], keep[k][m, j])

def instances(tier):
    e = lambda **k: dict(h='epochs', params=k); u = lambda **k: dict(h='used_in_step', params=k)
    out = []
    for var in ('resample', 'concat'):
        out += [e(M=1, N=5, size=2, steps=6, var=var), e(M=1, N=6, size=4, steps=4, var=var), e(M=1, N=4, size=3, steps=5, var=var), e(M=2, N=3, size=2, steps=4, var=var),
                e(M=1, N=4, size=1, steps=6, var=var), e(M=1, N=6, size=3, steps=5, var=var), e(M=2, N=4, size=3, steps=2, var=var, active=(1,)), e(M=2, N=3, size=2, steps=3, partial=False, var=var, active=(0,))]
        out += [u(M=1, N=3, size=2, steps=3, var=var), u(M=2, N=2, size=1, steps=2, partial=False, var=var), u(M=2, N=3, size=2, steps=1, var=var, active=(1,)), u(M=2, N=3, size=2, steps=1, var=var, partial=False)]
    out += [e(M=2, N=3, size=z, steps=2, active=a) for z in (None, 3, 4) for a in (None, (1,))]
    out += [e(M=1, N=5, size=2, steps=5, partial=False)]
    for spec in C.ALL + ['MirrorCBO:square', 'MirrorCBO:elastic']:
        if spec == 'CBS': continue      # refuses batches (C26)
        d = (2,) if spec.split(':')[0] == 'HyperSurfaceCBO' or spec.endswith(('sphere', 'plane')) else (1,)
        t = lambda **k: dict(h='touched', welldef='sphere' in spec, params=dict(spec=spec, d=d, **k))
        out += [t(M=1, N=3, batch=(2, True)), t(M=2, N=2, active=(1,), batch=(1, True)), t(M=2, N=2, active=(0,), batch=(1, False))]
        if tier == 'thorough': out += [t(M=2, N=3, batch=(2, True), steps=2)]
    if tier == 'thorough':
        for var in ('resample', 'concat'):
            out += [e(M=1, N=8, size=3, steps=6, var=var), e(M=1, N=7, size=5, steps=5, var=var), e(M=3, N=5, size=4, steps=4, var=var, active=(0, 2))]
    return out
