"""Scenario environment shared by the symbolic and the concrete mode (no solver imports here).

A harness is a function h(E, **params).  It builds inputs through E, runs the real code of /repo and
states properties with E.check / E.eq / E.le.  The same function is executed
  * symbolically (inputs are terms, the checks become solver queries), and
  * concretely in the real interpreter with real numpy (validation of the encoding, replay of counterexamples)."""
import itertools, math, types

class Skip(Exception):
    """an assumption of the scenario does not hold for these inputs"""

class RNG:
    """numpy Generator / RandomState stand-in.  Equal seeds give equal streams; a stream without seed is fresh."""
    def __init__(self, E, key):
        self._E = E; self._key = key; self._k = 0
        self.bit_generator = self
    def _name(self, kind):
        n = '%s#%d.%s' % (self._key, self._k, kind); self._k += 1
        return n
    def _reals(self, kind, size, **dom):
        shape = () if size is None else ((size,) if _isint(size) else tuple(int(s) for s in size))
        a = self._E.array(self._name(kind), shape, **dom)
        return a[()] if shape == () and size is None else a
    def standard_normal(self, size=None, dtype=None, out=None): return self._reals('n', size)
    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None: size = self._E.shape(loc + scale) or None
        return loc + scale * self._reals('n', size)
    def randn(self, *s): return self._reals('n', s if s else None)
    def random(self, size=None, **k): return self._reals('u', size, lo=0.0, hi=1.0)
    random_sample = ranf = sample = random
    def rand(self, *s): return self._reals('u', s if s else None, lo=0.0, hi=1.0)
    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._reals('u', size, lo=0.0, hi=1.0)
    def exponential(self, scale=1.0, size=None): return scale * self._reals('e', size, pos=True)
    def standard_exponential(self, size=None): return self._reals('e', size, pos=True)
    def multivariate_normal(self, mean, cov, size=None, **k):
        np = self._E.np
        d = len(mean); size = () if size is None else ((size,) if _isint(size) else tuple(size))
        z = self._reals('n', size + (d,))
        return mean + z @ np.sqrt(cov)          # diagonal covariances only
    def _int(self, kind, n):
        return self._E.choice(self._name(kind), n)
    def integers(self, low, high=None, size=None, **k):
        if high is None: low, high = 0, low
        return self._filled(lambda: low + self._int('i', high - low), size)
    randint = integers
    def _filled(self, f, size):
        import numpy
        if size is None: return f()
        shape = (size,) if _isint(size) else tuple(size)
        a = numpy.empty(shape, dtype=int)
        for ix in numpy.ndindex(*shape): a[ix] = f()
        return a
    def choice(self, a, size=None, replace=True, p=None, **k):
        import numpy
        pool = numpy.arange(a) if _isint(a) else numpy.asarray(a)
        n = len(pool)
        if replace:
            idx = self._filled(lambda: self._int('c', n), size)
        else:
            if size is None: idx = self._int('c', n)
            else:
                perm = self._perm(n); c = int(numpy.prod(size)); idx = numpy.array(perm[:c]).reshape(size)
        return pool[idx]
    def _perm(self, n):
        k = self._int('p', math.factorial(n))
        return list(next(itertools.islice(itertools.permutations(range(n)), k, None)))
    def permutation(self, x, axis=0):
        import numpy
        a = numpy.arange(x) if _isint(x) else self._E.np.asarray(x)
        return self._E.np.take(a, self._perm(a.shape[axis]), axis=axis)
    def permuted(self, x, axis=None, out=None):
        import numpy
        x0 = x; x = numpy.array(x)
        if axis is None:
            r = x.reshape(-1)[self._perm(x.size)].reshape(x.shape)
        else:
            t = numpy.moveaxis(x.copy(), axis, -1)
            for ix in numpy.ndindex(*t.shape[:-1]): t[ix] = t[ix][self._perm(t.shape[-1])]
            r = numpy.ascontiguousarray(numpy.moveaxis(t, -1, axis))
        if out is not None: out[...] = r; return out
        return r
    def shuffle(self, x, axis=0):
        c = x.copy() if hasattr(x, 'copy') else list(x)
        for i, j in enumerate(self._perm(len(x))): x[i] = c[j]
    def spawn(self, n): return [RNG(self._E, '%s.s%d' % (self._key, i)) for i in range(n)]
    def seed(self, s=None): 
        self._key = 'rng[%s]' % (s,) if s is not None else 'np.random'; self._k = 0
    def get_state(self, *a, **k): return (self._key, self._k)
    def set_state(self, st): self._key, self._k = st

class RowRNG(RNG):
    """permutations named by global run: a dynamic with several runs and one with some of these runs get the same batches"""
    def __init__(self, E, key, rows): super().__init__(E, key); self.rows = rows
    def permuted(self, x, axis=None, out=None):
        import numpy
        r = numpy.array(x); k = self._k; self._k += 1
        if axis not in (1, -1) or r.ndim != 2 or r.shape[0] != len(self.rows): raise ValueError('unexpected shuffle')
        for i, run in enumerate(self.rows):
            n = r.shape[1]
            q = self._E.choice('%s#%d.run%d.p' % (self._key, k, run), math.factorial(n))
            r[i] = r[i][list(next(itertools.islice(itertools.permutations(range(n)), q, None)))]
        if out is not None: out[...] = r; return out
        return r
class SymPermRNG(RNG):
    """shuffles by arbitrary permutations kept as integer unknowns (all permutations at once)"""
    def permuted(self, x, axis=None, out=None):
        import numpy
        E = self._E; x = numpy.asarray(x)
        if out is not None or axis not in (1, -1) or x.ndim != 2: raise ValueError('unexpected shuffle')
        k = self._k; self._k += 1
        rows = []
        for r in range(x.shape[0]):
            if list(x[r]) != list(range(x.shape[1])): raise ValueError('unexpected shuffle')
            rows.append(E.permutation('%s#%d.run%d' % (self._key, k, r), x.shape[1]))
        return E.np.stack(rows, axis=0)
    def permutation(self, x, axis=0):
        n = int(x) if _isint(x) else len(x)
        if not _isint(x) and list(x) != list(range(n)): raise ValueError('unexpected shuffle')
        k = self._k; self._k += 1
        return self._E.permutation('%s#%d.one' % (self._key, k), n)
class PermSeed:
    def __init__(self, key): self.key = key
    def make_rng(self, E): return SymPermRNG(E, self.key)
class RowSeed:
    def __init__(self, key, rows): self.key = key; self.rows = rows
    def make_rng(self, E): return RowRNG(E, self.key, self.rows)

def _isint(x):
    try:
        import operator; operator.index(x); return not hasattr(x, '__len__')
    except TypeError: return False

class BaseEnv:
    TOL = 1e-6
    def __init__(self):
        self.global_rng = RNG(self, 'np.random')
        self.rng_count = 0
        self.samplers = 0
    # ------------------------------------------------------------ random sources handed to the code
    def random_api(self):
        """attributes of numpy.random seen by the code under test"""
        E = self
        class BitGen:
            def __init__(self, seed=None): self.seed = seed
        def default_rng(seed=None):
            if isinstance(seed, RNG): return seed
            if isinstance(seed, BitGen): seed = seed.seed
            if hasattr(seed, 'make_rng'): return seed.make_rng(E)
            if seed is None:
                E.rng_count += 1
                return RNG(E, 'rng[None.%d]' % E.rng_count)
            return RNG(E, 'rng[%s]' % (seed,))
        G = self.global_rng
        api = dict(default_rng=default_rng, Generator=default_rng, RandomState=default_rng, MT19937=BitGen, PCG64=BitGen,
                   Philox=BitGen, SFC64=BitGen, PCG64DXSM=BitGen, SeedSequence=lambda s=None, **k: s)
        for nm in ('standard_normal normal randn random random_sample ranf sample rand uniform exponential standard_exponential '
                   'multivariate_normal randint choice permutation shuffle seed get_state set_state').split():
            api[nm] = getattr(G, nm)
        return api
    # ------------------------------------------------------------ convenience
    def fresh(self):
        """the package as a new process sees it: the next use imports it again"""
        import sys
        for k in [k for k in sys.modules if k == 'cbx' or k.startswith('cbx.')]: del sys.modules[k]
    def sampler(self, name):
        cnt = [0]
        def s(size=None, *a, **k):
            n = '%s#%d' % (name, cnt[0]); cnt[0] += 1
            s.calls.append(n)
            shape = () if size is None else ((size,) if _isint(size) else tuple(int(v) for v in size))
            r = self.array(n, shape)
            s.values.append(r.copy() if hasattr(r, 'copy') else r)
            return r if size is not None else r[()]
        s.calls = []; s.values = []
        return s
    def rowseed(self, key, rows): return RowSeed(key, list(rows))
    def permseed(self, key): return PermSeed(key)
    def real(self, name, **dom): return self.array(name, (), **dom)[()]
    def sum(self, xs):
        r = 0.0
        for x in xs: r = r + x
        return r
    def all(self, conds):
        r = True
        for c in conds: r = self.and_(r, c)
        return r
    def any(self, conds):
        r = False
        for c in conds: r = self.or_(r, c)
        return r
    def implies(self, a, b): return self.or_(self.not_(a), b)
    def iff(self, a, b): return self.and_(self.implies(a, b), self.implies(b, a))
    def norm2(self, v): return self.sqrt(self.sum([x * x for x in v]))
    def idx(self, shape):
        import numpy
        return list(numpy.ndindex(*shape))
    def quiet_post(self):
        return lambda dyn: None
    # CBX helpers ----------------------------------------------------------------------------------
    def wmean(self, weights, rows):
        """weighted mean of rows (each an array of one shape)"""
        tot = self.sum(weights)
        import numpy
        shp = rows[0].shape
        out = [self.sum([w * r[ix] for w, r in zip(weights, rows)]) / tot for ix in numpy.ndindex(*shp)]
        return out, list(numpy.ndindex(*shp))
