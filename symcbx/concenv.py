"""Concrete mode: real numpy, real cbx, values from an assignment (or generated)."""
import hashlib, io, math, sys, contextlib, importlib
import numpy as np
from .base import BaseEnv, Skip

def hrand(seed, name):
    h = hashlib.sha256(('%s|%s' % (seed, name)).encode()).digest()
    return int.from_bytes(h[:7], 'big') / float(1 << 56)

def default_value(seed, name, dom):
    """deterministic pseudo-random value of an input inside its domain"""
    u = hrand(seed, name); sort = dom.get('sort', 'R')
    if sort == 'I':
        lo, hi = dom['lo'], dom['hi']
        return lo + int(u * (hi - lo + 1))
    if sort == 'B': return u < 0.5
    lo, hi = dom.get('lo'), dom.get('hi')
    if lo is not None and hi is not None: return lo + (hi - lo) * (0.02 + 0.96 * u)
    if lo is not None: return lo + 0.1 + 2 * u
    if hi is not None: return hi - 0.1 - 2 * u
    if dom.get('pos'): return 0.1 + 1.9 * u
    v = -2 + 4 * u
    return v

class Table:
    """objective values at points; nearest entry, otherwise a fixed smooth function"""
    def __init__(self, name, entries, seed):
        self.name = name; self.seed = seed
        self.entries = [(np.asarray(p, dtype=float).reshape(-1), float(v)) for p, v in entries]
        self.h = 7 * hrand(seed, name) + 0.3
    def __call__(self, p):
        p = np.asarray(p, dtype=float).reshape(-1)
        for q, v in self.entries:
            if q.shape == p.shape and np.all(np.isfinite(q)) and np.all(np.abs(q - p) <= 1e-7 * (1 + np.abs(q))): return v
        if not np.all(np.isfinite(p)): return 1e3
        s = 0.37
        for i, c in enumerate(p): s += math.sin((i + 1.3) * self.h * c + 0.5 * i) + 0.2 * math.tanh(c) * (i + 1)
        return s

class ConcEnv(BaseEnv):
    mode = 'conc'
    np = np
    def __init__(self, asg=None, tables=None, seed=0, torch=False):
        super().__init__()
        self.asg = dict(asg or {}); self.used = {}; self.tables = tables or {}; self.seed = seed
        self.results = []     # (label, ok, lhs, rhs)
        self.calls = {}
        self.torch_needed = torch
        self.failed = []
    # inputs
    def _val(self, name, dom):
        v = self.asg.get(name)
        if v is None:
            v = default_value(self.seed, name, dom)
        self.used[name] = v
        return v
    def array(self, name, shape, **dom):
        out = np.empty(shape, dtype=float)
        for ix in np.ndindex(*out.shape):
            out[ix] = self._val(name + ('[%s]' % ','.join(map(str, ix)) if out.shape else ''), dom)
        return out
    def fparray(self, name, shape):
        return self.array(name, shape, sort='F')
    def int(self, name, lo, hi): return int(self._val(name, dict(sort='I', lo=lo, hi=hi)))
    def choice(self, name, n): return self.int(name, 0, n - 1)
    def permutation(self, name, n):
        keys = ['%s[%d]' % (name, i) for i in range(n)]
        if all(self.asg.get(k) is not None for k in keys): q = [int(self.asg[k]) for k in keys]
        else: q = sorted(range(n), key=lambda i: hrand(self.seed, keys[i]))
        if sorted(q) != list(range(n)): raise Skip()
        self.used.update(zip(keys, q))
        return np.array(q, dtype=int)
    def bool(self, name): return bool(self._val(name, dict(sort='B')))
    def inject(self, arr, name, **dom):
        arr[...] = self.array(name, arr.shape, **dom); return arr
    def objective(self, name, ddims=1, out=None):
        t = Table(name, self.tables.get(name, []), self.seed)
        log = self.calls.setdefault(name, [])
        def f(x):
            a = np.asarray(x, dtype=float)
            lead = a.shape[:a.ndim - ddims]
            r = np.empty(lead)
            for ix in np.ndindex(*lead):
                r[ix] = t(a[ix]); log.append((np.array(a[ix]), r[ix]))
            return r if lead else float(r)
        f.log = log
        return f
    # logic
    def exp(self, x): return np.exp(x)
    def log(self, x): return np.log(x)
    def sqrt(self, x): return np.sqrt(x)
    def fn(self, name, *a): return getattr(np, name)(*a)
    def abs(self, x): return abs(x)
    def max(self, *xs): return max(xs)
    def min(self, *xs): return min(xs)
    def ite(self, c, a, b): return a if c else b
    def and_(self, a, b): return bool(a) and bool(b)
    def or_(self, a, b): return bool(a) or bool(b)
    def not_(self, a): return not bool(a)
    def same(self, a, b):
        """equality of two numbers as a condition (up to rounding)"""
        a, b = float(a), float(b)
        if math.isinf(a) or math.isinf(b): return a == b
        return abs(a - b) <= 1e-7 + self.TOL * max(abs(a), abs(b))
    def below(self, a, b): return float(a) <= float(b) + 1e-9 + self.TOL * max(abs(float(a)), abs(float(b)))
    def strict(self, a, b): return float(a) < float(b) - 1e-9
    def shape(self, x): return np.shape(x)
    def finite(self, x): return bool(np.isfinite(x))
    def leq(self, a, b): return bool(float(a) <= float(b))
    def flt(self, a, b): return bool(float(a) < float(b))
    def feq(self, a, b): return bool(float(a) == float(b))
    def neg(self, a): return -a
    def isnan(self, a): return math.isnan(float(a))
    def upper(self, name, xs):
        u = self.asg.get(name); m = max(float(x) for x in xs)
        if u is None: u = m + 0.1 * hrand(self.seed, name)
        self.used[name] = u
        self.assume(self.below(m, u)); return u
    def lower(self, name, xs):
        u = self.asg.get(name); m = min(float(x) for x in xs)
        if u is None: u = m - 0.1 * hrand(self.seed, name)
        self.used[name] = u
        self.assume(self.below(u, m)); return u
    def psd(self): pass
    def assume(self, c):
        if not bool(c): raise Skip()
    def decided(self, c): return bool(c)
    # checks
    def _rec(self, label, ok, l=None, r=None):
        self.results.append((label, bool(ok), l, r))
        if not ok: self.failed.append((label, l, r))
    def check(self, label, c): self._rec(label, bool(np.all(c)), float(bool(np.all(c))), 1.0)
    def eq(self, label, a, b, tol=None):
        a = tonp(a); b = tonp(b)
        if a.shape != b.shape:
            self._rec(label + ':shape', False, list(a.shape), list(b.shape)); return
        for ix in np.ndindex(*a.shape):
            u, v = float(a[ix]), float(b[ix])
            if math.isnan(u) and math.isnan(v) or u == v: ok = True
            elif not (math.isfinite(u) and math.isfinite(v)): ok = False
            else: ok = abs(u - v) <= 1e-7 + (tol or self.TOL) * max(abs(u), abs(v))
            self._rec(label + fmt(ix), ok, u, v)
    def le(self, label, a, b, tol=None):
        a, b = np.broadcast_arrays(tonp(a), tonp(b))
        for ix in np.ndindex(*a.shape):
            u, v = float(a[ix]), float(b[ix])
            self._rec(label + fmt(ix), u <= v + 1e-7 + (tol or self.TOL) * max(abs(u), abs(v)) if not (math.isnan(u) or math.isnan(v)) else False, u, v)
    def observe(self, label, a):
        a = np.asarray(tonp(a), dtype=float)
        for ix in np.ndindex(*a.shape): self.results.append(('obs:' + label + fmt(ix), True, float(a[ix]), None))
    # code under test
    def mod(self, name):
        with self._guard(): return importlib.import_module(name)
    @contextlib.contextmanager
    def _guard(self):
        yield
    @property
    def cbx(self): return self.mod('cbx')

def tonp(x):
    if hasattr(x, 'detach'): x = x.detach().cpu().numpy()
    return np.asarray(x)
def fmt(ix): return '[%s]' % ','.join(map(str, ix)) if ix else ''

class NoTorch:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name == 'torch' or name.startswith('torch.'): raise ImportError('torch is not used in this scenario')
        return None

def run(harness, params, asg, tables, seed, torch=False):
    """run one scenario on the real code; returns a JSON-able dict"""
    E = ConcEnv(asg, tables, seed, torch)
    for k in [k for k in sys.modules if k == 'cbx' or k.startswith('cbx.')]: del sys.modules[k]
    saved = {}
    api = E.random_api()
    for k, v in api.items():
        saved[k] = getattr(np.random, k, None); setattr(np.random, k, v)
    st0 = {k: sys.modules.get(k) for k in ('torch', 'matplotlib')}
    if not torch: sys.modules.pop('torch', None); sys.meta_path.insert(0, NoTorch)
    buf = io.StringIO(); err = None; skipped = False
    import warnings
    try:
        with contextlib.redirect_stdout(buf), warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            harness(E, **params)
    except Skip: skipped = True
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/cbx/' in f.filename]
        err = {'type': type(e).__name__, 'msg': str(e)[:300], 'in_code': bool(where),
               'at': ['%s:%d %s' % (f.filename, f.lineno, f.name) for f in tb[-4:]]}
    finally:
        for k, v in saved.items():
            if v is None: delattr(np.random, k)
            else: setattr(np.random, k, v)
        if not torch:
            sys.meta_path.remove(NoTorch)
            if st0['torch'] is not None: sys.modules['torch'] = st0['torch']
    return {'skipped': skipped, 'error': err, 'failed': E.failed[:20], 'results': E.results, 'used': E.used,
            'calls': {k: [(p.reshape(-1).tolist(), float(v)) for p, v in log] for k, log in E.calls.items()}}
