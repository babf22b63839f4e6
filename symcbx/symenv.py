"""Symbolic mode of the scenario environment."""
import contextlib, importlib, io, math, os, sys, types, warnings
from fractions import Fraction
import numpy as np
import scipy, scipy.special, scipy.stats, scipy.linalg
from . import nodes as N, symval as S, npfuncs as P
from .canon import Canon, NeedSplit
from .nodes import Unsupported
from .base import BaseEnv

REPO = os.environ.get('CBX_REPO', '/repo')
_code = {}
class Loader:
    """loads /repo/cbx modules from source (cached code objects, nothing written to /repo)"""
    def __init__(self, path, pkg): self.path = path; self.pkg = pkg
    def create_module(self, spec): return None
    def exec_module(self, m):
        c = _code.get(self.path)
        if c is None:
            with open(self.path) as f: c = compile(f.read(), self.path, 'exec')
            _code[self.path] = c
        exec(c, m.__dict__)
class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != 'cbx' and not name.startswith('cbx.'): return None
        import importlib.util
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            f = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(name, f, loader=Loader(f, True), submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(name, base + '.py', loader=Loader(base + '.py', False))
        return None

SCIPY = P.scipy_proxies()

def stub_module(name):
    m = types.ModuleType(name)
    m.__getattr__ = lambda k: (_ for _ in ()).throw(AttributeError(k)) if k.startswith('__') else (lambda *a, **kw: None)
    return m

class SymEnv(BaseEnv):
    mode = 'sym'
    np = P.PROXY
    def __init__(self, ctx, torch=False):
        super().__init__()
        self.ctx = ctx; self.checks = []; self.calls = {}; self.inputs = {}
        self.torch_needed = torch; self.tables = {}; self._key = {}
        self.observed = []
    # ------------------------------------------------------------ running the code
    @contextlib.contextmanager
    def session(self):
        api = self.random_api()
        rnd = P.RANDOM
        old = {k: rnd.__dict__.get(k) for k in api}
        rnd.__dict__.update(api)
        names = {'numpy': P.PROXY, 'numpy.random': P.RANDOM, 'numpy.linalg': P.LINALG, 'math': P.MATH, **SCIPY,
                 'matplotlib': stub_module('matplotlib'), 'matplotlib.pyplot': stub_module('matplotlib.pyplot')}
        if self.torch_needed:
            from . import faketorch
            names.update(faketorch.modules())
        saved = {k: sys.modules.get(k, _MISSING) for k in names}
        for k in [k for k in sys.modules if k == 'cbx' or k.startswith('cbx.')]: del sys.modules[k]
        dwb = sys.dont_write_bytecode; sys.dont_write_bytecode = True
        sys.meta_path.insert(0, Finder)
        sys.modules.update(names)
        S.set_ctx(self.ctx)
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                yield
        finally:
            S.set_ctx(None)
            sys.meta_path.remove(Finder)
            for k, v in saved.items():
                if v is _MISSING: sys.modules.pop(k, None)
                else: sys.modules[k] = v
            for k, v in old.items():
                if v is None: rnd.__dict__.pop(k, None)
                else: rnd.__dict__[k] = v
            sys.dont_write_bytecode = dwb
    def mod(self, name): return importlib.import_module(name)
    @property
    def cbx(self): return self.mod('cbx')
    # ------------------------------------------------------------ inputs
    def _var(self, nm, dom):
        sort = dom.get('sort', 'R')
        new = nm not in self.inputs
        self.inputs[nm] = dom
        v = N.var(nm, sort)
        if new:
            z = N.const(Fraction(0)) if sort == 'R' else N.iconst(0)
            if dom.get('pos'):
                self.ctx.posvars.add(nm); self.ctx.add(N.lt(z, v))
            mk = (lambda q: N.const(q)) if sort == 'R' else N.iconst
            if sort in 'RI':
                if dom.get('lo') is not None: self.ctx.add(N.le(mk(dom['lo']), v))
                if dom.get('hi') is not None: self.ctx.add(N.le(v, mk(dom['hi'])))
        return v
    def array(self, name, shape, **dom):
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*out.shape):
            out[ix] = S.Sym(self._var(name + ('[%s]' % ','.join(map(str, ix)) if out.shape else ''), dom))
        return out.view(S.SymArray)
    def fparray(self, name, shape): return self.array(name, shape, sort='F')
    def int(self, name, lo, hi): return S.Sym(self._var(name, dict(sort='I', lo=lo, hi=hi)))
    def choice(self, name, n):
        v = self._var(name, dict(sort='I', lo=0, hi=n - 1))
        for k in range(n - 1):
            if self.ctx.decide(N.eq(v, N.iconst(k))): return k
        return n - 1
    def permutation(self, name, n):
        """an arbitrary permutation of range(n) as integer unknowns"""
        new = name + '[0]' not in self.inputs
        a = self.array(name, (n,), sort='I', lo=0, hi=n - 1)
        if new:
            b = [v.n for v in a.view(np.ndarray)]
            for i in range(n):
                for j in range(i): self.ctx.add(N.not_(N.eq(b[i], b[j])))
        return a
    def bool(self, name): return bool(S.Sym(self._var(name, dict(sort='B'))))
    def inject(self, arr, name, **dom):
        arr[...] = self.array(name, arr.shape, **dom); return arr
    def objective(self, name, ddims=1, out=None):
        log = self.calls.setdefault(name, [])
        tab = self.tables.setdefault(name, [])
        canon = Canon(); canon.opaque_ite = True; canon.posvars = self.ctx.posvars
        keys = {}
        def one(point):
            pn = [N.toR(S.node(v)) for v in point.reshape(-1)]
            try: k = tuple(canon.rkey(canon.rf(p)) for p in pn)
            except (Unsupported, NeedSplit): k = tuple(p.id for p in pn)
            v = keys.get(k)
            if v is None:
                nm = '%s@%d' % (name, len(tab))
                v = N.var(nm); keys[k] = v; tab.append((pn, v))
                self.inputs.setdefault(nm, {})
            return S.Sym(v)
        def f(x):
            a = S.asym(x).view(np.ndarray)
            lead = a.shape[:a.ndim - ddims]
            r = np.empty(lead, dtype=object)
            for ix in np.ndindex(*lead):
                r[ix] = one(np.asarray(a[ix]) if ddims else np.array(a[ix], dtype=object))
                log.append((np.array(a[ix], dtype=object).view(S.SymArray), r[ix]))
            return r.view(S.SymArray) if lead else r[()]
        f.log = log
        return f
    # ------------------------------------------------------------ logic
    def exp(self, x): return S.Sym(S.e_exp(S.node(x)))
    def log(self, x): return S.Sym(S.e_log(S.node(x)))
    def sqrt(self, x): return S.Sym(S.e_sqrt(S.node(x)))
    def fn(self, name, *a): return getattr(P.PROXY, name)(*a)
    def abs(self, x): return S.Sym(S.e_abs(S.node(x)))
    def max(self, *xs):
        r = S.node(xs[0])
        for x in xs[1:]: r = S.e_max(r, S.node(x))
        return S.Sym(r)
    def min(self, *xs):
        r = S.node(xs[0])
        for x in xs[1:]: r = S.e_min(r, S.node(x))
        return S.Sym(r)
    def ite(self, c, a, b): return S.Sym(N.ite(N.toB(S.node(c)), S.node(a), S.node(b)))
    def and_(self, a, b): return S.bres(N.and_(N.toB(S.node(a)), N.toB(S.node(b))))
    def or_(self, a, b): return S.bres(N.or_(N.toB(S.node(a)), N.toB(S.node(b))))
    def not_(self, a): return S.bres(N.not_(N.toB(S.node(a))))
    def same(self, a, b):
        a, b = S.node(a), S.node(b)
        if N.special(a) or N.special(b): return N.special(a) and N.special(b) and a is b
        return S.bres(N.eq(a, b))
    def below(self, a, b): return S.bres(N.le(S.node(a), S.node(b)))
    def strict(self, a, b): return S.bres(N.lt(S.node(a), S.node(b)))
    def shape(self, x):
        return np.shape(x.a) if type(x).__name__ == 'TT' else np.shape(x)
    def finite(self, x): return S.bres(S.e_isfinite(S.node(x)))
    # IEEE comparisons (False with NaN)
    def leq(self, a, b): return S.bres(N.le(S.node(a), S.node(b)))
    def flt(self, a, b): return S.bres(N.lt(S.node(a), S.node(b)))
    def feq(self, a, b): return S.bres(N.eq(S.node(a), S.node(b)))
    def neg(self, a): return -a
    def isnan(self, a): return S.bres(S.e_isnan(S.node(a)))
    def upper(self, name, xs):
        """an arbitrary number that is an upper bound of xs"""
        u = self.real(name)
        for x in xs: self.ctx.assume(N.le(S.node(x), S.node(u)))
        return u
    def lower(self, name, xs):
        u = self.real(name)
        for x in xs: self.ctx.assume(N.le(S.node(u), S.node(x)))
        return u
    def psd(self):
        """the symmetric matrices decomposed in this scenario are positive definite Gram matrices"""
        self.ctx.psd = True
    def assume(self, c): self.ctx.assume(N.toB(S.node(c)))
    def decided(self, c): return self.ctx.decide(N.toB(S.node(c)))
    # ------------------------------------------------------------ checks
    def _chk(self, label, goal, kind, a=None, b=None):
        self.checks.append((label, goal, kind, a, b, len(self.ctx.pc)))
    def check(self, label, c):
        if isinstance(c, np.ndarray): c = c.all()
        self._chk(label, N.toB(S.node(c)), 'bool')
    def eq(self, label, a, b, tol=None):
        a, b = S.asym(unt(a)).view(np.ndarray), S.asym(unt(b)).view(np.ndarray)
        if a.shape != b.shape:
            self._chk(label + ':shape', N.FALSE, 'bool'); return
        for ix in np.ndindex(*a.shape):
            u, v = a[ix].n, b[ix].n
            if N.special(u) or N.special(v): g = N.TRUE if u is v else N.FALSE
            else:
                if u.sort == 'B' and v.sort != 'B': u = N.toR(u)
                if v.sort == 'B' and u.sort != 'B': v = N.toR(v)
                g = N.eq(u, v)
            self._chk(label + fmt(ix), g, 'eq', u, v)
    def le(self, label, a, b, tol=None):
        a, b = np.broadcast_arrays(S.asym(unt(a)).view(np.ndarray), S.asym(unt(b)).view(np.ndarray))
        for ix in np.ndindex(*a.shape):
            u, v = a[ix].n, b[ix].n
            self._chk(label + fmt(ix), N.le(u, v), 'le', u, v)
    def observe(self, label, a):
        a = S.asym(unt(a)).view(np.ndarray)
        for ix in np.ndindex(*a.shape): self.checks.append(('obs:' + label + fmt(ix), N.TRUE, 'obs', a[ix].n, None, len(self.ctx.pc)))

_MISSING = object()
def unt(x): return x.a if type(x).__name__ == 'TT' else x
def fmt(ix): return '[%s]' % ','.join(map(str, ix)) if ix else ''
