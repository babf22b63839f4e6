"""Symbolic scalars and arrays, path explorer."""
import builtins, math, operator
from fractions import Fraction
import numpy as np
from . import nodes as N
from .nodes import Node, Unsupported, SignNeeded

# =============================================================================== context
class PathEnd(BaseException):
    """the path is infeasible or was cut by an assumption"""
class Ctx:
    """state of one symbolic execution (one path)"""
    def __init__(self, prefix=(), prover_timeout=1.0, max_decisions=400):
        self.prefix = list(prefix); self.decisions = []; self.alts = []
        self.pc = []; self.known = {}
        self.obligs = []; self.counter = {}
        self.posvars = set(); self.max_decisions = max_decisions
        self.solver = None; self.inputs = {}
        self.defs = {}          # var name -> callable(assignment evaluator) for stub results
        self.notes = []
        self.eager = False      # every condition of a selected value is decided by forking the path
        self.welldef = False    # divisors and radicands outside the domain are excluded instead of explored
    def fresh(self, base):
        k = self.counter.get(base, 0); self.counter[base] = k + 1
        return '%s#%d' % (base, k)
    # ---- path condition
    def add(self, c, val=True):
        self.known[c.id] = val
        if c.op == 'not': self.known[c.args[0].id] = not val
        if c.op == 'and' and val:
            for a in c.args: self.known[a.id] = True
        self.pc.append(c if val else N.not_(c))
        self._push(self.pc[-1])
    def _push(self, c):
        if self.solver is None: self._mk()
        else: self._assert(c)
    def _mk(self):
        import z3
        from .prover import Raw
        self.raw = Raw(); self.nax = 0
        self.solver = z3.Solver(); self.solver.set('timeout', 1000)
        for c in self.pc: self._assert(c)
    def _assert(self, c):
        try: z = self.raw(c)
        except Unsupported: return
        self.solver.add(z)
        for a in self.raw.ax[self.nax:]: self.solver.add(a)
        self.nax = len(self.raw.ax)
    def feasible(self, c):
        import z3, time
        from .prover import STATS
        if self.solver is None: self._mk()
        try: z = self.raw(c)
        except Unsupported: return True
        for a in self.raw.ax[self.nax:]: self.solver.add(a)
        self.nax = len(self.raw.ax)
        t0 = time.time(); STATS.feas += 1
        self.solver.push(); self.solver.add(z)
        r = self.solver.check(); self.solver.pop()
        STATS.time += time.time() - t0
        return r != z3.unsat
    def decide(self, c):
        if N.isc(c): return c.args[0]
        v = self.known.get(c.id)
        if v is not None: return v
        if c.op == 'not': return not self.decide(c.args[0])
        i = len(self.decisions)
        if i >= self.max_decisions: raise Unsupported('more than %d branch decisions on one path' % self.max_decisions)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            t = self.feasible(c); f = self.feasible(N.not_(c))
            if t and f:
                v = True; self.alts.append(tuple(self.decisions) + (False,))
            elif t: v = True
            elif f: v = False
            else: raise PathEnd('infeasible')
        self.decisions.append(v)
        self.add(c, v)
        return v
    def assume(self, c):
        if N.isc(c):
            if not c.args[0]: raise PathEnd('assumption false')
            return
        if self.known.get(c.id) is True: return
        self.add(c, True)
        if not self.feasible(N.TRUE): raise PathEnd('assumption infeasible')
    def guard(self, kind, c, term=None):
        """side condition of a partial operation (divisor non-zero, ...): proved here, or the path forks.
        Returns True when c holds on this path."""
        if N.isc(c): return c.args[0]
        v = self.known.get(c.id)
        if v is not None: return v
        self.guards = getattr(self, 'guards', 0) + 1
        if term is not None and N.sgn(term, frozenset(self.posvars)) >= (1 if kind == 'sqrt_neg' else 2):
            self.known[c.id] = True
            return True
        if self.welldef:
            self.known[c.id] = True; self.pc.append(c); return True
        key = (c.id, tuple(p.id for p in self.pc))
        st = GUARD_CACHE.get(key)
        if st is None:
            from .prover import Prover
            import time
            from . import canon
            canon.LIMIT[0] = time.time() + 5
            try: st = Prover(self.pc, self.posvars, timeout=2.0).prove(c).status == 'proved'
            except Unsupported: st = False
            finally: canon.LIMIT[0] = None
            GUARD_CACHE[key] = st
        if st:
            self.known[c.id] = True
            return True
        self.forked_guards = getattr(self, 'forked_guards', 0) + 1
        return self.decide(c)

def ite_hook(c, busy=[False]):
    x = CTX
    if x is None or busy[0]: return None
    neg = c.op == 'not'
    k = c.args[0] if neg else c
    v = x.known.get(k.id)
    if v is None:
        if not x.eager: return None
        busy[0] = True
        try: v = x.decide(k)
        finally: busy[0] = False
    return (not v) if neg else v
N.ITE_HOOK[0] = ite_hook

GUARD_CACHE = {}
CTX = None
def ctx():
    if CTX is None: raise Unsupported('no symbolic context')
    return CTX
def set_ctx(c):
    global CTX
    CTX = c

# =============================================================================== scalars
def node(x):
    t = type(x)
    if t is Sym: return x.n
    if t is bool or t is np.bool_: return N.TRUE if x else N.FALSE
    if t is int: return N.const(Fraction(x))
    if t is float: return N.const(x)
    if t is Fraction: return N.const(x)
    if t is Node: return x
    if isinstance(x, np.integer): return N.const(Fraction(int(x)))
    if isinstance(x, np.floating): return N.const(float(x))
    if isinstance(x, np.ndarray) and x.size == 1: return node(x.reshape(-1)[0] if x.dtype != object else x.reshape(-1).view(np.ndarray)[0])
    if t.__name__ == 'TT': return node(x.a)
    raise Unsupported('cannot lift %r' % (t,))
def liftable(x):
    return type(x) in (Sym, bool, int, float, Fraction, np.bool_) or isinstance(x, (np.integer, np.floating))

def wrap(n):
    return Sym(n)

def bres(n):
    """boolean result: concrete Python/numpy bool when decided"""
    if N.isc(n): return np.bool_(n.args[0])
    return Sym(n)

def signed(f, a, b):
    """evaluate f(a,b) on nodes; infinities times symbols fork on the sign of the symbol"""
    try: return f(a, b)
    except SignNeeded as e:
        s = e.node
        c = ctx()
        z = N.const(Fraction(0))
        if c.decide(N.lt(z, s)): v = N.const(Fraction(1))
        elif c.decide(N.lt(s, z)): v = N.const(Fraction(-1))
        else: v = z
        a2 = v if a is s or (N.toR(a) is s) else a
        b2 = v if b is s or (N.toR(b) is s) else b
        return f(a2, b2)

def fork(a):
    """a value that is infinite on one side of a condition: follow both sides separately"""
    while a.op == 'ite' and a.sort == 'R' and (N.special(a.args[1]) or N.special(a.args[2])):
        a = a.args[1] if ctx().decide(a.args[0]) else a.args[2]
    return a
# elementwise operations on nodes -----------------------------------------------------
def e_add(a, b):
    if a.sort == 'B' and b.sort == 'B': return N.or_(a, b)
    return signed(N.add, fork(a), fork(b))
def e_sub(a, b): return signed(N.sub, fork(a), fork(b))
def e_mul(a, b):
    if a.sort == 'B' and b.sort == 'B': return N.and_(a, b)
    return signed(N.mul, fork(a), fork(b))
def e_div(a, b):
    a, b = fork(a), fork(b)
    if 'F' not in (a.sort, b.sort):
        b2 = N.toR(b)
        if not N.isc(b2):
            if not ctx().guard('div0', N.not_(N.eq(b2, N.const(Fraction(0)))), b2):
                return signed(N.div, a, N.const(Fraction(0)))
    return signed(N.div, a, b)
def e_neg(a): return N.neg(fork(a))
def e_pos(a): return a
def zero(a): return N.fconst(0.0) if a.sort == 'F' else (N.iconst(0) if a.sort == 'I' else N.const(Fraction(0)))
def e_abs(a):
    if a.sort == 'F':
        return N.fconst(abs(N.fval(a))) if a.op == 'fconst' else N.mk('fp.abs', (a,), 'F')
    if a.sort == 'B': return a
    if N.isc(a):
        v = N.cval(a); return N.const(abs(v)) if a.sort == 'R' else N.iconst(abs(v))
    return N.ite(N.lt(a, zero(a)), N.neg(a), a)
def e_sign(a):
    if N.isc(a) and a.sort == 'R':
        v = N.cval(a)
        if isinstance(v, float) and math.isnan(v): return a
        return N.const(Fraction((v > 0) - (v < 0)))
    return N.ite(N.lt(zero(a), a), N.const(Fraction(1)), N.ite(N.lt(a, zero(a)), N.const(Fraction(-1)), N.const(Fraction(0))))
def e_sqrt(a):
    a = N.toR(a)
    if not N.isc(a):
        if not ctx().guard('sqrt_neg', N.le(N.const(Fraction(0)), a), a): return N.const(float('nan'))
    elif N.cval(a) < 0: return N.const(float('nan'))
    return N.fn('sqrt', a)
def e_log(a):
    a = N.toR(a)
    if N.isc(a) and N.cval(a) == 0: return N.const(-math.inf)
    if not N.isc(a):
        if not ctx().guard('log_nonpos', N.lt(N.const(Fraction(0)), a), a):
            return N.const(-math.inf) if ctx().decide(N.eq(a, N.const(Fraction(0)))) else N.const(float('nan'))
    elif N.cval(a) < 0: return N.const(float('nan'))
    if LOG_HOOK is not None:
        r = LOG_HOOK(a)
        if r is not None: return r
    return N.fn('log', a)
EXP_HOOK = None
LOG_HOOK = None
def e_exp(a):
    a = fork(N.toR(a))
    if EXP_HOOK is not None:
        r = EXP_HOOK(a)
        if r is not None: return r
    return N.fn('exp', a)
def e_fn(name):
    def f(a): return N.fn(name, a)
    return f
def e_pow(a, b):
    if b.sort == 'I': b = N.toR(b)
    if b.sort == 'F' or a.sort == 'F': raise Unsupported('fp pow')
    a = N.toR(a)
    if N.isc(b):
        v = N.cval(b)
        if isinstance(v, float):
            if v == math.inf:
                one = N.const(Fraction(1)); c = ctx()
                m = e_abs(a)
                if c.decide(N.lt(m, one)): return N.const(Fraction(0))
                if c.decide(N.eq(m, one)): return one
                return N.const(math.inf)
            if v == -math.inf:
                one = N.const(Fraction(1)); c = ctx()
                m = e_abs(a)
                if c.decide(N.lt(m, one)): return N.const(math.inf)
                if c.decide(N.eq(m, one)): return one
                return N.const(Fraction(0))
            return b
        if N.special(a):
            r = float(np.power(np.float64(N.cval(a)), np.float64(float(v))))
            return N.const(r)
        if v.denominator == 1:
            k = int(v)
            if k < 0: return e_div(N.const(Fraction(1)), N.powi(a, -k))
            if k > 64: raise Unsupported('power too large')
            return N.powi(a, k)
        if v == Fraction(1, 2): return e_sqrt(a)
        if v == Fraction(-1, 2): return e_div(N.const(Fraction(1)), e_sqrt(a))
        if v.denominator == 2:
            return e_mul(e_sqrt(a), e_pow(a, N.const(v - Fraction(1, 2))))
        if N.isc(a) and N.cval(a) >= 0: return N.const(Fraction(float(N.cval(a)) ** float(v)))
    return N.fn('pow', a, b)
def e_max(a, b):
    if a.sort == 'F' or b.sort == 'F':
        a, b = N.unify(a, b)
        return N.ite(N.isnan(a), a, N.ite(N.isnan(b), b, N.ite(N.lt(a, b), b, a)))
    for u in (a, b):
        if N.special(u) and u.args[0] == 'nan': return u
    return N.ite(N.lt(a, b), b, a)
def e_min(a, b):
    if a.sort == 'F' or b.sort == 'F':
        a, b = N.unify(a, b)
        return N.ite(N.isnan(a), a, N.ite(N.isnan(b), b, N.ite(N.lt(b, a), b, a)))
    for u in (a, b):
        if N.special(u) and u.args[0] == 'nan': return u
    return N.ite(N.lt(b, a), b, a)
def e_fmax(a, b):
    if a.sort == 'F' or b.sort == 'F':
        a, b = N.unify(a, b); return N.ite(N.isnan(a), b, N.ite(N.isnan(b), a, N.ite(N.lt(a, b), b, a)))
    return e_max(a, b)
def e_fmin(a, b):
    if a.sort == 'F' or b.sort == 'F':
        a, b = N.unify(a, b); return N.ite(N.isnan(a), b, N.ite(N.isnan(b), a, N.ite(N.lt(b, a), b, a)))
    return e_min(a, b)
def e_isnan(a): return N.isnan(a) if a.sort in 'RF' else N.FALSE
def e_isinf(a): return N.isinf(a) if a.sort in 'RF' else N.FALSE
def e_isfinite(a): return N.and_(N.not_(e_isnan(a)), N.not_(e_isinf(a)))
def e_mod(a, b):
    if a.sort in 'IB' or b.sort == 'I':
        try: return N.imod(N.toI(a), N.toI(b))
        except Unsupported: pass
    if N.isc(a) and N.isc(b) and a.sort == 'R': return N.const(N.cval(a) % N.cval(b))
    if N.isc(b) and b.sort == 'R' and not N.special(b):
        r = map_leaves(a, lambda v: N.const(v % N.cval(b)))
        if r is not None: return r
    raise Unsupported('real modulo')
def map_leaves(n, f, fuel=None, k=lambda v: v):
    """f applied to a choice among finitely many constants"""
    fuel = fuel or [64]; fuel[0] -= 1
    if fuel[0] < 0: return None
    if n.op == 'const' and not N.special(n): return f(k(n.args[0]))
    if n.op == 'ite':
        x = map_leaves(n.args[1], f, fuel, k)
        y = None if x is None else map_leaves(n.args[2], f, fuel, k)
        return None if y is None else N.ite(n.args[0], x, y)
    if n.op in ('add', 'mul'):
        g = (lambda u, v: u + v) if n.op == 'add' else (lambda u, v: u * v)
        for c, t in (n.args, n.args[::-1]):
            if c.op == 'const' and not N.special(c): return map_leaves(t, f, fuel, lambda v: k(g(c.args[0], v)))
    return None
def e_fdiv(a, b):
    if a.sort in 'IB' or b.sort == 'I': return N.idiv(N.toI(a), N.toI(b))
    if N.isc(a) and N.isc(b) and a.sort == 'R': return N.const(Fraction(N.cval(a) // N.cval(b)))
    if N.isc(b) and b.sort == 'R' and not N.special(b) and N.cval(b) != 0:
        r = map_leaves(a, lambda v: N.const(Fraction(v // N.cval(b))))
        if r is not None: return r
    raise Unsupported('real floor division')
def e_round(f):
    def g(a):
        if N.isc(a) and a.sort == 'R' and not N.special(a): return N.const(Fraction(f(N.cval(a))))
        raise Unsupported('rounding of a symbolic value')
    return g
def e_arctan2(a, b): return N.fn('arctan2', a, b)
def e_hypot(a, b): return e_sqrt(N.add(N.mul(a, a), N.mul(b, b)))
def e_clip(a, lo, hi):  return e_min(e_max(a, lo), hi)

ELEM = {
 np.add: e_add, np.subtract: e_sub, np.multiply: e_mul, np.true_divide: e_div, np.negative: e_neg,
 np.positive: e_pos, np.absolute: e_abs, np.fabs: e_abs, np.sign: e_sign, np.sqrt: e_sqrt, np.square: lambda a: e_mul(a, a),
 np.exp: e_exp, np.log: e_log, np.power: e_pow, np.float_power: e_pow,
 np.expm1: lambda a: N.sub(e_exp(a), N.const(Fraction(1))), np.log1p: lambda a: e_log(N.add(a, N.const(Fraction(1)))),
 np.log2: lambda a: e_div(e_log(a), N.fn('log', N.const(Fraction(2)))), np.log10: lambda a: e_div(e_log(a), N.fn('log', N.const(Fraction(10)))),
 np.exp2: lambda a: e_exp(N.mul(a, N.fn('log', N.const(Fraction(2))))),
 np.sin: e_fn('sin'), np.cos: e_fn('cos'), np.tan: e_fn('tan'), np.arctan: e_fn('arctan'), np.arcsin: e_fn('arcsin'),
 np.arccos: e_fn('arccos'), np.tanh: e_fn('tanh'), np.sinh: e_fn('sinh'), np.cosh: e_fn('cosh'), np.arctan2: e_arctan2,
 np.hypot: e_hypot, np.maximum: e_max, np.minimum: e_min, np.fmax: e_fmax, np.fmin: e_fmin,
 np.less: N.lt, np.less_equal: N.le, np.greater: lambda a, b: N.lt(b, a), np.greater_equal: lambda a, b: N.le(b, a),
 np.equal: N.eq, np.not_equal: lambda a, b: N.not_(N.eq(a, b)),
 np.logical_and: lambda a, b: N.and_(N.toB(a), N.toB(b)), np.logical_or: lambda a, b: N.or_(N.toB(a), N.toB(b)),
 np.logical_not: lambda a: N.not_(N.toB(a)), np.logical_xor: lambda a, b: N.xor(a, b),
 np.bitwise_and: lambda a, b: N.and_(N.toB(a), N.toB(b)), np.bitwise_or: lambda a, b: N.or_(N.toB(a), N.toB(b)),
 np.bitwise_xor: lambda a, b: N.xor(a, b), np.invert: lambda a: N.not_(N.toB(a)),
 np.isnan: e_isnan, np.isinf: e_isinf, np.isfinite: e_isfinite, np.remainder: e_mod, np.floor_divide: e_fdiv,
 np.floor: e_round(math.floor), np.ceil: e_round(math.ceil), np.rint: e_round(round), np.reciprocal: lambda a: e_div(N.const(Fraction(1)), a),
 np.conjugate: e_pos,
 np.heaviside: lambda a, b: N.ite(N.lt(a, zero(a)), N.const(Fraction(0)), N.ite(N.lt(zero(a), a), N.const(Fraction(1)), N.toR(b))),
 np.logaddexp: lambda a, b: e_log(N.add(N.fn('exp', N.toR(a)), N.fn('exp', N.toR(b)))),
 np.signbit: lambda a: N.lt(a, zero(a)) if a.sort != 'F' else N.mk('fp.isneg', (a,), 'B'),
}
try: ELEM[np._core.umath.clip] = e_clip
except Exception: pass
IDENT = {np.add: Fraction(0), np.multiply: Fraction(1), np.logical_and: True, np.logical_or: False,
         np.bitwise_and: True, np.bitwise_or: False}

class _SymMeta(type): pass

def sres(n):
    if n.sort == 'B': return bres(n)
    return Sym(n)

class Sym:
    __slots__ = ('n',)
    __array_priority__ = 2000
    def __init__(self, n): self.n = n
    @property
    def __class__(self):
        s = self.n.sort
        return float if s in 'RF' else (int if s == 'I' else bool)
    # ---- concretisation
    def __bool__(self): return ctx().decide(N.toB(self.n))
    def __index__(self):
        n = self.n
        if n.sort == 'I':
            return concretize_int(n)
        if n.sort == 'B': return int(bool(self))
        if N.isc(n) and not N.special(n) and N.cval(n).denominator == 1: return int(N.cval(n))
        raise TypeError('symbolic real used as an index')
    def __int__(self):
        if self.n.sort == 'R' and N.isc(self.n): return int(N.cval(self.n))
        return self.__index__()
    def __float__(self):
        if N.isc(self.n): return float(N.cval(self.n))
        if self.n.op == 'fconst': return N.fval(self.n)
        raise Unsupported('float() of a symbolic value')
    def __hash__(self): return hash(self.n.id)
    def __repr__(self): return 'Sym(%s)' % N.show(self.n, 3)
    def __format__(self, spec): return 'sym'
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __reduce__(self): raise Unsupported('pickling a symbolic value')
    # ---- arithmetic
    def _bin(f, swap=False):
        def op(self, o):
            if isinstance(o, np.ndarray) and type(o) is not Sym: return NotImplemented
            if type(o).__name__ == 'TT': return NotImplemented
            try: m = node(o)
            except Unsupported: return NotImplemented
            return sres(f(m, self.n) if swap else f(self.n, m))
        return op
    __add__ = _bin(e_add); __radd__ = _bin(e_add, True)
    __sub__ = _bin(e_sub); __rsub__ = _bin(e_sub, True)
    __mul__ = _bin(e_mul); __rmul__ = _bin(e_mul, True)
    __truediv__ = _bin(e_div); __rtruediv__ = _bin(e_div, True)
    __floordiv__ = _bin(e_fdiv); __rfloordiv__ = _bin(e_fdiv, True)
    __mod__ = _bin(e_mod); __rmod__ = _bin(e_mod, True)
    __pow__ = _bin(e_pow); __rpow__ = _bin(e_pow, True)
    __lt__ = _bin(N.lt); __le__ = _bin(N.le)
    __gt__ = _bin(lambda a, b: N.lt(b, a)); __ge__ = _bin(lambda a, b: N.le(b, a))
    __and__ = _bin(lambda a, b: N.and_(N.toB(a), N.toB(b))); __rand__ = __and__
    __or__ = _bin(lambda a, b: N.or_(N.toB(a), N.toB(b))); __ror__ = __or__
    __xor__ = _bin(N.xor); __rxor__ = __xor__
    def __eq__(self, o):
        if isinstance(o, np.ndarray): return NotImplemented
        try: m = node(o)
        except Unsupported: return False
        return bres(N.eq(self.n, m))
    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented: return r
        return bres(N.not_(node(r)))
    def __neg__(self): return Sym(e_neg(self.n))
    def __pos__(self): return self
    def __abs__(self): return Sym(e_abs(self.n))
    def __invert__(self): return bres(N.not_(N.toB(self.n)))
    # ---- numpy scalar protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)
    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, types, args, kwargs)
    shape = (); ndim = 0; size = 1
    @property
    def dtype(self): return np.dtype({'R': float, 'F': float, 'I': int, 'B': bool}[self.n.sort])
    @property
    def T(self): return self
    @property
    def real(self): return self
    def item(self): return self
    def copy(self): return self
    def _arr(self): return asym(self)
    def sum(self, *a, **k): return self._arr().sum(*a, **k)
    def mean(self, *a, **k): return self._arr().mean(*a, **k)
    def min(self, *a, **k): return self._arr().min(*a, **k)
    def max(self, *a, **k): return self._arr().max(*a, **k)
    def any(self, *a, **k): return self._arr().any(*a, **k)
    def all(self, *a, **k): return self._arr().all(*a, **k)
    def squeeze(self, *a, **k): return self
    def reshape(self, *s, **k): return self._arr().reshape(*s, **k)
    def astype(self, *a, **k): return self._arr().astype(*a, **k)[()]
    def flatten(self): return self._arr().reshape(-1)
    ravel = flatten
    def __getitem__(self, idx): return self._arr()[idx]
    def __round__(self, n=None): raise Unsupported('round')
    def is_integer(self): raise Unsupported('is_integer')

class IArr(np.ndarray):
    """concrete integer / boolean array that can be indexed by symbolic masks and indices"""
    def __getitem__(self, idx):
        return np.ndarray.__getitem__(self, fix_index(idx) if any_sym_idx(idx) else idx)
    def __setitem__(self, idx, val):
        np.ndarray.__setitem__(self, fix_index(idx) if any_sym_idx(idx) else idx, val)
    def astype(self, dtype, *a, **k):
        r = self.view(np.ndarray).astype(dtype, *a, **k)
        return asym(r) if r.dtype.kind == 'f' and r.ndim else iarr(r)
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        """as for plain arrays, but floating point results can hold symbolic values"""
        out = kw.get('out') or ()
        if any(isinstance(x, (Sym, SymArray)) for x in tuple(inputs) + tuple(out)): return NotImplemented
        un = lambda x: x.view(np.ndarray) if type(x) is IArr else x
        if out: kw['out'] = tuple(un(x) for x in out)
        r = getattr(ufunc, method)(*[un(x) for x in inputs], **{k: un(v) for k, v in kw.items()} if not out else kw)
        if out: return out[0] if len(out) == 1 else out
        if type(r) is np.ndarray and r.ndim: return asym(r) if r.dtype.kind == 'f' else iarr(r)
        return r
def iarr(r):
    return r.view(IArr) if type(r) is np.ndarray and r.ndim and r.dtype.kind in 'iub' else r

_leaves = {}
def leaves(n):
    """values of an integer if-then-else tree with constant leaves, else None"""
    r = _leaves.get(n.id, 0)
    if r != 0: return r
    if N.isc(n): r = frozenset([int(n.args[0])])
    elif n.op == 'ite':
        a, b = leaves(n.args[1]), leaves(n.args[2])
        r = None if a is None or b is None else a | b
    else: r = None
    _leaves[n.id] = r
    return r
def pick(n, vals):
    """vals[index term n] as a term"""
    if N.isc(n): return vals[int(n.args[0])]
    return N.ite(n.args[0], pick(n.args[1], vals), pick(n.args[2], vals))

def lazy_index(arr, idx):
    """arr[idx] with exactly one symbolic integer index array (a choice among constants): built without forking"""
    t = idx if isinstance(idx, tuple) else (idx,)
    pos = [i for i, v in enumerate(t) if (type(v) is SymArray and v.size and all(x.n.sort == 'I' for x in v.view(np.ndarray).reshape(-1)))
           or (type(v) is Sym and v.n.sort == 'I')]
    if len(pos) != 1: return None
    k = pos[0]; s = asym(t[k]); sf = s.view(np.ndarray).reshape(-1)
    lv = [leaves(x.n) for x in sf]
    if any(l is None for l in lv) or all(len(l) == 1 for l in lv): return None
    if arr.size == 0: return None
    rest = [fix_index1(v) for v in t]  if False else [v if i == k else fix_index1(v) for i, v in enumerate(t)]
    tags = np.arange(arr.size).reshape(arr.shape)
    def at(vals):
        j = list(rest); j[k] = np.array(vals, dtype=int).reshape(s.shape) if s.ndim else int(vals[0])
        return np.asarray(tags[tuple(j)])
    base = [min(l) for l in lv]
    r0 = at(base); flat = arr.view(np.ndarray).reshape(-1)
    out = np.empty(r0.shape, dtype=object); of = out.reshape(-1)
    for i, tg in enumerate(r0.reshape(-1)): of[i] = flat[tg]
    for e, l in enumerate(lv):
        if len(l) == 1: continue
        alt = {}
        for v in l:
            b = list(base); b[e] = v
            alt[v] = at(b).reshape(-1)
        ref = alt[base[e]]
        moved = sorted({i for v in l for i in range(len(ref)) if alt[v][i] != ref[i]})
        for i in moved:
            vals = {v: node(flat[alt[v][i]]) for v in l}
            of[i] = Sym(pick(sf[e].n, vals))
    r = of.reshape(r0.shape)
    return r[()] if r.ndim == 0 else tidy(r)

def concretize_int(n):
    """fork over the possible values of an integer term (must be bounded by the path condition)"""
    if N.isc(n): return n.args[0]
    c = ctx()
    if leaves(n) is not None:
        while n.op == 'ite': n = n.args[1] if c.decide(n.args[0]) else n.args[2]
        return n.args[0]
    import z3
    if c.solver is None: c._mk()
    tried = []
    for _ in range(64):
        # deterministic enumeration: smallest value first (binary search is unnecessary for tiny ranges)
        z = c.raw(n)
        o = z3.Optimize(); o.set('timeout', 2000)
        for a in c.solver.assertions(): o.add(a)
        o.minimize(z)
        if o.check() != z3.sat: raise PathEnd('infeasible')
        v = o.model().eval(z, model_completion=True).as_long()
        if c.decide(N.eq(n, N.iconst(v))): return v
    raise Unsupported('integer range too large')

# =============================================================================== arrays
def is_sym(x): return type(x) is Sym or type(x) is SymArray

def asym(x):
    """object SymArray of Sym elements"""
    if type(x) is SymArray: return x
    if type(x) is Sym:
        a = np.empty((), dtype=object); a[()] = x
        return a.view(SymArray)
    if type(x).__name__ == 'TT': x = x.a; return asym(x)
    if type(x) is MaskSel: return asym(x.fork())
    a = np.asarray(x) if not isinstance(x, (list, tuple)) else _from_nested(x)
    if type(a) is SymArray: return a
    b = np.empty(a.shape, dtype=object)
    bf = b.reshape(-1)
    for i, v in enumerate(a.reshape(-1).tolist() if a.dtype != object else a.view(np.ndarray).reshape(-1)):
        bf[i] = v if type(v) is Sym else Sym(node(v))
    b = bf.reshape(a.shape)
    return b.view(SymArray)

def _from_nested(x):
    if any_sym(x):
        parts = [asym(v) for v in x]
        if not parts: return np.zeros((0,))
        out = np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, p in enumerate(parts):
            if p.shape != parts[0].shape: raise ValueError('inhomogeneous shape')
            out[i] = p.view(np.ndarray) if p.ndim else p.view(np.ndarray)[()]
        return out
    return np.asarray(x)

def any_sym(x, depth=6):
    t = type(x)
    if t is Sym or t is SymArray or t is MaskSel or t.__name__ == 'TT': return True
    if isinstance(x, np.ndarray) and x.dtype == object: return any(type(v) is Sym for v in x.reshape(-1))
    if t in (list, tuple) and depth: return any(any_sym(v, depth - 1) for v in x)
    if t is dict and depth: return any(any_sym(v, depth - 1) for v in x.values())
    return False

def tidy(b):
    """object array of Sym -> SymArray, or a real bool array when every element is a decided boolean"""
    flat = b.reshape(-1)
    allb = flat.size > 0
    for v in flat:
        n = v.n
        if n.sort != 'B' or n.op != 'const': allb = False; break
    if allb:
        r = np.array([v.n.args[0] for v in flat], dtype=bool).reshape(b.shape)
        return r
    return b.view(SymArray)
def scal(x):
    """0-d array -> scalar like numpy does for ufunc results"""
    if isinstance(x, np.ndarray) and x.ndim == 0:
        v = x[()]
        return v
    return x

def elementwise(f, args, nin):
    arrs = [a.view(np.ndarray) if type(a) is SymArray else asym(a).view(np.ndarray) for a in args]
    bc = np.broadcast_arrays(*arrs) if len(arrs) > 1 else [arrs[0]]
    shp = bc[0].shape
    out = np.empty(shp, dtype=object)
    of = out.reshape(-1)
    its = [b.reshape(-1) for b in bc]
    for i in range(of.size):
        of[i] = Sym(f(*[it[i].n for it in its]))
    return of.reshape(shp)

def assign_out(out, res):
    if type(out) is SymArray:
        v = out.view(np.ndarray)
        rr = asym(res).view(np.ndarray)
        if np.broadcast_shapes(v.shape, rr.shape) != v.shape:
            raise ValueError('non-broadcastable output operand')
        v[...] = rr
        return out
    if isinstance(out, np.ndarray):
        if isinstance(res, np.ndarray) and res.dtype == bool: out[...] = res; return out
        if out.dtype == object: out[...] = asym(res).view(np.ndarray); return out
        r = concrete_array(res, out.dtype)
        if r is None: raise Unsupported('symbolic result stored into a concrete array')
        out[...] = r; return out
    raise Unsupported('out=')

def concrete_array(res, dtype):
    a = asym(res).view(np.ndarray)
    vals = []
    for v in a.reshape(-1):
        n = v.n
        if n.sort == 'B' and not N.isc(n): v = bool(v); vals.append(v); continue
        if n.sort == 'I' and not N.isc(n): return None
        if not N.isc(n): return None
        vals.append(N.cval(n) if n.sort != 'B' else n.args[0])
    if np.issubdtype(dtype, np.integer):
        if any(isinstance(v, float) or Fraction(v).denominator != 1 for v in vals):
            return None
        return np.array([int(v) for v in vals], dtype=dtype).reshape(a.shape)
    if dtype == bool: return np.array([bool(v) for v in vals], dtype=bool).reshape(a.shape)
    return np.array([float(v) for v in vals], dtype=dtype).reshape(a.shape)

def norm_axes(axis, nd):
    if axis is None: return tuple(range(nd))
    if isinstance(axis, (list,)): axis = tuple(axis)
    if not isinstance(axis, tuple): axis = (axis,)
    out = []
    for a in axis:
        a = operator.index(a)
        if a < -nd or a >= nd: raise np.exceptions.AxisError(a, nd)
        out.append(a % nd)
    if len(set(out)) != len(out): raise ValueError("duplicate value in 'axis'")
    return tuple(out)

def reduce_nodes(a, axis, keepdims, f, empty):
    """a: object ndarray; f(list of nodes)->node"""
    nd = a.ndim
    ax = norm_axes(axis, nd)
    keep = [i for i in range(nd) if i not in ax]
    t = a.transpose(keep + list(ax))
    kshape = tuple(a.shape[i] for i in keep)
    cnt = 1
    for i in ax: cnt *= a.shape[i]
    t2 = np.empty((int(np.prod(kshape, dtype=int)), cnt), dtype=object)
    t2[...] = t.reshape(t2.shape)
    out = np.empty(t2.shape[0], dtype=object)
    for i in range(t2.shape[0]):
        row = [v.n for v in t2[i]]
        out[i] = Sym(f(row)) if row or empty is not None else None
        if out[i] is None: raise ValueError('zero-size array to reduction operation which has no identity')
    if keepdims:
        return out.reshape(tuple(1 if i in ax else a.shape[i] for i in range(nd)))
    return out.reshape(kshape)

def foldl(f, row, init):
    if init is not None:
        r = init
        for v in row: r = f(r, v)
        return r
    r = row[0]
    for v in row[1:]: r = f(r, v)
    return r

def _num(n):
    return N.toR(n) if n.sort == 'B' else n

def ufunc_reduce(ufunc, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True):
    arr = asym(a).view(np.ndarray)
    f = ELEM[ufunc]
    if ufunc in (np.add, np.multiply):
        f0 = f; f = lambda x, y: f0(_num(x), _num(y))
    idv = IDENT.get(ufunc)
    ini = None
    if initial is not None and type(initial).__name__ != '_NoValueType':
        ini = node(initial)
    if where is not True:
        w = asym(np.broadcast_to(asym(where), arr.shape)).view(np.ndarray)
        base = ini if ini is not None else node(idv)
        pairs = np.empty(arr.shape, dtype=object)
        pf = pairs.reshape(-1)
        wf, af = w.reshape(-1), arr.reshape(-1)
        for i in range(pf.size): pf[i] = Sym(N.ite(N.toB(wf[i].n), _num(af[i].n), base if base.sort != 'B' or True else base))
        arr = pf.reshape(arr.shape)
    if arr.ndim == 0:
        r = arr
        if axis not in (None, 0, -1, ()): raise np.exceptions.AxisError(axis, 0)
        if ini is not None: r = asym(Sym(f(ini, arr[()].n))).view(np.ndarray)
        res = r
    else:
        init = ini if ini is not None else (None if idv is None else (node(idv)))
        def g(row):
            if init is not None and ini is None:
                if not row: return init
                if ufunc in (np.logical_and, np.logical_or): return foldl(f, [N.toB(x) for x in row], None)
                return foldl(f, [_num(x) for x in row] if ufunc in (np.add, np.multiply) else row, None)
            return foldl(f, row, init)
        res = reduce_nodes(arr, axis, keepdims, g, init)
    res = tidy(res)
    if out is not None: 
        o = out[0] if isinstance(out, tuple) else out
        if o is not None: return assign_out(o, res)
    return scal(res)

def array_ufunc(ufunc, method, inputs, kw):
    if ufunc is np.matmul and method == '__call__':
        r = matmul(asym(inputs[0]), asym(inputs[1]))
        o = kw.get('out')
        return assign_out(o[0], r) if o else scal(r)
    if ufunc.__name__ in ('vecdot', 'matvec', 'vecmat'):
        a, b = asym(inputs[0]), asym(inputs[1])
        r = {'vecdot': lambda: (a * b).sum(axis=-1), 'matvec': lambda: matmul(a, b[..., None])[..., 0],
             'vecmat': lambda: matmul(a[..., None, :], b)[..., 0, :]}[ufunc.__name__]()
        return r
    f = ELEM.get(ufunc)
    if f is None: raise Unsupported('numpy function %s on symbolic data' % ufunc.__name__)
    if method == '__call__':
        out = kw.pop('out', None); where = kw.pop('where', True)
        kw.pop('dtype', None); kw.pop('casting', None); kw.pop('subok', None); kw.pop('order', None)
        if kw: raise Unsupported('ufunc keywords %s' % list(kw))
        for x in inputs:
            if type(x).__name__ == 'TT': return NotImplemented
        res = elementwise(f, inputs, ufunc.nin)
        if where is not True:
            if out is None or out[0] is None:
                base = asym(np.zeros(res.shape))
            else: base = out[0]
            res = where3(where, res.view(SymArray), base).view(np.ndarray)
        r = tidy(res)
        if out is not None and out[0] is not None: return assign_out(out[0], r)
        return scal(r)
    if method == 'reduce':
        kw = dict(kw)
        a = inputs[0]
        axis = inputs[1] if len(inputs) > 1 else kw.pop('axis', 0)
        return ufunc_reduce(ufunc, a, axis=axis, **kw)
    if method == 'outer':
        a, b = asym(inputs[0]), asym(inputs[1])
        return scal(tidy(elementwise(f, [a.reshape(a.shape + (1,) * b.ndim), b], 2)))
    if method == 'accumulate':
        a = asym(inputs[0]).view(np.ndarray); axis = kw.get('axis', inputs[1] if len(inputs) > 1 else 0)
        out = a.copy(); t = np.moveaxis(out, axis, 0)
        for i in range(1, t.shape[0]):
            t[i] = elementwise(f, [t[i - 1], t[i]], 2) if t[i].ndim else Sym(f(t[i - 1].n, t[i].n))
        return tidy(out)
    if method == 'at':
        a, idx = inputs[0], inputs[1]
        if type(a) is not SymArray: raise Unsupported('ufunc.at on a concrete array')
        pos = np.arange(a.size).reshape(a.shape)[fix_index(idx)]
        flat = a.view(np.ndarray).reshape(-1)
        if not np.shares_memory(flat, a.view(np.ndarray)): raise Unsupported('ufunc.at on a strided array')
        if len(inputs) > 2:
            vals = np.broadcast_to(asym(inputs[2]).view(np.ndarray), pos.shape).reshape(-1)
            for p, v in zip(pos.reshape(-1), vals): flat[p] = Sym(f(flat[p].n, v.n))
        else:
            for p in pos.reshape(-1): flat[p] = Sym(f(flat[p].n))
        return None
    raise Unsupported('ufunc method ' + method)

def matmul(a, b):
    A = a.view(np.ndarray); B = b.view(np.ndarray)
    if A.ndim == 0 or B.ndim == 0: raise ValueError('matmul: Input operand does not have enough dimensions')
    sa = sb = False
    if A.ndim == 1: A = A[None, :]; sa = True
    if B.ndim == 1: B = B[:, None]; sb = True
    if A.shape[-1] != B.shape[-2]: raise ValueError('matmul: Input operand has a mismatch in its core dimension')
    bs = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = np.broadcast_to(A, bs + A.shape[-2:]); B = np.broadcast_to(B, bs + B.shape[-2:])
    out = np.empty(bs + (A.shape[-2], B.shape[-1]), dtype=object)
    for ix in np.ndindex(*out.shape):
        bi, i, j = ix[:-2], ix[-2], ix[-1]
        out[ix] = Sym(foldl(lambda x, y: e_add(_num(x), _num(y)), [e_mul(_num(A[bi + (i, k)].n), _num(B[bi + (k, j)].n)) for k in range(A.shape[-1])], None))
    if sa: out = out[..., 0, :]
    if sb: out = out[..., 0]
    return out.view(SymArray)

def any_sym_idx(idx):
    if isinstance(idx, tuple): return any(type(i) is SymArray or type(i) is Sym or type(i).__name__ == 'TT' for i in idx)
    return type(idx) is SymArray or type(idx) is Sym or type(idx).__name__ == 'TT'
def fix_index(idx):
    """make an index concrete: boolean masks fork per element, integer terms fork over their values"""
    if isinstance(idx, tuple): return tuple(fix_index1(i) for i in idx)
    return fix_index1(idx)
def fix_index1(i):
    if type(i) is Sym:
        return bool(i) if i.n.sort == 'B' else operator.index(i)
    if type(i).__name__ == 'TT': i = i.a
    if type(i) is SymArray: return concretize_mask(i)
    if isinstance(i, list) and any_sym(i): return concretize_mask(asym(i))
    return i
def concretize_mask(a):
    flat = a.view(np.ndarray).reshape(-1)
    if flat.size == 0: return np.zeros(a.shape, dtype=int)
    if all(v.n.sort == 'B' for v in flat):
        return np.array([bool(v) for v in flat], dtype=bool).reshape(a.shape)
    return np.array([operator.index(v) for v in flat], dtype=int).reshape(a.shape)

def where3(c, a, b):
    if isinstance(c, np.ndarray) and c.dtype == bool and not any_sym(c):
        a2, b2 = asym(a).view(np.ndarray), asym(b).view(np.ndarray)
        r = np.where(c, a2, b2)
        return tidy(r) if r.ndim else asym(r[()] if isinstance(r, np.ndarray) else r)
    res = elementwise(lambda x, y, z: N.ite(N.toB(x), y, z), [c, a, b], 3)
    return tidy(res)

def bool_mask(idx, shape):
    """an undecided boolean mask over the leading axes"""
    return (type(idx) is SymArray and 0 < idx.ndim <= len(shape) and idx.shape == tuple(shape[:idx.ndim]) and idx.size > 0
            and all(v.n.sort == 'B' for v in idx.view(np.ndarray).reshape(-1)))
def expand_mask(m, ndim): return m[(Ellipsis,) + (None,) * (ndim - m.ndim)]

class MaskSel(np.lib.mixins.NDArrayOperatorsMixin):
    """arr[mask] for an undecided mask: element-wise operations stay total, everything else forks over the mask"""
    TOTAL = (np.add, np.subtract, np.multiply, np.negative, np.minimum, np.maximum, np.absolute, np.positive)
    __array_priority__ = 2000
    def __init__(self, full, mask): self.full, self.mask = full, mask.copy(); self._f = None
    def same_mask(self, m):
        return m.shape == self.mask.shape and all(a.n is b.n for a, b in zip(m.view(np.ndarray).reshape(-1), self.mask.view(np.ndarray).reshape(-1)))
    def fork(self):
        if self._f is None: self._f = np.ndarray.__getitem__(self.full, concretize_mask(self.mask))
        return self._f
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method == '__call__' and list(kw) == ['out'] and kw['out'][0] is self and inputs[0] is self:      # in-place
            r = self.__array_ufunc__(ufunc, method, *inputs)
            if type(r) is not MaskSel or self._f is not None: return r
            self.full = r.full
            return self
        if method == '__call__' and not kw:
            ok = all(type(x) is not MaskSel or x._f is None for x in inputs) and (ufunc in self.TOTAL or ufunc is np.true_divide and inputs[0] is self and type(inputs[1]) in (int, float, np.float64) and inputs[1] != 0)
            if ok and all((type(x) is MaskSel and x.same_mask(self.mask) and x.full.shape == self.full.shape) or (type(x) is not MaskSel and np.ndim(x) == 0) for x in inputs):
                r = array_ufunc(ufunc, '__call__', tuple(x.full if type(x) is MaskSel else x for x in inputs), {})
                return MaskSel(asym(r), self.mask)
        inputs = tuple(x.fork() if type(x) is MaskSel else x for x in inputs)
        out = kw.get('out')
        if out:
            kw['out'] = tuple(x.fork() if type(x) is MaskSel else x for x in out)
        return getattr(ufunc, method)(*inputs, **kw)
    def __array_function__(self, func, types, args, kwargs):
        f = lambda x: x.fork() if type(x) is MaskSel else type(x)(f(v) for v in x) if type(x) in (list, tuple) else x
        return func(*[f(a) for a in args], **{k: f(v) for k, v in kwargs.items()})
    def __array__(self, *a, **k): return self.fork()
    def __getattr__(self, name):
        if name.startswith('__') or name in ('full', 'mask', '_f'): raise AttributeError(name)
        return getattr(self.fork(), name)
    def __getitem__(self, i): return self.fork()[i]
    def __setitem__(self, i, v): self.fork()[i] = v; 
    def __len__(self): return len(self.fork())
    def __iter__(self): return iter(self.fork())
    def __bool__(self): return bool(self.fork())
    def __float__(self): return float(self.fork())
    def __copy__(self): return MaskSel(self.full.copy(), self.mask)

class SymArray(np.ndarray):
    __array_priority__ = 1000
    def __array_finalize__(self, obj): pass
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)
    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, types, args, kwargs)
    def __array_wrap__(self, arr, context=None, return_scalar=False):
        return arr[()] if return_scalar and arr.ndim == 0 else arr
    # indexing
    def __getitem__(self, idx):
        if type(idx) is tuple and any(type(i) is list and any_sym(i) for i in idx): idx = tuple(asym(i) if type(i) is list and any_sym(i) else i for i in idx)
        elif type(idx) is list and any_sym(idx): idx = asym(idx)
        if any_sym_idx(idx):
            r = lazy_index(self, idx)
            if r is not None: return r
            if LAZY[0] and bool_mask(idx, self.shape): return MaskSel(self.copy(), idx)
        return np.ndarray.__getitem__(self, fix_index(idx))
    def __setitem__(self, idx, val):
        if LAZY[0] and bool_mask(idx, self.shape):
            if type(val) is MaskSel and val._f is None and val.same_mask(idx) and val.full.shape == self.shape:
                self.view(np.ndarray)[...] = asym(where3(expand_mask(idx, self.ndim), val.full, self)).view(np.ndarray)
                return
            if type(val) is not MaskSel and np.ndim(val) == 0:
                self.view(np.ndarray)[...] = asym(where3(expand_mask(idx, self.ndim), val, self)).view(np.ndarray)
                return
        if type(val) is MaskSel: val = val.fork()
        idx = fix_index(idx)
        if type(val).__name__ == 'TT': val = val.a
        v = asym(val).view(np.ndarray)
        base = self.view(np.ndarray)
        if v.ndim == 0: base[idx] = v[()]
        else: base[idx] = v
    def __bool__(self):
        if self.size != 1: raise ValueError('The truth value of an array with more than one element is ambiguous.')
        return bool(self.view(np.ndarray).reshape(-1)[0])
    def __float__(self): return float(self.item())
    def __int__(self): return int(self.item())
    def __index__(self): return operator.index(self.item())
    def item(self, *a): return self.view(np.ndarray).item(*a)
    def __contains__(self, v): return bool((self == v).any())
    def __repr__(self): return 'SymArray%s' % (self.shape,)
    __str__ = __repr__
    def __format__(self, s): return repr(self)
    def __reduce__(self): raise Unsupported('pickling a symbolic array')
    def __deepcopy__(self, memo): return self.copy()
    def copy(self, order='C'): return self.view(np.ndarray).copy().view(SymArray)
    def tolist(self): return self.view(np.ndarray).tolist()
    # comparisons go through ufuncs (ndarray.__eq__ on object arrays would call Python ==)
    def _cmp(uf):
        def op(self, o):
            if type(o).__name__ == 'TT': return NotImplemented
            return array_ufunc(uf, '__call__', (self, o), {})
        return op
    __lt__ = _cmp(np.less); __le__ = _cmp(np.less_equal); __gt__ = _cmp(np.greater); __ge__ = _cmp(np.greater_equal)
    __eq__ = _cmp(np.equal); __ne__ = _cmp(np.not_equal)
    __hash__ = None
    # methods
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return ufunc_reduce(np.add, self, axis, None, out, keepdims, initial, where)
    def prod(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return ufunc_reduce(np.multiply, self, axis, None, out, keepdims, initial, where)
    def max(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return ufunc_reduce(np.maximum, self, axis, None, out, keepdims, initial, where)
    def min(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return ufunc_reduce(np.minimum, self, axis, None, out, keepdims, initial, where)
    def any(self, axis=None, out=None, keepdims=False, where=True):
        return ufunc_reduce(np.logical_or, self, axis, None, out, keepdims, None, where)
    def all(self, axis=None, out=None, keepdims=False, where=True):
        return ufunc_reduce(np.logical_and, self, axis, None, out, keepdims, None, where)
    def mean(self, axis=None, dtype=None, out=None, keepdims=False, where=True):
        if where is not True: raise Unsupported('mean(where)')
        c = 1
        for a in norm_axes(axis, self.ndim): c *= self.shape[a]
        r = self.sum(axis=axis, keepdims=keepdims) / c
        return assign_out(out, r) if out is not None else r
    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        c = 1
        for a in norm_axes(axis, self.ndim): c *= self.shape[a]
        if any_special(self):
            # numpy: inf - inf = nan
            ax = norm_axes(axis, self.ndim)
            def f(row):
                if any(N.special(x) for x in row): return N.const(float('nan'))
                mu = N.mul(N.const(Fraction(1, len(row))), foldl(N.add, row, None))
                s = foldl(N.add, [N.mul(N.sub(x, mu), N.sub(x, mu)) for x in row], None)
                return N.mul(N.const(Fraction(1, len(row) - ddof)), s)
            return scal(tidy(reduce_nodes(self.view(np.ndarray), axis, keepdims, f, None)))
        m = self.mean(axis=axis, keepdims=True)
        d = self - m
        return (d * d).sum(axis=axis, keepdims=keepdims) / (c - ddof)
    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return np.sqrt(self.var(axis=axis, ddof=ddof, keepdims=keepdims))
    def argmin(self, axis=None, out=None, keepdims=False):
        return arg_extreme(self, axis, keepdims, lambda a, b: N.lt(a, b))
    def argmax(self, axis=None, out=None, keepdims=False):
        return arg_extreme(self, axis, keepdims, lambda a, b: N.lt(b, a))
    def clip(self, min=None, max=None, out=None, **kw):
        r = self
        if min is None and 'a_min' in kw: min = kw['a_min']
        if max is None and 'a_max' in kw: max = kw['a_max']
        if min is not None: r = np.maximum(r, min)
        if max is not None: r = np.minimum(r, max)
        if r is self: r = self.copy()
        return assign_out(out, r) if out is not None else r
    def astype(self, dtype=None, order='K', casting='unsafe', subok=True, copy=True):
        if dtype is object: return self.copy()
        dt = np.dtype(dtype)
        if np.issubdtype(dt, np.floating): return elementwise(lambda a: N.toR(a) if a.sort in 'BI' else a, [self], 1).view(SymArray)
        if dt == bool: return tidy(elementwise(N.toB, [self], 1))
        if np.issubdtype(dt, np.integer):
            r = concrete_array(self, dt) if all(N.isc(v.n) for v in self.view(np.ndarray).reshape(-1)) else None
            if r is not None: return r
            return elementwise(N.toI, [self], 1).view(SymArray)
        raise Unsupported('astype %s' % dt)
    def nonzero(self): return np.nonzero(concretize_mask(asym(self != 0) if not all(v.n.sort == 'B' for v in self.view(np.ndarray).reshape(-1)) else self))
    def dot(self, b): return np_dot(self, b)
    def trace(self, *a, **k): return np.ndarray.trace(self, *a, **k)
    def round(self, *a, **k): raise Unsupported('round')
    def cumsum(self, axis=None, **k):
        a = self.reshape(-1) if axis is None else self
        return array_ufunc(np.add, 'accumulate', (a,), {'axis': 0 if axis is None else axis})
    def argsort(self, axis=-1, **k): return sort_idx(self, axis)
    def sort(self, axis=-1, **k):
        self[...] = np_sort(self, axis)
    def ptp(self, axis=None, **k): return self.max(axis) - self.min(axis)
    def fill(self, v): self[...] = v
    def view(self, *a, **k):
        if a and a[0] in (float, np.float64): return self
        return np.ndarray.view(self, *a, **k)

def any_special(a): return any(N.special(v.n) for v in a.view(np.ndarray).reshape(-1))

def arg_extreme(a, axis, keepdims, better):
    A = asym(a).view(np.ndarray)
    if axis is None:
        flat = A.reshape(-1); res = _arg1(list(flat), better)
        if N.isc(res):
            res = int(res.args[0])
            return np.array(res).reshape((1,) * A.ndim) if keepdims else np.int64(res)
        return asym(Sym(res)).reshape((1,) * A.ndim) if keepdims else Sym(res)
    axis = norm_axes(axis, A.ndim)[0]
    t = np.moveaxis(A, axis, -1)
    out = np.empty(t.shape[:-1], dtype=object)
    for ix in np.ndindex(*out.shape): out[ix] = Sym(_arg1(list(t[ix]), better))
    if all(N.isc(v.n) for v in out.reshape(-1)):
        out = np.array([int(v.n.args[0]) for v in out.reshape(-1)], dtype=np.int64).reshape(out.shape)
    else: out = out.view(SymArray)
    if keepdims: out = np.expand_dims(out, axis)
    return out if out.ndim else out[()]
LAZY = [True]
def _arg1(vals, better):
    """index of the extreme element as an integer term"""
    if not LAZY[0]: return N.iconst(_arg0(vals, better))
    if not vals: raise ValueError('attempt to get argmin of an empty sequence')
    if any(v.n.sort == 'F' or N.special(v.n) for v in vals): 
        fin = [i for i, v in enumerate(vals) if not N.special(v.n)]
        if any(v.n.sort == 'F' for v in vals) or any(N.special(v.n) and v.n.args[0] == 'nan' for v in vals) or not fin: return N.iconst(_arg0(vals, better))
        worst = [i for i, v in enumerate(vals) if N.special(v.n)]
        if any(N.isc(better(vals[i].n, vals[fin[0]].n)) and better(vals[i].n, vals[fin[0]].n).args[0] for i in worst): return N.iconst(_arg0(vals, better))
        sel = fin
    else: sel = list(range(len(vals)))
    bi = N.iconst(sel[0]); bv = vals[sel[0]].n; c = ctx()
    for i in sel[1:]:
        b = better(vals[i].n, bv)
        k = c.known.get(b.id)
        if k is not None: b = N.TRUE if k else N.FALSE
        bi = N.ite(b, N.iconst(i), bi); bv = N.ite(b, vals[i].n, bv)
    return bi
def _arg0(vals, better):
    if not vals: raise ValueError('attempt to get argmin of an empty sequence')
    c = ctx()
    for i, v in enumerate(vals):
        nn = e_isnan(v.n)
        if not (N.isc(nn) and not nn.args[0]):
            if c.decide(nn): return i
    best = 0
    for i in range(1, len(vals)):
        if c.decide(better(vals[i].n, vals[best].n)): best = i
    return best
def sort_idx(a, axis=-1):
    A = asym(a).view(np.ndarray)
    if axis is None: A = A.reshape(-1); axis = 0
    t = np.moveaxis(A, axis, -1); c = ctx()
    out = np.zeros(t.shape, dtype=np.int64)
    for ix in np.ndindex(*t.shape[:-1]):
        row = [Sym(N.toR(v.n)) if v.n.sort == 'B' else v for v in t[ix]]; order = []
        for i, v in enumerate(row):
            k = len(order)
            while k > 0 and c.decide(N.lt(v.n, row[order[k - 1]].n)): k -= 1
            order.insert(k, i)
        out[ix] = order
    return np.moveaxis(out, -1, axis)
def np_sort(a, axis=-1):
    if axis is None: a = asym(a).reshape(-1); axis = 0
    return np.take_along_axis(asym(a).view(np.ndarray), sort_idx(a, axis), axis).view(SymArray)
def np_dot(a, b):
    a, b = asym(a), asym(b)
    if a.ndim == 0 or b.ndim == 0: return a * b
    if b.ndim == 1 or a.ndim <= 2 and b.ndim == 2 or a.ndim == 1: return scal(matmul(a, b)) 
    A, B = a, b
    return einsum_generic(A, B)
def einsum_generic(A, B): raise Unsupported('dot of high-dimensional arrays')

from . import npfuncs
array_function = npfuncs.array_function
