"""Hash-consed term language of the symbolic executor.

Sorts: 'R' real, 'I' integer, 'B' boolean, 'F' IEEE-754 binary64 (bit-exact z3 FP sort).
Constants of sort R are exact Fractions, or the Python floats inf/-inf/nan (which numpy code
uses as sentinels); those never reach the solver, they fold away in arithmetic/comparison.
"""
from fractions import Fraction
import math

class Unsupported(Exception):
    """The encoder does not know this construct (=> inconclusive, never 'holds')."""

class Node:
    __slots__ = ('op', 'args', 'sort', 'id', '__weakref__')
    def __repr__(self):
        return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o

_table = {}
_all = []
def mk(op, args, sort):
    key = (op, tuple(a.id if type(a) is Node else ('c', type(a).__name__, a) for a in args), sort)
    n = _table.get(key)
    if n is None:
        n = Node(); n.op = op; n.args = tuple(args); n.sort = sort
        n.id = len(_all); _all.append(n); _table[key] = n
    return n

def reset_table():
    global TRUE, FALSE
    _table.clear(); _all.clear(); _sg.clear()
    TRUE = const(True); FALSE = const(False)

_NAN = float('nan')
def frac(v):
    """Exact value of a concrete number.  Decimal reading of the shortest repr for floats, so that
    0.1 means 1/10 (floats are constants of the source text, not results of rounding)."""
    if isinstance(v, Fraction): return v
    if isinstance(v, bool): return Fraction(int(v))
    if isinstance(v, int): return Fraction(v)
    v = float(v)
    if math.isinf(v) or math.isnan(v): return v
    return Fraction(repr(v))

def const(v):
    if isinstance(v, bool): return mk('const', (v,), 'B')
    if isinstance(v, float):
        if math.isnan(v): return mk('const', ('nan',), 'R')
        if math.isinf(v): return mk('const', ('inf' if v > 0 else '-inf',), 'R')
        v = frac(v)
    if isinstance(v, int): v = Fraction(v)
    return mk('const', (v,), 'R')
def iconst(v): return mk('const', (int(v),), 'I')
def var(name, sort='R'): return mk('var', (name,), sort)
TRUE = const(True); FALSE = const(False)

def isc(n): return n.op == 'const'
def cval(n):
    v = n.args[0]
    if v == 'nan': return _NAN
    if v == 'inf': return math.inf
    if v == '-inf': return -math.inf
    return v
def special(n): return n.op == 'const' and isinstance(n.args[0], str)

def toR(n):
    if n.sort == 'R': return n
    if n.sort == 'B':
        if isc(n): return const(Fraction(int(n.args[0])))
        return ite(n, const(Fraction(1)), const(Fraction(0)))
    if n.sort == 'I':
        if isc(n): return const(Fraction(n.args[0]))
        return mk('toreal', (n,), 'R')
    raise Unsupported('toR of sort ' + n.sort)
def toI(n):
    if n.sort == 'I': return n
    if n.sort == 'B':
        if isc(n): return iconst(int(n.args[0]))
        return mk('ite', (n, iconst(1), iconst(0)), 'I')
    if n.sort == 'R' and isc(n) and not special(n) and cval(n).denominator == 1: return iconst(cval(n))
    raise Unsupported('toI of ' + show(n))
def toB(n):
    if n.sort == 'B': return n
    if n.sort in 'RI': return not_(eq(n, const(Fraction(0)) if n.sort == 'R' else iconst(0)))
    raise Unsupported('toB of ' + n.sort)

def unify(a, b):
    if a.sort == b.sort and a.sort in 'RIF': return a, b
    if 'F' in (a.sort, b.sort):
        return toF(a), toF(b)
    if 'R' in (a.sort, b.sort): return toR(a), toR(b)
    return toI(a), toI(b)

# ---------------------------------------------------------------- IEEE sort
def fconst(v):
    import struct
    return mk('fconst', (struct.pack('>d', float(v)),), 'F')
def fval(n):
    import struct
    return struct.unpack('>d', n.args[0])[0]
def toF(n):
    if n.sort == 'F': return n
    if n.op == 'const':
        v = n.args[0]
        if n.sort == 'B': return fconst(1.0 if v else 0.0)
        return fconst(float(cval(n)))
    if n.sort == 'B': return ite(n, fconst(1.0), fconst(0.0))
    raise Unsupported('toF of symbolic ' + n.sort)

# ---------------------------------------------------------------- arithmetic
def need_split_special(fn): raise Unsupported(fn)

def _spec_bin(op, a, b):
    """one of a, b is inf/nan; returns node or None if the sign of a symbol is needed"""
    if isc(a) and isc(b):
        x, y = float(cval(a)), float(cval(b))
        import numpy as np
        with np.errstate(all='ignore'):
            r = {'add': np.add, 'mul': np.multiply, 'div': np.divide}[op](np.float64(x), np.float64(y))
        return const(float(r))
    s = a if special(a) else b
    if s.args[0] == 'nan': return s
    if op == 'add': return s
    if op == 'div' and special(b): return const(Fraction(0))
    return None

class SignNeeded(Exception):
    def __init__(self, node): self.node = node

def add(a, b):
    a, b = unify(a, b)
    if a.sort == 'F': return fop('fp.add', a, b)
    if special(a) or special(b): return _spec_bin('add', a, b)
    if isc(a) and isc(b): return mk('const', (a.args[0] + b.args[0],), a.sort)
    if isc(a) and a.args[0] == 0: return b
    if isc(b) and b.args[0] == 0: return a
    for u, w in ((a, b), (b, a)):          # u + (w' - u) = w'
        if w.op == 'add':
            for i in (0, 1):
                if _isneg(w.args[i], u) or _isneg(u, w.args[i]): return w.args[1 - i]
        if _isneg(w, u): return mk('const', (Fraction(0) if a.sort == 'R' else 0,), a.sort)
    return mk('add', (a, b), a.sort)
def _isneg(v, u): return v.op == 'mul' and v.args[1] is u and isc(v.args[0]) and v.args[0].args[0] == -1
def neg(a):
    if a.sort == 'F': return mk('fp.neg', (a,), 'F') if a.op != 'fconst' else fconst(-fval(a))
    if a.sort == 'B': a = toI(a)
    return mul(const(Fraction(-1)) if a.sort == 'R' else iconst(-1), a)
def sub(a, b):
    a, b = unify(a, b)
    if a.sort == 'F': return fop('fp.sub', a, b)
    if a is b and not special(a): return mk('const', (Fraction(0) if a.sort == 'R' else 0,), a.sort)
    return add(a, neg(b))
def mul(a, b):
    a, b = unify(a, b)
    if a.sort == 'F': return fop('fp.mul', a, b)
    if special(a) or special(b):
        r = _spec_bin('mul', a, b)
        if r is None:
            o = b if special(a) else a
            raise SignNeeded(o)
        return r
    if isc(a) and isc(b): return mk('const', (a.args[0] * b.args[0],), a.sort)
    for u, w in ((a, b), (b, a)):
        if isc(u):
            if u.args[0] == 0: return u
            if u.args[0] == 1: return w
            if w.op == 'mul' and isc(w.args[0]):
                return mul(mk('const', (u.args[0] * w.args[0].args[0],), a.sort), w.args[1])
            return mk('mul', (u, w), a.sort)
    return mk('mul', (a, b), a.sort)
def div(a, b):
    if 'F' in (a.sort, b.sort):
        a, b = unify(a, b); return fop('fp.div', a, b)
    a, b = toR(a), toR(b)
    if special(a) or special(b):
        r = _spec_bin('div', a, b)
        if r is None: raise SignNeeded(b)
        return r
    if isc(b):
        if b.args[0] == 0:
            if isc(a):
                v = a.args[0]
                return const(_NAN if v == 0 else (math.inf if v > 0 else -math.inf))
            raise SignNeeded(a)
        return mul(const(1 / b.args[0]), a)
    if isc(a) and a.args[0] == 0: return a
    if a is b: return const(Fraction(1))
    return mk('div', (a, b), 'R')
def powi(a, k):
    if k == 0: return const(Fraction(1))
    if k < 0: return div(const(Fraction(1)), powi(a, -k))
    r = a
    for _ in range(k - 1): r = mul(r, a)
    return r

def fn(name, *args):
    args = tuple(toR(a) for a in args)
    if all(isc(a) for a in args):
        vs = [cval(a) for a in args]
        if name == 'sqrt' and not isinstance(vs[0], float) and vs[0] >= 0:
            p, q = vs[0].numerator, vs[0].denominator
            rp, rq = math.isqrt(p), math.isqrt(q)
            if rp * rp == p and rq * rq == q: return const(Fraction(rp, rq))
        if name in ('exp',) and vs[0] == 0: return const(Fraction(1))
        if name == 'exp' and special(args[0]):
            return const(Fraction(0)) if vs[0] < 0 else const(float(vs[0]))
        if name == 'log' and vs[0] == 1: return const(Fraction(0))
        if name in ('sin', 'tan', 'tanh', 'sinh', 'arctan', 'arcsin') and vs[0] == 0: return const(Fraction(0))
        if name in ('cos', 'cosh') and vs[0] == 0: return const(Fraction(1))
        if any(special(a) for a in args):
            import numpy as np
            with np.errstate(all='ignore'):
                r = float(getattr(np, name)(*[np.float64(float(v)) for v in vs]))
            if math.isinf(r) or math.isnan(r): return const(r)
            return const(Fraction(r))
    return mk('fn:' + name, args, 'R')

_sg = {}
def sgn(n, pos=frozenset()):
    """syntactic sign: 2 positive, 1 non-negative, 0 unknown"""
    key = (n.id, pos)
    r = _sg.get(key)
    if r is not None: return r
    op = n.op; r = 0
    if op == 'const' and n.sort in 'RI' and not special(n): r = 2 if n.args[0] > 0 else (1 if n.args[0] == 0 else 0)
    elif op == 'var': return 2 if n.args[0] in pos else 0
    elif op == 'add':
        a, b = sgn(n.args[0], pos), sgn(n.args[1], pos)
        r = 0 if 0 in (a, b) else max(a, b)
    elif op == 'mul':
        a, b = n.args
        if a is b: r = 2 if sgn(a, pos) == 2 else 1
        else:
            u, v = sgn(a, pos), sgn(b, pos)
            r = min(u, v)
            if not r and isc(a) and a.args[0] > 0 and v: r = v
    elif op == 'div': r = min(sgn(n.args[0], pos), sgn(n.args[1], pos))
    elif op == 'ite': 
        r = min(sgn(n.args[1], pos), sgn(n.args[2], pos))
        c, x, y = n.args
        if c.op == 'lt' and c.args[1] is x and c.args[0] is y: r = max(sgn(x, pos), sgn(y, pos))       # maximum
        # |x|
        if not r and c.op == 'lt' and isc(c.args[1]) and c.args[1].args[0] == 0 and y is c.args[0] and x is neg(y): r = 1
    elif op == 'fn:exp': r = 2
    elif op == 'fn:cosh': r = 2
    elif op == 'fn:sqrt': r = 2 if sgn(n.args[0], pos) == 2 else 1
    if not r and op in ('add', 'mul') and n.sort == 'R':      # a combination with constant coefficients, collected
        f = {}
        if _collect(n, 1, f, [64]) and (len(f) > 1 or next(iter(f.values()))[0] is not n):
            r = 1
            for t, c in f.values():
                if c == 0: continue
                s = 2 if t is None else sgn(t, pos)
                if c < 0 or not s: r = 0; break
                r = max(r, s)
    _sg[key] = r
    return r
def _collect(n, k, f, fuel):
    fuel[0] -= 1
    if fuel[0] < 0: return False
    if n.op == 'const' and n.sort == 'R' and not special(n): key, t, c = None, None, k * n.args[0]
    elif n.op == 'add': return _collect(n.args[0], k, f, fuel) and _collect(n.args[1], k, f, fuel)
    elif n.op == 'mul' and n.args[0].op == 'const' and not special(n.args[0]): return _collect(n.args[1], k * n.args[0].args[0], f, fuel)
    elif n.op == 'mul' and n.args[1].op == 'const' and not special(n.args[1]): return _collect(n.args[0], k * n.args[1].args[0], f, fuel)
    else: key, t, c = n.id, n, k
    f[key] = (t, f[key][1] + c if key in f else c)
    return True

# ---------------------------------------------------------------- comparisons / boolean
def lt(a, b):
    a, b = unify(a, b)
    if a.sort == 'F': return fcmp('fp.lt', a, b)
    if isc(a) and isc(b): return TRUE if cval(a) < cval(b) else FALSE
    if special(a) or special(b):
        s = a if special(a) else b
        if s.args[0] == 'nan': return FALSE
        if s is a: return FALSE if s.args[0] == 'inf' else TRUE
        return TRUE if s.args[0] == 'inf' else FALSE
    if a is b: return FALSE
    return mk('lt', (a, b), 'B')
def le(a, b):
    a, b = unify(a, b)
    if a.sort == 'F': return fcmp('fp.le', a, b)
    if isc(a) and isc(b): return TRUE if cval(a) <= cval(b) else FALSE
    if special(a) or special(b):
        s = a if special(a) else b
        if s.args[0] == 'nan': return FALSE
        if s is a: return FALSE if s.args[0] == 'inf' else TRUE
        return TRUE if s.args[0] == 'inf' else FALSE
    if a is b: return TRUE
    return not_(mk('lt', (b, a), 'B'))
def eq(a, b):
    if a.sort == 'B' and b.sort == 'B':
        if isc(a): return b if a.args[0] else not_(b)
        if isc(b): return a if b.args[0] else not_(a)
        if a is b: return TRUE
        return or_(and_(a, b), and_(not_(a), not_(b)))
    a, b = unify(a, b)
    if a.sort == 'F': return fcmp('fp.eq', a, b)
    if isc(a) and isc(b): return TRUE if cval(a) == cval(b) else FALSE
    if special(a) or special(b): return FALSE
    if a is b: return TRUE
    if a.id > b.id: a, b = b, a
    return mk('eq', (a, b), 'B')
def not_(a):
    a = toB(a)
    if isc(a): return FALSE if a.args[0] else TRUE
    if a.op == 'not': return a.args[0]
    return mk('not', (a,), 'B')
def and_(*xs):
    out = []
    for x in xs:
        x = toB(x)
        if isc(x):
            if not x.args[0]: return FALSE
            continue
        out.extend(x.args if x.op == 'and' else (x,))
    out = list(dict.fromkeys(out))
    s = set(out)
    for x in out:
        if x.op == 'not' and x.args[0] in s: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk('and', tuple(out), 'B')
def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))
def xor(a, b): return not_(eq(toB(a), toB(b)))
ITE_HOOK = [None]      # decides conditions already fixed on the current path
def ite(c, a, b):
    c = toB(c)
    if isc(c): return a if c.args[0] else b
    if a is b: return a
    if ITE_HOOK[0] is not None:
        v = ITE_HOOK[0](c)
        if v is not None: return a if v else b
    if a.sort == 'B' and b.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    a, b = unify(a, b)
    if a is b: return a
    if c.op == 'not': return mk('ite', (c.args[0], b, a), a.sort)
    return mk('ite', (c, a, b), a.sort)

# integer ops
def imod(a, b):
    if isc(a) and isc(b): return iconst(a.args[0] % b.args[0])
    return mk('imod', (a, b), 'I')
def idiv(a, b):
    if isc(a) and isc(b): return iconst(a.args[0] // b.args[0])
    return mk('idiv', (a, b), 'I')

# ---------------------------------------------------------------- IEEE ops
def fop(op, a, b):
    if a.op == 'fconst' and b.op == 'fconst':
        import numpy as np
        with np.errstate(all='ignore'):
            f = {'fp.add': np.add, 'fp.sub': np.subtract, 'fp.mul': np.multiply, 'fp.div': np.divide}[op]
            return fconst(float(f(np.float64(fval(a)), np.float64(fval(b)))))
    return mk(op, (a, b), 'F')
def fcmp(op, a, b):
    if a.op == 'fconst' and b.op == 'fconst':
        x, y = fval(a), fval(b)
        r = {'fp.lt': x < y, 'fp.le': x <= y, 'fp.eq': x == y}[op]
        return TRUE if r else FALSE
    return mk(op, (a, b), 'B')
def isnan(a):
    if a.sort == 'F':
        if a.op == 'fconst': return TRUE if math.isnan(fval(a)) else FALSE
        return mk('fp.isnan', (a,), 'B')
    return TRUE if special(a) and a.args[0] == 'nan' else FALSE
def isinf(a):
    if a.sort == 'F':
        if a.op == 'fconst': return TRUE if math.isinf(fval(a)) else FALSE
        return mk('fp.isinf', (a,), 'B')
    return TRUE if special(a) and a.args[0] != 'nan' else FALSE

# ---------------------------------------------------------------- printing / evaluation
def show(n, depth=6):
    if n.op == 'const': return str(n.args[0])
    if n.op == 'fconst': return repr(fval(n)) + 'f'
    if n.op == 'var': return n.args[0]
    if depth == 0: return '...'
    return '(' + n.op + ' ' + ' '.join(show(a, depth - 1) if type(a) is Node else str(a) for a in n.args) + ')'

def evaluate(nodes, asg, memo=None, missing=None):
    """numeric evaluation (Python floats / IEEE) under an assignment name -> value.
    `missing(name)` supplies values for variables not in asg (stub results, objective values)."""
    memo = {} if memo is None else memo
    import numpy as np
    def ev(root):
        stack = [root]
        while stack:
            n = stack[-1]
            if n.id in memo: stack.pop(); continue
            if n.op == 'ite':
                c = n.args[0]
                if c.id not in memo: stack.append(c); continue
                pick = n.args[1] if memo[c.id] else n.args[2]
                if pick.id not in memo: stack.append(pick); continue
                memo[n.id] = memo[pick.id]; stack.pop(); continue
            todo = [a for a in n.args if type(a) is Node and a.id not in memo]
            if todo:
                stack.extend(todo); continue
            memo[n.id] = one(n); stack.pop()
        return memo[root.id]
    def one(n):
        op = n.op; A = [memo[a.id] for a in n.args if type(a) is Node]
        if op == 'const':
            v = cval(n)
            return v if isinstance(v, bool) else (int(v) if n.sort == 'I' else float(v))
        if op == 'fconst': return np.float64(fval(n))
        if op == 'var':
            nm = n.args[0]
            if nm in asg: return asg[nm]
            v = missing(nm)
            asg[nm] = v
            return v
        with np.errstate(all='ignore'):
            if op == 'add': return A[0] + A[1]
            if op == 'mul': return A[0] * A[1]
            if op == 'div': return float(np.float64(A[0]) / np.float64(A[1]))
            if op == 'toreal': return float(A[0])
            if op == 'imod': return A[0] % A[1]
            if op == 'idiv': return A[0] // A[1]
            if op == 'lt': return A[0] < A[1]
            if op == 'eq': return A[0] == A[1]
            if op == 'not': return not A[0]
            if op == 'and': return all(A)
            if op.startswith('fn:'):
                nm = op[3:]
                if nm == 'pow': return float(np.power(np.float64(A[0]), np.float64(A[1])))
                return float(getattr(np, nm)(*[np.float64(a) for a in A]))
            if op == 'fp.add': return np.float64(A[0]) + np.float64(A[1])
            if op == 'fp.sub': return np.float64(A[0]) - np.float64(A[1])
            if op == 'fp.mul': return np.float64(A[0]) * np.float64(A[1])
            if op == 'fp.div': return np.float64(A[0]) / np.float64(A[1])
            if op == 'fp.neg': return -np.float64(A[0])
            if op == 'fp.abs': return abs(np.float64(A[0]))
            if op == 'fp.lt': return bool(A[0] < A[1])
            if op == 'fp.le': return bool(A[0] <= A[1])
            if op == 'fp.eq': return bool(A[0] == A[1])
            if op == 'fp.isnan': return bool(np.isnan(A[0]))
            if op == 'fp.isinf': return bool(np.isinf(A[0]))
            if op == 'fp.isneg': return bool(np.signbit(A[0]))
        raise Unsupported('evaluate ' + op)
    return [ev(n) for n in nodes]

def variables(nodes):
    seen = set(); out = []
    st = list(nodes)
    while st:
        n = st.pop()
        if n.id in seen: continue
        seen.add(n.id)
        if n.op == 'var': out.append(n)
        st.extend(a for a in n.args if type(a) is Node)
    return out
