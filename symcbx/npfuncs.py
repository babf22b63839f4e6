"""numpy-level functions on symbolic arrays, and the numpy module proxy given to the code under test."""
import builtins, math, operator, sys, types
from fractions import Fraction
import numpy as np
from . import nodes as N
from .nodes import Unsupported
from . import symval as S

HANDLED = {}
def handles(*fs):
    def deco(f):
        for x in fs: HANDLED[x] = f
        return f
    return deco

def base(x):
    if type(x) is S.SymArray: return x.view(np.ndarray)
    if type(x) is S.Sym: return S.asym(x).view(np.ndarray)
    if type(x) is list: return [base(v) for v in x]
    if type(x) is tuple: return tuple(base(v) for v in x)
    return x
def rewrap(r):
    if isinstance(r, np.ndarray):
        if r.dtype == object: 
            if type(r) is S.SymArray: return r
            if r.size and not all(type(v) is S.Sym for v in r.reshape(-1)): r2 = S.asym(r); return r2
            return r.view(S.SymArray)
        return r
    if type(r) in (list, tuple): return type(r)(rewrap(v) for v in r)
    return r

def objlist(seq):
    """make every array of a sequence an object array if one is symbolic"""
    return [S.asym(v).view(np.ndarray) for v in seq]

SHAPE = {}
for nm in '''reshape ravel moveaxis swapaxes transpose rollaxis roll flip fliplr flipud rot90 squeeze expand_dims
 broadcast_to broadcast_arrays atleast_1d atleast_2d atleast_3d tile repeat diagonal diag tril triu split array_split
 hsplit vsplit dsplit take_along_axis shape ndim size copy permute_dims matrix_transpose unstack resize delete
 diagflat trim_zeros'''.split():
    if hasattr(np, nm): SHAPE[getattr(np, nm)] = nm
SHAPE[np.linalg.matrix_transpose] = 'matrix_transpose' if hasattr(np.linalg, 'matrix_transpose') else ''
SEQ = {getattr(np, nm) for nm in 'concatenate stack vstack hstack dstack column_stack append insert block meshgrid ix_'.split() if hasattr(np, nm)}
PURE = {getattr(np, nm) for nm in 'average outer kron cross diff trapezoid ediff1d vander polyval cov'.split() if hasattr(np, nm)}

def array_function(func, types_, args, kwargs):
    h = HANDLED.get(func)
    if h is not None: return h(*args, **kwargs)
    if func is np.take_along_axis and type(args[1]) is S.SymArray:
        arr, ind = S.asym(args[0]), args[1]; ax = kwargs.get('axis', args[2] if len(args) > 2 else -1)
        if ax is not None and arr.ndim == ind.ndim:
            ax %= arr.ndim
            bc = np.broadcast_shapes(tuple(1 if k == ax else n for k, n in enumerate(arr.shape)), tuple(1 if k == ax else n for k, n in enumerate(ind.shape)))
            if all(k == ax or bc[k] == ind.shape[k] for k in range(arr.ndim)):
                return arr[tuple(ind if k == ax else np.arange(arr.shape[k]).reshape([-1 if j == k else 1 for j in range(arr.ndim)]) for k in range(arr.ndim))]
    if func in SHAPE:
        a = tuple(S.fix_index1(x) if False else base(x) for x in args)
        kw = {k: base(v) for k, v in kwargs.items()}
        if func is np.take_along_axis: a = (a[0], S.fix_index1(args[1]) if type(args[1]) is S.SymArray else args[1]) + a[2:]
        return rewrap(func(*a, **kw))
    if func in SEQ:
        return rewrap(seqfunc(func, args, kwargs))
    if func in PURE:
        return rewrap(func._implementation(*args, **kwargs)) if hasattr(func, '_implementation') else rewrap(func.__wrapped__(*args, **kwargs))
    raise Unsupported('numpy function %s on symbolic data' % getattr(func, '__name__', func))

def seqfunc(func, args, kwargs):
    kwargs = dict(kwargs)
    out = kwargs.pop('out', None)
    if func in (np.append, np.insert, np.meshgrid):
        a = tuple(S.asym(x).view(np.ndarray) if isinstance(x, np.ndarray) or type(x) is S.Sym else x for x in args)
        r = func(*a, **kwargs)
    else:
        r = func(objlist(args[0]), *args[1:], **kwargs)
    r = rewrap(r)
    return S.assign_out(out, r) if out is not None else r

def _red(name):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True, **k):
        if keepdims is np._NoValue: keepdims = False
        if initial is np._NoValue: initial = None
        if where is np._NoValue: where = True
        kw = dict(axis=axis, out=out, keepdims=keepdims)
        if name in ('sum', 'prod', 'max', 'min'): kw.update(initial=initial)
        kw.update(where=where)
        return getattr(S.asym(a), name)(**kw)
    return f
HANDLED[np.sum] = _red('sum'); HANDLED[np.prod] = _red('prod')
def _red2(name):
    g = _red(name)
    return lambda a, axis=None, out=None, keepdims=False, initial=None, where=True: g(a, axis, None, out, keepdims, initial, where)
for nm in ('max', 'amax'): HANDLED[getattr(np, nm)] = _red2('max')
for nm in ('min', 'amin'): HANDLED[getattr(np, nm)] = _red2('min')
HANDLED[np.any] = lambda a, axis=None, out=None, keepdims=False, where=True: _red('any')(a, axis, None, out, keepdims, None, where)
HANDLED[np.all] = lambda a, axis=None, out=None, keepdims=False, where=True: _red('all')(a, axis, None, out, keepdims, None, where)
HANDLED[np.mean] = lambda a, axis=None, dtype=None, out=None, keepdims=False, where=True: S.asym(a).mean(axis, None, out, False if keepdims is np._NoValue else keepdims, True if where is np._NoValue else where)
HANDLED[np.var] = lambda a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k: S.asym(a).var(axis, ddof=ddof, keepdims=False if keepdims is np._NoValue else keepdims)
HANDLED[np.std] = lambda a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k: S.asym(a).std(axis, ddof=ddof, keepdims=False if keepdims is np._NoValue else keepdims)
HANDLED[np.ptp] = lambda a, axis=None, **k: S.asym(a).ptp(axis)
HANDLED[np.argmin] = lambda a, axis=None, out=None, keepdims=False: S.asym(a).argmin(axis, keepdims=False if keepdims is np._NoValue else keepdims)
HANDLED[np.argmax] = lambda a, axis=None, out=None, keepdims=False: S.asym(a).argmax(axis, keepdims=False if keepdims is np._NoValue else keepdims)
HANDLED[np.cumsum] = lambda a, axis=None, **k: S.asym(a).cumsum(axis)
HANDLED[np.cumprod] = lambda a, axis=None, **k: S.array_ufunc(np.multiply, 'accumulate', (S.asym(a).reshape(-1) if axis is None else S.asym(a),), {'axis': 0 if axis is None else axis})
HANDLED[np.nanmin] = lambda a, axis=None, **k: S.ufunc_reduce(np.fmin, a, axis)
HANDLED[np.nanmax] = lambda a, axis=None, **k: S.ufunc_reduce(np.fmax, a, axis)

@handles(np.clip)
def clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **kw):
    if a_min is np._NoValue: a_min = None
    if a_max is np._NoValue: a_max = None
    lo = a_min if a_min is not None else (None if min is np._NoValue else min)
    hi = a_max if a_max is not None else (None if max is np._NoValue else max)
    if lo is None and hi is None: return S.asym(a).copy()
    r = S.asym(a).clip(lo, hi)
    r = S.scal(r) if not isinstance(a, np.ndarray) else r
    return S.assign_out(out, r) if out is not None else r

@handles(np.where)
def where(c, *ab):
    if not ab:
        return tuple(S.iarr(v) for v in (np.nonzero(S.concretize_mask(tobool(c))) if S.any_sym(c) else np.nonzero(np.asarray(c))))
    return S.scal(S.where3(c, ab[0], ab[1]))
def tobool(a):
    a = S.asym(a)
    r = S.tidy(S.elementwise(N.toB, [a], 1))
    return r if type(r) is S.SymArray else np.asarray(r)
def cmask(a):
    b = tobool(a)
    return S.concretize_mask(b) if type(b) is S.SymArray else b
@handles(np.nonzero)
def nonzero(a): return tuple(S.iarr(v) for v in np.nonzero(cmask(a)))
@handles(np.flatnonzero)
def flatnonzero(a): return S.iarr(np.flatnonzero(cmask(a)))
@handles(np.argwhere)
def argwhere(a): return np.argwhere(cmask(a))
@handles(np.count_nonzero)
def count_nonzero(a, axis=None, keepdims=False):
    return S.asym(S.elementwise(N.toB, [a], 1).view(S.SymArray)).sum(axis=axis, keepdims=keepdims)
@handles(np.extract)
def extract(c, a): return S.asym(a).reshape(-1)[cmask(c).reshape(-1)]
@handles(np.compress)
def compress(c, a, axis=None, out=None): return rewrap(np.compress(cmask(c), base(S.asym(a)), axis=axis))
@handles(np.take)
def take(a, idx, axis=None, out=None, mode='raise'):
    i = S.fix_index1(idx)
    r = np.take(base(S.asym(a)), i, axis=axis, mode=mode)
    return rewrap(r)
@handles(np.put_along_axis)
def put_along_axis(arr, indices, values, axis):
    v = S.asym(values).view(np.ndarray)
    np.put_along_axis(base(arr), S.fix_index1(indices), v, axis)
@handles(np.putmask)
def putmask(a, mask, values): a[cmask(mask)] = S.asym(values) if not isinstance(values, np.ndarray) or values.shape != a.shape else values[cmask(mask)]
@handles(np.copyto)
def copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = S.asym(np.broadcast_to(base(S.asym(src)), dst.shape))
    else: dst[...] = S.where3(where, src, dst)
@handles(np.place)
def place(a, m, v): a[cmask(m)] = v
@handles(np.fill_diagonal)
def fill_diagonal(a, v, wrap=False):
    b = base(a); np.fill_diagonal(b, S.asym(v)[()] if np.ndim(v) == 0 else base(S.asym(v)))
@handles(np.select)
def select(conds, choices, default=0):
    r = S.asym(default)
    for c, ch in reversed(list(zip(conds, choices))): r = S.where3(c, ch, r)
    return r
@handles(np.piecewise)
def piecewise(*a, **k): raise Unsupported('piecewise')

@handles(np.nan_to_num)
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    a = S.asym(x)
    mx = float(np.finfo(float).max)
    nan, posinf, neginf = S.node(nan), S.node(mx if posinf is None else posinf), S.node(-mx if neginf is None else neginf)
    def f(n):
        if n.sort == 'F':
            t = N.ite(N.isinf(n), N.ite(N.lt(n, N.fconst(0.0)), N.toF(neginf), N.toF(posinf)), n)
            return N.ite(N.isnan(n), N.toF(nan), t)
        if N.special(n): return {'nan': nan, 'inf': posinf, '-inf': neginf}[n.args[0]]
        return n
    r = S.elementwise(f, [a], 1).view(S.SymArray)
    if not copy and type(x) is S.SymArray:
        x[...] = r; return x
    return S.scal(r)

@handles(np.isclose)
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if N.special(x) or N.special(y): return N.eq(x, y)
        lhs = S.e_abs(N.sub(x, y)); rhs = N.add(S.node(atol), N.mul(S.node(rtol), S.e_abs(y)))
        return N.le(N.toR(lhs), N.toR(rhs))
    return S.scal(S.tidy(S.elementwise(f, [a, b], 2)))
@handles(np.allclose)
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False): return bool(S.asym(isclose(a, b, rtol, atol)).all())
@handles(np.array_equal)
def array_equal(a, b, equal_nan=False):
    a, b = S.asym(a), S.asym(b)
    if a.shape != b.shape: return False
    return bool(S.asym(a == b).all())
@handles(np.isposinf)
def isposinf(a, out=None): return S.scal(S.tidy(S.elementwise(lambda n: N.and_(S.e_isinf(n), N.lt(S.zero(n), n)), [a], 1)))
@handles(np.isneginf)
def isneginf(a, out=None): return S.scal(S.tidy(S.elementwise(lambda n: N.and_(S.e_isinf(n), N.lt(n, S.zero(n))), [a], 1)))
@handles(np.real)
def real(a): return a
@handles(np.isreal)
def isreal(a): return np.ones(np.shape(a), dtype=bool)
@handles(np.sort)
def sort(a, axis=-1, **k): return S.np_sort(a, axis)
@handles(np.argsort)
def argsort(a, axis=-1, **k): return S.sort_idx(a, axis)
@handles(np.argpartition)
def argpartition(a, kth, axis=-1, **k): return S.sort_idx(a, axis)
@handles(np.partition)
def partition(a, kth, axis=-1, **k): return S.np_sort(a, axis)
@handles(np.median)
def median(a, axis=None, keepdims=False, **k):
    b = S.np_sort(a, axis); ax = 0 if axis is None else axis; n = b.shape[ax]
    lo, hi = np.take(b, (n - 1) // 2, axis=ax), np.take(b, n // 2, axis=ax)
    r = (lo + hi) / 2
    return np.expand_dims(r, ax) if keepdims and axis is not None else r
@handles(np.unique)
def unique(a, **k):
    raise Unsupported('unique on symbolic data')
@handles(np.dot)
def dot(a, b, out=None): return S.np_dot(a, b)
@handles(np.vdot)
def vdot(a, b): return S.np_dot(S.asym(a).reshape(-1), S.asym(b).reshape(-1))
@handles(np.inner)
def inner(a, b):
    a, b = S.asym(a), S.asym(b)
    if a.ndim == 0 or b.ndim == 0: return a * b
    return tensordot(a, b, axes=(-1, -1))
@handles(np.tensordot)
def tensordot(a, b, axes=2):
    a, b = S.asym(a), S.asym(b)
    if isinstance(axes, int): aa = list(range(a.ndim - axes, a.ndim)); bb = list(range(axes))
    else:
        aa, bb = axes
        aa = [aa] if isinstance(aa, int) else list(aa); bb = [bb] if isinstance(bb, int) else list(bb)
    aa = [x % a.ndim for x in aa]; bb = [x % b.ndim for x in bb]
    ka = [i for i in range(a.ndim) if i not in aa]; kb = [i for i in range(b.ndim) if i not in bb]
    n = int(np.prod([a.shape[i] for i in aa], dtype=int))
    A = a.transpose(ka + aa).reshape(-1, n); B = b.transpose(bb + kb).reshape(n, -1)
    r = S.matmul(A, B).reshape([a.shape[i] for i in ka] + [b.shape[i] for i in kb])
    return S.scal(r)
@handles(np.trace)
def trace(a, offset=0, axis1=0, axis2=1, **k):
    return rewrap(np.diagonal(base(S.asym(a)), offset, axis1, axis2)).sum(axis=-1)
@handles(np.linalg.trace) if hasattr(np.linalg, 'trace') else (lambda f: f)
def ltrace(a, offset=0, **k): return trace(a, offset, -2, -1)

@handles(np.einsum)
def einsum(sub, *ops, **kw):
    if not isinstance(sub, str): raise Unsupported('einsum operand format')
    ops = [S.asym(o).view(np.ndarray) for o in ops]
    sub = sub.replace(' ', '')
    ins, _, out = sub.partition('->')
    ins = ins.split(',')
    # expand ellipsis
    nell = 0
    for t, o in zip(ins, ops):
        if '...' in t: nell = max(nell, o.ndim - len(t.replace('...', '')))
    ell = [chr(0x3b1 + i) for i in range(nell)]
    labs = []
    for t, o in zip(ins, ops):
        if '...' in t:
            k = o.ndim - (len(t) - 3)
            i = t.index('...')
            labs.append(list(t[:i]) + ell[nell - k:] + list(t[i + 3:]))
        else: labs.append(list(t))
    if '->' in sub:
        if '...' in out:
            i = out.index('...'); ol = list(out[:i]) + ell + list(out[i + 3:])
        else: ol = list(out)
    else:
        cnt = {}
        for l in labs:
            for ch in l: cnt[ch] = cnt.get(ch, 0) + 1
        ol = ell + sorted(ch for ch in cnt if cnt[ch] == 1 and ch not in ell)
    dims = {}
    for l, o in zip(labs, ops):
        if len(l) != o.ndim: raise ValueError('einsum: operand has wrong number of dimensions')
        for ch, s in zip(l, o.shape):
            if dims.get(ch, 1) == 1: dims[ch] = s
            elif s not in (1, dims[ch]): raise ValueError('einsum: dimension mismatch')
    sumd = [ch for ch in dims if ch not in ol]
    res = np.empty([dims[c] for c in ol], dtype=object)
    for ix in np.ndindex(*res.shape):
        env = dict(zip(ol, ix)); acc = None
        for jx in np.ndindex(*[dims[c] for c in sumd]):
            env.update(zip(sumd, jx)); p = None
            for l, o in zip(labs, ops):
                v = S._num(o[tuple(env[c] if o.shape[q] > 1 else 0 for q, c in enumerate(l))].n)
                p = v if p is None else S.e_mul(p, v)
            acc = p if acc is None else S.e_add(acc, p)
        res[ix] = S.Sym(acc if acc is not None else N.const(Fraction(0)))
    return S.scal(res.view(S.SymArray))

@handles(np.apply_along_axis)
def apply_along_axis(func1d, axis, arr, *args, **kwargs):
    a = S.asym(arr); axis = axis % a.ndim
    t = np.moveaxis(a.view(np.ndarray), axis, -1)
    outs = None; whole = False
    for ix in np.ndindex(*t.shape[:-1]):
        r = func1d(t[ix].view(S.SymArray), *args, **kwargs)
        fixed = not isinstance(r, (S.Sym, S.SymArray)) and np.asarray(r).dtype.kind in 'iub'
        r = S.asym(r).view(np.ndarray); fixed = fixed or (r.size > 0 and all(v.n.sort in 'IB' for v in r.reshape(-1)))
        if outs is None: whole = fixed       # the first result decides the type of all
        elif whole and not fixed: raise Unsupported('results are rounded to integers')
        if outs is None: outs = np.empty(t.shape[:-1] + r.shape, dtype=object)
        if r.ndim: outs[ix] = r
        else: outs[ix] = r[()]
    if outs is None: raise ValueError('Cannot apply_along_axis when any iteration dimensions are 0')
    nd = t.ndim - 1; extra = outs.ndim - nd
    if extra:
        outs = np.moveaxis(outs, list(range(nd, nd + extra)), list(range(axis, axis + extra)))
    return S.tidy(outs)
@handles(np.apply_over_axes)
def apply_over_axes(*a): raise Unsupported('apply_over_axes')

for nm, val in (('zeros_like', 0.0), ('ones_like', 1.0), ('empty_like', 0.0)):
    def _mk(val):
        def f(a, dtype=None, order='K', subok=True, shape=None, **k):
            shp = np.shape(a) if shape is None else shape
            if dtype is not None and not is_float(dtype): return np.full(shp, val, dtype=dtype)
            return S.asym(np.full(shp, val))
        return f
    HANDLED[getattr(np, nm)] = _mk(val)
@handles(np.full_like)
def full_like(a, v, dtype=None, order='K', subok=True, shape=None, **k):
    return PROXY.full(np.shape(a) if shape is None else shape, v, dtype=dtype)
def is_float(dtype):
    if dtype is None or dtype is float: return True
    if dtype is object: return True
    try: return np.issubdtype(np.dtype(dtype), np.floating) or np.dtype(dtype) == object
    except TypeError: return False

# ------------------------------------------------------------------------------ linear algebra
@handles(np.linalg.norm)
def norm(x, ord=None, axis=None, keepdims=False):
    a = S.asym(x)
    if a.ndim == 0: a = a.reshape(1)
    if axis is None:
        if ord is None or (a.ndim <= 1):
            if ord is None and a.ndim != 1:
                r = np.sqrt((a.reshape(-1) ** 2).sum())
                return S.asym(r).reshape((1,) * a.ndim) if keepdims else r
            axis = (0,) if a.ndim == 1 else None
        elif a.ndim == 2: axis = (0, 1)
        else: raise ValueError('Improper number of dimensions to norm.')
    ax = S.norm_axes(axis, a.ndim)
    if len(ax) == 1:
        if type(ord) is S.Sym: raise Unsupported('symbolic norm order')
        if ord is None or ord == 2: return np.sqrt((a * a).sum(axis=ax, keepdims=keepdims))
        if ord == np.inf: return np.abs(a).max(axis=ax, keepdims=keepdims)
        if ord == -np.inf: return np.abs(a).min(axis=ax, keepdims=keepdims)
        if ord == 1: return np.abs(a).sum(axis=ax, keepdims=keepdims)
        if ord == 0: return S.asym(a != 0).sum(axis=ax, keepdims=keepdims)
        return (np.abs(a) ** ord).sum(axis=ax, keepdims=keepdims) ** (1 / ord)
    if len(ax) == 2:
        if ord in (None, 'fro', 'f'): return np.sqrt((a * a).sum(axis=ax, keepdims=keepdims))
        if ord == 1: return np.abs(a).sum(axis=ax[0], keepdims=True).max(axis=ax, keepdims=keepdims)
        if ord == np.inf: return np.abs(a).sum(axis=ax[1], keepdims=True).max(axis=ax, keepdims=keepdims)
        raise Unsupported('matrix norm of order %r' % (ord,))
    raise ValueError('Improper number of dimensions to norm.')
if hasattr(np.linalg, 'vector_norm'):
    @handles(np.linalg.vector_norm)
    def vector_norm(x, axis=None, keepdims=False, ord=2):
        a = S.asym(x)
        if axis is None:
            r = norm(a.reshape(-1), ord); return S.asym(r).reshape((1,) * a.ndim) if keepdims else r
        ax = S.norm_axes(axis, a.ndim)
        if len(ax) > 1:
            keep = [i for i in range(a.ndim) if i not in ax]
            b = a.transpose(keep + list(ax)).reshape([a.shape[i] for i in keep] + [-1])
            r = norm(b, ord, axis=-1)
            return S.asym(r).reshape([1 if i in ax else a.shape[i] for i in range(a.ndim)]) if keepdims else r
        return norm(a, ord, ax[0], keepdims)

def det_nodes(m):
    n = len(m)
    if n == 1: return m[0][0]
    r = None
    for j in range(n):
        minor = [[row[k] for k in range(n) if k != j] for row in m[1:]]
        t = N.mul(m[0][j], det_nodes(minor))
        if j % 2: t = N.neg(t)
        r = t if r is None else N.add(r, t)
    return r
def inv_nodes(m):
    n = len(m)
    if n > 3: raise Unsupported('matrix inverse beyond 3x3')
    d = det_nodes(m)
    if not S.ctx().guard('singular', N.not_(N.eq(d, N.const(Fraction(0))))): raise np.linalg.LinAlgError('Singular matrix')
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if n == 1: c = N.const(Fraction(1))
            else:
                c = det_nodes([[m[r][k] for k in range(n) if k != i] for r in range(n) if r != j])
                if (i + j) % 2: c = N.neg(c)
            out[i][j] = N.div(c, d)
    return out
def inv_arr(A):
    A = S.asym(A).view(np.ndarray)
    out = np.empty(A.shape, dtype=object)
    for ix in np.ndindex(*A.shape[:-2]):
        m = [[N.toR(v.n) for v in row] for row in A[ix]]
        r = inv_nodes(m)
        for i in range(len(r)):
            for j in range(len(r)): out[ix + (i, j)] = S.Sym(r[i][j])
    return out.view(S.SymArray)
@handles(np.linalg.inv)
def inv(A): return inv_arr(A)
@handles(np.linalg.det)
def det(A):
    A = S.asym(A).view(np.ndarray)
    out = np.empty(A.shape[:-2], dtype=object)
    for ix in np.ndindex(*out.shape): out[ix] = S.Sym(det_nodes([[N.toR(v.n) for v in row] for row in A[ix]]))
    return S.scal(out.view(S.SymArray))
@handles(np.linalg.solve)
def solve(A, b):
    A, b = S.asym(A), S.asym(b)
    if A.shape[-1] != A.shape[-2]: raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    if b.ndim == 1: return S.matmul(inv_arr(A), b)
    return S.matmul(inv_arr(A), b)

def rot_stub(tag):
    """an arbitrary 2x2 orthogonal matrix [[c,-s],[s,c]] * diag(1,e), e=+-1"""
    c = S.ctx()
    cs = N.var(c.fresh('stub:%s.c' % tag)); one = N.const(Fraction(1))
    c.assume(N.le(N.neg(one), cs)); c.assume(N.le(cs, one))
    s = N.fn('sqrt', N.sub(one, N.mul(cs, cs)))
    return cs, s
@handles(np.linalg.eigh)
def eigh(A, UPLO='L'):
    A = S.asym(A).view(np.ndarray); n = A.shape[-1]
    W = np.empty(A.shape[:-1], dtype=object); V = np.empty(A.shape, dtype=object)
    c = S.ctx()
    for ix in np.ndindex(*A.shape[:-2]):
        m = [[N.toR(v.n) for v in row] for row in A[ix]]
        # numpy reads only the lower triangle
        if n == 1:
            W[ix + (0,)] = S.Sym(m[0][0]); V[ix + (0, 0)] = S.Sym(N.const(Fraction(1)))
        elif n == 2:
            cs, s = rot_stub('eigh')
            w = [N.var(c.fresh('stub:eigh.w')) for _ in range(2)]
            c.assume(N.le(w[0], w[1]))
            low = [m[0][0], m[1][0], m[1][1]]
            def dec(ev, low=low):
                a, b, d = [float(t) for t in ev(low)]
                return np.linalg.eigh(np.array([[a, b], [b, d]]))
            def dcs(ev, dec=dec):
                v = dec(ev)[1][:, 0]
                return float(v[0] if v[1] >= 0 else -v[0])
            c.defs[cs.args[0]] = dcs
            for q in range(2): c.defs[w[q].args[0]] = lambda ev, q=q, dec=dec: float(dec(ev)[0][q])
            if getattr(c, 'psd', False): c.posvars.update(v.args[0] for v in w); [c.add(N.lt(N.const(Fraction(0)), v)) for v in w]
            v = [[cs, N.neg(s)], [s, cs]]
            for i in range(2):
                for j in range(i + 1):
                    t = N.add(N.mul(N.mul(v[i][0], v[j][0]), w[0]), N.mul(N.mul(v[i][1], v[j][1]), w[1]))
                    c.add(N.eq(m[i][j], t)) if not N.isc(N.eq(m[i][j], t)) else None
            for i in range(2):
                W[ix + (i,)] = S.Sym(w[i])
                for j in range(2): V[ix + (i, j)] = S.Sym(v[i][j])
        else: raise Unsupported('eigh beyond 2x2')
    from collections import namedtuple
    return namedtuple('EighResult', 'eigenvalues eigenvectors')(W.view(S.SymArray), V.view(S.SymArray))
def matkey(m):
    """the same matrix (up to normal form) has the same decomposition"""
    from .canon import Canon, NeedSplit
    c = S.ctx()
    if not hasattr(c, 'mat_canon'): c.mat_canon = Canon(); c.mat_canon.opaque_ite = True; c.mat_canon.posvars = c.posvars
    try: return tuple(c.mat_canon.rkey(c.mat_canon.rf(v)) for row in m for v in row)
    except (Unsupported, NeedSplit): return tuple(v.id for row in m for v in row)
@handles(np.linalg.svd)
def svd(A, full_matrices=True, compute_uv=True, hermitian=False):
    A = S.asym(A).view(np.ndarray); n, k = A.shape[-2:]
    if not compute_uv: raise Unsupported('svd without vectors')
    r = min(n, k)
    if full_matrices and n != k: raise Unsupported('full svd')
    bs = A.shape[:-2]
    U = np.empty(bs + (n, r), dtype=object); W = np.empty(bs + (r,), dtype=object); Vh = np.empty(bs + (r, k), dtype=object)
    one = N.const(Fraction(1)); c = S.ctx()
    for ix in np.ndindex(*bs):
        m = [[N.toR(v.n) for v in row] for row in A[ix]]
        if k == 1 or n == 1:
            vec = [row[0] for row in m] if k == 1 else m[0]
            q = None
            for v in vec: q = N.mul(v, v) if q is None else N.add(q, N.mul(v, v))
            l = S.e_sqrt(q)
            W[ix + (0,)] = S.Sym(l)
            for i, v in enumerate(vec):
                t = S.Sym(S.e_div(v, l))
                if k == 1: U[ix + (i, 0)] = t
                else: Vh[ix + (0, i)] = t
            if k == 1: Vh[ix + (0, 0)] = S.Sym(one)
            else: U[ix + (0, 0)] = S.Sym(one)
        elif n == 2 and k == 2:
            memo = c.__dict__.setdefault('svd_memo', {}); key = matkey(m)
            if key in memo:
                for arr, val in zip((U, W, Vh), memo[key]): arr[ix] = val
                continue
            def dec(ev, m=m):
                q = [float(t) for row in m for t in ev(row)]
                return np.linalg.svd(np.array(q).reshape(2, 2))
            def sign(tag, get):
                v = N.var(c.fresh('stub:svd.' + tag), 'B')
                c.defs[v.args[0]] = lambda ev: bool(get(dec(ev)) >= 0)
                return one if c.decide(v) else N.neg(one)
            cu, su = rot_stub('svdU'); cv, sv = rot_stub('svdV')
            c.defs[cu.args[0]] = lambda ev, dec=dec: float(dec(ev)[0][0, 0]); c.defs[cv.args[0]] = lambda ev, dec=dec: float(dec(ev)[2][0, 0])
            su = N.mul(sign('su', lambda t: t[0][1, 0]), su); sv = N.mul(sign('sv', lambda t: t[2][0, 1]), sv)
            e = sign('eu', lambda t: np.linalg.det(t[0])); f = sign('ev', lambda t: np.linalg.det(t[2]))
            w = [N.var(c.fresh('stub:svd.s')) for _ in range(2)]
            for q in range(2): c.defs[w[q].args[0]] = lambda ev, q=q, dec=dec: float(dec(ev)[1][q])
            c.assume(N.le(w[1], w[0])); c.assume(N.le(N.const(Fraction(0)), w[1]))
            u = [[cu, N.neg(N.mul(e, su))], [su, N.mul(e, cu)]]
            vh = [[cv, sv], [N.neg(N.mul(f, sv)), N.mul(f, cv)]]
            for i in range(2):
                for j in range(2):
                    t = N.add(N.mul(N.mul(u[i][0], w[0]), vh[0][j]), N.mul(N.mul(u[i][1], w[1]), vh[1][j]))
                    q = N.eq(m[i][j], t)
                    if not N.isc(q): c.add(q)
                    U[ix + (i, j)] = S.Sym(u[i][j]); Vh[ix + (i, j)] = S.Sym(vh[i][j])
                W[ix + (i,)] = S.Sym(w[i])
            memo[key] = (U[ix].copy(), W[ix].copy(), Vh[ix].copy())
        else: raise Unsupported('svd %dx%d' % (n, k))
    from collections import namedtuple
    return namedtuple('SVDResult', 'U S Vh')(U.view(S.SymArray), W.view(S.SymArray), Vh.view(S.SymArray))

# ------------------------------------------------------------------------------ scipy.special
def logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
    """contract: log(sum(b*exp(a))), evaluated without overflow; bounded below by max(a)"""
    if return_sign: raise Unsupported('logsumexp(return_sign)')
    A = S.asym(a)
    if b is not None: raise Unsupported('logsumexp(b)')
    def f(row):
        row = [N.toR(x) for x in row]
        for x in row:
            if N.special(x) and x.args[0] in ('nan', 'inf'): return x
        fin = [x for x in row if not N.special(x)]
        if not fin: return row[0]
        row = fin
        if len(row) == 1: return row[0]
        if LSE_HOOK is not None: return LSE_HOOK(row)
        s = None
        for x in row:
            e = N.fn('exp', x); s = e if s is None else N.add(s, e)
        return N.fn('log', s)
    if A.ndim == 0: return a
    r = S.scal(S.reduce_nodes(A.view(np.ndarray), axis, keepdims, f, None).view(S.SymArray))
    return r
LSE_HOOK = None
def softmax(x, axis=None):
    if LSE_HOOK is not None:                       # scipy's algorithm: exp(w - max) / sum
        x = S.asym(x); e = np.exp(x - np.max(x, axis=axis, keepdims=True))
        return e / np.sum(e, axis=axis, keepdims=True)
    return np.exp(S.asym(x) - logsumexp(x, axis=axis, keepdims=True))
def log_softmax(x, axis=None):
    return S.asym(x) - logsumexp(x, axis=axis, keepdims=True)
def xlogy(x, y): return S.asym(x) * np.log(S.asym(y))
def expit(x): return 1 / (1 + np.exp(-S.asym(x)))

# ------------------------------------------------------------------------------ module proxies
class ModProxy(types.ModuleType):
    def __init__(self, name, real, over):
        super().__init__(name)
        object.__setattr__(self, '_real', real); self.__dict__.update(over)
        for a in ('__path__', '__file__', '__spec__', '__package__', '__loader__'):
            if hasattr(real, a): self.__dict__[a] = getattr(real, a)
    def __getattr__(self, k):
        v = getattr(object.__getattribute__(self, '_real'), k)
        if callable(v) and not isinstance(v, type) and not k.startswith('__'):
            w = wrapfn(v)
            self.__dict__[k] = w
            return w
        return v
    def __dir__(self): return dir(object.__getattribute__(self, '_real'))

def wrapfn(f):
    if isinstance(f, np.ufunc): return UfuncProxy(f)
    if f in HANDLED or f in SHAPE or f in SEQ or f in PURE:
        def g(*a, **k):
            if S.any_sym(a) or (k and S.any_sym(k)): return array_function(f, (), a, k)
            return f(*a, **k)
    else:
        def g(*a, **k):
            if S.any_sym(a) or (k and S.any_sym(k)):
                return array_function(f, (), a, k)
            return f(*a, **k)
    g.__name__ = getattr(f, '__name__', 'f'); g.__wrapped__ = f
    return g

class UfuncProxy:
    """ufunc whose results on lists of symbols also work"""
    def __init__(self, f): self.f = f
    def __call__(self, *a, **k):
        if S.any_sym(a):
            for x in a:
                if type(x).__name__ == 'TT': return x.__array_ufunc__(self.f, '__call__', *a, **k)
            return S.array_ufunc(self.f, '__call__', a, dict(k))
        return self.f(*a, **k)
    def reduce(self, a, axis=0, **k):
        if S.any_sym(a): return S.ufunc_reduce(self.f, a, axis, **k)
        return self.f.reduce(a, axis=axis, **k)
    def accumulate(self, a, axis=0, **k):
        if S.any_sym(a): return S.array_ufunc(self.f, 'accumulate', (a,), {'axis': axis})
        return self.f.accumulate(a, axis, **k)
    def outer(self, a, b, **k):
        if S.any_sym((a, b)): return S.array_ufunc(self.f, 'outer', (a, b), {})
        return self.f.outer(a, b, **k)
    def at(self, a, *r):
        if S.any_sym((a,) + r): return S.array_ufunc(self.f, 'at', (a,) + r, {})
        return self.f.at(a, *r)
    def __getattr__(self, k): return getattr(self.f, k)

def p_array(x, dtype=None, copy=True, ndmin=0, **kw):
    if type(x).__name__ == 'TT': x = x.a
    if S.any_sym(x):
        r = S.asym(x)
        if copy and r is x: r = r.copy()
        elif type(x) is S.SymArray and copy: r = r.copy()
        if dtype is not None and not is_float(dtype): r = r.astype(dtype)
        while getattr(r, 'ndim', 0) < ndmin: r = r[None]
        return r
    r = np.array(x, dtype=dtype, copy=copy, ndmin=ndmin, **kw)
    if r.dtype == object and dtype is None and r.size and not S.any_sym(r): return r
    return lift_float(r, dtype)
def lift_float(r, dtype=None):
    """float arrays created by the code may later receive symbolic values: keep them symbolic-capable"""
    if isinstance(r, np.ndarray) and np.issubdtype(r.dtype, np.floating) and LIFT[0] and r.ndim > 0: return S.asym(r)
    return S.iarr(r)
LIFT = [True]
def p_asarray(x, dtype=None, *a, **kw):
    if type(x).__name__ == 'TT': x = x.a
    if S.any_sym(x):
        r = S.asym(x)
        if dtype is not None and not is_float(dtype): r = r.astype(dtype)
        return r
    if isinstance(x, np.ndarray) and (dtype is None or x.dtype == dtype): return x
    return lift_float(np.asarray(x, dtype=dtype))
def creator(f):
    def g(*a, **k):
        dtype = k.get('dtype')
        if S.any_sym(a) or S.any_sym(k): raise Unsupported('symbolic argument to %s' % f.__name__)
        r = f(*a, **k)
        if isinstance(r, np.ndarray) and r.ndim == 0 and is_float(r.dtype): return S.asym(r)
        return lift_float(r)
    g.__name__ = f.__name__
    return g
def p_full(shape, v, dtype=None, order='C', **k):
    if S.any_sym(v):
        if dtype is not None and not is_float(dtype): raise Unsupported('symbolic fill of integer array')
        r = np.empty(shape, dtype=object)
        b = np.broadcast_to(S.asym(v).view(np.ndarray), r.shape)
        r[...] = b
        return r.view(S.SymArray)
    return lift_float(np.full(shape, v, dtype=dtype))
def p_finfo(t):
    if t is None or is_float(t): 
        try: return np.finfo(t if t is not object and np.dtype(t) != object else float)
        except TypeError: return np.finfo(float)
    return np.finfo(t)
def p_copy(a, order='K', subok=False):
    if S.any_sym(a): return S.asym(a).copy()
    return lift_float(np.copy(a))
def p_issubdtype(a, b):
    if a is object or (isinstance(a, np.dtype) and a == object): a = float
    return np.issubdtype(a, b)
def p_result_type(*a):
    if S.any_sym(a): return np.dtype(float)
    return np.result_type(*a)
def p_isscalar(x): return True if type(x) is S.Sym else np.isscalar(x)
def p_float64(x=0.0):
    if S.any_sym(x): return S.asym(x)[()] if np.ndim(x) == 0 else S.asym(x)
    return np.float64(x)
class _Vec:
    pass
def p_vectorize(pyfunc, *a, **k):
    def g(*args):
        if S.any_sym(args):
            arrs = np.broadcast_arrays(*[S.asym(x).view(np.ndarray) for x in args])
            out = np.empty(arrs[0].shape, dtype=object); o = out.reshape(-1)
            for i, t in enumerate(zip(*[x.reshape(-1) for x in arrs])): o[i] = S.asym(pyfunc(*t))[()]
            return S.scal(out.view(S.SymArray))
        return np.vectorize(pyfunc, *a, **k)(*args)
    return g
def p_array_fn_first(f):
    return f

# real implementations captured before any proxy exists
def p_where(c, *ab):
    if ab and not S.any_sym((c,) + ab): return lift_float(np.where(c, *ab))
    return where(c, *ab)
OVER = dict(where=p_where, nonzero=lambda a: where(a), flatnonzero=lambda a: flatnonzero(a), array=p_array, asarray=p_asarray, asanyarray=p_asarray, ascontiguousarray=p_asarray, asfarray=p_asarray,
            copy=p_copy, full=p_full, finfo=p_finfo, issubdtype=p_issubdtype, result_type=p_result_type, isscalar=p_isscalar,
            vectorize=p_vectorize)
for nm in ('zeros', 'ones', 'empty', 'eye', 'identity', 'linspace', 'arange', 'logspace', 'fromiter', 'tri', 'geomspace'):
    OVER[nm] = creator(getattr(np, nm))
def _like(nm, val):
    def g(a, dtype=None, order='K', subok=True, shape=None, **k):
        a0 = a
        if dtype is None and not S.any_sym(a):
            dt = np.asarray(a).dtype
            r = getattr(np, nm)(np.asarray(a), shape=shape) if shape is not None else getattr(np, nm)(np.asarray(a))
            return lift_float(r)
        return HANDLED[getattr(np, nm)](a, dtype=dtype, shape=shape)
    return g
for nm, v in (('zeros_like', 0.0), ('ones_like', 1.0), ('empty_like', 0.0)): OVER[nm] = _like(nm, v)

LINALG = ModProxy('numpy.linalg', np.linalg, {})
RANDOM = ModProxy('numpy.random', np.random, {})
OVER['linalg'] = LINALG; OVER['random'] = RANDOM
PROXY = ModProxy('numpy', np, OVER)

def _mathfn(nm, uf):
    real = getattr(math, nm)
    def g(*a):
        if S.any_sym(a): return S.array_ufunc(uf, '__call__', a, {})
        return real(*a)
    return g
MATH = ModProxy('math', math, {nm: _mathfn(nm, uf) for nm, uf in dict(sqrt=np.sqrt, exp=np.exp, log=np.log, sin=np.sin, cos=np.cos,
        tan=np.tan, tanh=np.tanh, fabs=np.fabs, pow=np.power, isnan=np.isnan, isinf=np.isinf, isfinite=np.isfinite,
        hypot=np.hypot, atan2=np.arctan2, sinh=np.sinh, cosh=np.cosh, log1p=np.log1p, expm1=np.expm1, atan=np.arctan).items()})
def _prod(x, start=1):
    r = start
    for v in x: r = r * v
    return r
MATH.__dict__['prod'] = lambda it, start=1: _prod(list(it), start)

def scipy_proxies():
    import scipy, scipy.special, scipy.stats
    def wl(f, real):
        def g(a, *r, **k):
            if S.any_sym(a): return f(a, *r, **k)
            return lift_float(real(a, *r, **k))
        return g
    sp = ModProxy('scipy.special', scipy.special, {
        'logsumexp': wl(logsumexp, scipy.special.logsumexp), 'softmax': wl(softmax, scipy.special.softmax),
        'log_softmax': wl(log_softmax, scipy.special.log_softmax), 'xlogy': xlogy, 'expit': expit})
    real_mvn = scipy.stats.multivariate_normal
    class MVN:
        """scipy.stats.multivariate_normal for a concrete mean and covariance (squeezes its output like the real one)"""
        def __init__(self, mean=None, cov=1, **k):
            self.real = real_mvn(mean=mean, cov=cov, **k)
            c = np.asarray(self.real.cov, dtype=float); self.m = np.asarray(self.real.mean, dtype=float)
            self.inv = np.linalg.inv(c); self.logc = float(0.5 * (len(self.m) * np.log(2 * np.pi) + np.log(np.linalg.det(c))))
        def logpdf(self, x):
            if not S.any_sym(x): return lift_float(self.real.logpdf(x))
            y = S.asym(x) - self.m; d = len(self.m); q = 0.0
            for i in range(d):
                for j in range(d): q = q + y[..., i] * float(self.inv[i, j]) * y[..., j]
            out = (-0.5 * q - self.logc)
            return out.squeeze() if out.ndim == 0 or 1 in out.shape else out
        def pdf(self, x):
            if not S.any_sym(x): return lift_float(self.real.pdf(x))
            return PROXY.exp(self.logpdf(x))
    st = ModProxy('scipy.stats', scipy.stats, {'multivariate_normal': MVN})
    return {'scipy': ModProxy('scipy', scipy, {'special': sp, 'stats': st}), 'scipy.special': sp, 'scipy.stats': st}
