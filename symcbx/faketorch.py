"""Stand-in for the torch calls the torch backend makes: tensors over the same symbolic arrays.  Mixed numpy/torch operations follow
real torch (arithmetic gives tensors, numpy reductions and selections give arrays, arrays cannot be assigned into tensors)."""
import contextlib, sys, types
from collections import OrderedDict
import numpy as np
from . import nodes as N, symval as S, npfuncs as P
from .nodes import Unsupported

class DT:
    def __init__(self, name, kind): self.name = name; self.kind = kind; self.is_floating_point = kind == 'f'
    def __repr__(self): return 'torch.' + self.name
    def to_np(self): return {'f': float, 'i': int, 'b': bool}[self.kind]
F64 = DT('float64', 'f'); F32 = DT('float32', 'f'); I64 = DT('int64', 'i'); BOOL = DT('bool', 'b')
class Size(tuple):
    def numel(self): return int(np.prod(self, dtype=int)) if self else 1
class Device(str):
    type = property(lambda s: str(s))

def raw(x):
    """operand of a tensor operation as an array or scalar"""
    if type(x) is TT or isinstance(x, Parameter): return x.a
    return x
def arr(x): return S.asym(raw(x))
def out(r):
    if isinstance(r, np.ndarray) and type(r) is not S.SymArray and r.dtype.kind == 'f': r = S.asym(r)
    if not isinstance(r, np.ndarray): r = S.asym(r)
    return TT(r)
def ax(dim, axis): return axis if dim is None else dim
def idx(i):
    if isinstance(i, tuple): return tuple(idx(j) for j in i)
    if isinstance(i, slice) and i.step is not None and i.step < 0: raise ValueError('step must be greater than zero')
    return raw(i)
class MinMax(tuple):
    values = property(lambda s: s[0]); indices = property(lambda s: s[1])

class TT:
    __array_priority__ = 3000
    requires_grad = False
    def __init__(self, a): self.a = a
    # attributes
    @property
    def shape(self): return Size(np.shape(self.a))
    def size(self, dim=None): return self.shape if dim is None else self.shape[dim]
    def numel(self): return int(np.size(self.a))
    nelement = numel
    @property
    def ndim(self): return np.ndim(self.a)
    def dim(self): return np.ndim(self.a)
    @property
    def dtype(self):
        d = self.a.dtype
        if d == object:
            f = self.a.view(np.ndarray).reshape(-1)
            s = f[0].n.sort if f.size else 'R'
            return {'I': I64, 'B': BOOL}.get(s, F64)
        return {'i': I64, 'u': I64, 'b': BOOL}.get(d.kind, F64)
    @property
    def device(self): return Device('cpu')
    @property
    def T(self): return TT(self.a.T)
    @property
    def mT(self): return TT(np.moveaxis(self.a, -1, -2))
    @property
    def data(self): return self
    def __len__(self): return len(self.a)
    def __iter__(self): return (out(self.a[i]) for i in range(len(self.a)))
    def __repr__(self): return 'TT%s' % (tuple(self.shape),)
    def __format__(self, s): return repr(self)
    def __bool__(self):
        if self.numel() != 1: raise RuntimeError('Boolean value of Tensor with more than one value is ambiguous')
        return bool(S.asym(self.a).reshape(-1)[0])
    def __index__(self): return S.asym(self.a).reshape(-1)[0].__index__()
    def __int__(self): return int(S.asym(self.a).reshape(-1)[0])
    def __float__(self): return float(S.asym(self.a).reshape(-1)[0])
    def item(self): return S.asym(self.a).reshape(-1)[0]
    def tolist(self): return self.a.tolist()
    __hash__ = object.__hash__
    # conversion
    def detach(self): return TT(self.a)
    def cpu(self): return self
    def cuda(self, *a): return self
    def numpy(self, force=False): return self.a
    def __array__(self, dtype=None, copy=None): return np.asarray(self.a)
    def clone(self, **k): return TT(self.a.copy())
    def contiguous(self): return self
    def to(self, *a, **k):
        for d in list(a) + list(k.values()):
            if isinstance(d, DT): return self._cast(d)
            if type(d) is TT: return self._cast(d.dtype)
        return self
    def _cast(self, d): return self if d.kind == self.dtype.kind else out(S.asym(self.a).astype(d.to_np()))
    def type(self, d): return self._cast(d)
    def float(self): return self._cast(F64)
    def double(self): return self._cast(F64)
    def long(self): return self._cast(I64)
    def int(self): return self._cast(I64)
    def bool(self): return self._cast(BOOL)
    def requires_grad_(self, *a): return self
    # shapes
    def reshape(self, *s): return TT(self.a.reshape(*(tuple(s[0]) if len(s) == 1 and isinstance(s[0], (tuple, list)) else s)))
    def view(self, *s): return self.reshape(*s)
    def view_as(self, o): return self.reshape(o.shape)
    def flatten(self, start_dim=0, end_dim=-1):
        s = tuple(self.shape); n = len(s); e = end_dim % n if n else 0; b = start_dim % n if n else 0
        return self.reshape(s[:b] + (-1,) + s[e + 1:])
    def ravel(self): return self.reshape(-1)
    def squeeze(self, dim=None): return TT(np.squeeze(self.a, dim) if dim is None or self.shape[dim] == 1 else self.a)
    def unsqueeze(self, dim): return TT(np.expand_dims(self.a, dim))
    def expand(self, *s):
        s = tuple(s[0]) if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        off = len(s) - self.ndim
        return TT(np.broadcast_to(self.a, tuple(self.shape[i - off] if v == -1 else v for i, v in enumerate(s)), subok=True))
    def expand_as(self, o): return self.expand(*o.shape)
    def repeat(self, *s): return TT(np.tile(self.a, s))
    def permute(self, *s): return TT(self.a.transpose(*s))
    def transpose(self, a, b): return TT(np.swapaxes(self.a, a, b))
    def movedim(self, a, b): return TT(np.moveaxis(self.a, a, b))
    def t(self): return TT(self.a.T)
    def __getitem__(self, i):
        r = self.a[idx(i)]
        return out(r)
    def __setitem__(self, i, v):
        if isinstance(v, np.ndarray) and v.ndim: raise TypeError("can't assign a numpy.ndarray to a tensor")
        self.a[idx(i)] = raw(v)
    def index_select(self, dim, i): return TT(np.take(self.a, raw(i), axis=dim))
    def gather(self, dim, i): return out(np.take_along_axis(self.a, S.fix_index(raw(i)), dim))
    # arithmetic
    def _b(f, swap=False, strict=False):
        def op(self, o):
            if swap and isinstance(o, np.ndarray) and o.ndim: raise TypeError('unsupported operand types: numpy.ndarray and Tensor')
            if strict and isinstance(o, np.ndarray) and o.ndim: raise TypeError('comparison not supported between Tensor and numpy.ndarray')
            if not (type(o) in (TT, Parameter) or isinstance(o, np.ndarray) or S.liftable(o)): return NotImplemented
            x, y = (raw(o), self.a) if swap else (self.a, raw(o))
            return out(S.array_ufunc(f, '__call__', (x, y), {}))
        return op
    __add__ = _b(np.add); __radd__ = _b(np.add, True); __sub__ = _b(np.subtract); __rsub__ = _b(np.subtract, True)
    __mul__ = _b(np.multiply); __rmul__ = _b(np.multiply, True); __truediv__ = _b(np.true_divide); __rtruediv__ = _b(np.true_divide, True)
    __pow__ = _b(np.power); __rpow__ = _b(np.power, True); __mod__ = _b(np.remainder); __floordiv__ = _b(np.floor_divide)
    __lt__ = _b(np.less, strict=True); __le__ = _b(np.less_equal, strict=True); __gt__ = _b(np.greater, strict=True); __ge__ = _b(np.greater_equal, strict=True)
    __eq__ = _b(np.equal); __ne__ = _b(np.not_equal)
    __and__ = _b(np.logical_and); __or__ = _b(np.logical_or)
    add = __add__; sub = __sub__; mul = __mul__; div = __truediv__; pow = __pow__; multiply = __mul__; subtract = __sub__; divide = __truediv__
    lt = __lt__; le = __le__; gt = __gt__; ge = __ge__; eq = __eq__; ne = __ne__
    def __matmul__(self, o): return out(S.array_ufunc(np.matmul, '__call__', (self.a, raw(o)), {}))
    matmul = mm = bmm = __matmul__
    def _ip(f):
        def op(self, o):
            self.a[...] = raw(f(self, o)); return self
        return op
    __iadd__ = add_ = _ip(__add__); __isub__ = sub_ = _ip(__sub__); __imul__ = mul_ = _ip(__mul__); __itruediv__ = div_ = _ip(__truediv__)
    def copy_(self, o): self.a[...] = raw(o); return self
    def fill_(self, v): self.a[...] = raw(v); return self
    def zero_(self): return self.fill_(0.0)
    def clamp_(self, *a, **k): return self.copy_(self.clamp(*a, **k))
    def __neg__(self): return out(-S.asym(self.a))
    def __pos__(self): return self
    def __invert__(self): return out(np.logical_not(S.asym(self.a)))
    def __abs__(self): return out(abs(S.asym(self.a)))
    def uniform_(self, lo=0.0, hi=1.0):
        c = S.ctx()
        for ix in np.ndindex(*self.a.shape):
            v = N.var(c.fresh('uniform')); c.add(N.le(S.node(lo), v)); c.add(N.le(v, S.node(hi)))
            self.a[ix] = S.Sym(v)
        return self
    def normal_(self, *a): raise Unsupported('normal_')
    def min(self, dim=None, keepdim=False, *, axis=None, keepdims=None):
        if keepdims is not None and dim is None and axis is None: raise TypeError('min() received an invalid combination of arguments')
        return _mm('min', self, ax(dim, axis), keepdim or keepdims)
    def max(self, dim=None, keepdim=False, *, axis=None, keepdims=None):
        if keepdims is not None and dim is None and axis is None: raise TypeError('max() received an invalid combination of arguments')
        return _mm('max', self, ax(dim, axis), keepdim or keepdims)
    # numpy protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        o = kw.get('out')
        if method != '__call__':
            return S.array_ufunc(ufunc, method, tuple(raw(x) for x in inputs), kw)
        if o is not None:
            S.array_ufunc(ufunc, method, tuple(raw(x) for x in inputs), dict(kw, out=tuple(raw(x) for x in o))); return o[0]
        return out(S.array_ufunc(ufunc, method, tuple(raw(x) for x in inputs), kw))

def _mm(nm, t, dim, keepdim):
    a = S.asym(t.a)
    if dim is None: return out(getattr(a, nm)())
    return MinMax((out(getattr(a, nm)(axis=dim, keepdims=bool(keepdim))), out(getattr(a, 'arg' + nm)(axis=dim, keepdims=bool(keepdim)))))

class Parameter(TT):
    def __init__(self, data=None, requires_grad=True): TT.__init__(self, raw(data))
Parameter.__name__ = 'TT'; TTP = Parameter

# ------------------------------------------------------------------ functions
FN = {}
def fn(*names):
    def d(f):
        for n in names: FN[n] = f
        return f
    return d
def elem(name, uf):
    def f(x, *a, out=None):
        r = globals()['out'](S.array_ufunc(uf, '__call__', (arr(x),) + tuple(raw(v) for v in a), {}))
        return out.copy_(r) if out is not None else r
    FN[name] = f
for nm, uf in dict(exp=np.exp, log=np.log, sqrt=np.sqrt, abs=np.absolute, absolute=np.absolute, sign=np.sign, square=np.square, sin=np.sin, cos=np.cos, tanh=np.tanh,
                   add=np.add, sub=np.subtract, subtract=np.subtract, mul=np.multiply, multiply=np.multiply, div=np.true_divide, divide=np.true_divide, true_divide=np.true_divide,
                   pow=np.power, maximum=np.maximum, minimum=np.minimum, isnan=np.isnan, isinf=np.isinf, isfinite=np.isfinite, neg=np.negative,
                   logical_and=np.logical_and, logical_or=np.logical_or, logical_not=np.logical_not, lt=np.less, le=np.less_equal, gt=np.greater, ge=np.greater_equal,
                   eq=np.equal, ne=np.not_equal, reciprocal=np.reciprocal, expm1=np.expm1, log1p=np.log1p, fmin=np.fmin, fmax=np.fmax, arctan=np.arctan, atan=np.arctan, heaviside=np.heaviside).items(): elem(nm, uf)
FN['sgn'] = FN['sign']
def red(name, npname=None):
    def f(x, dim=None, keepdim=False, *, axis=None, keepdims=None, dtype=None):
        d = ax(dim, axis)
        if isinstance(d, list): d = tuple(d)
        return out(getattr(arr(x), npname or name)(axis=d, keepdims=bool(keepdim or keepdims)))
    FN[name] = f
for nm in ('sum', 'mean', 'any', 'all', 'prod'): red(nm)
red('amin', 'min'); red('amax', 'max'); red('argmin'); red('argmax')
@fn('min')
def t_min(x, *a, **k):
    if a and isinstance(a[0], TT): return FN['minimum'](x, a[0])
    return x.min(*a, **k)
@fn('max')
def t_max(x, *a, **k):
    if a and isinstance(a[0], TT): return FN['maximum'](x, a[0])
    return x.max(*a, **k)
@fn('var')
def t_var(x, dim=None, keepdim=False, *, unbiased=True, correction=None, axis=None):
    c = correction if correction is not None else (1 if unbiased else 0)
    return out(arr(x).var(axis=ax(dim, axis), ddof=c, keepdims=keepdim))
@fn('std')
def t_std(x, dim=None, keepdim=False, *, unbiased=True, correction=None, axis=None):
    c = correction if correction is not None else (1 if unbiased else 0)
    return out(arr(x).std(axis=ax(dim, axis), ddof=c, keepdims=keepdim))
@fn('cumsum')
def cumsum(x, dim): return out(arr(x).cumsum(axis=dim))
@fn('softmax')
def softmax(x, dim=None, *, axis=None, dtype=None): return out(P.softmax(arr(x), axis=ax(dim, axis)))
@fn('log_softmax')
def log_softmax(x, dim=None, *, axis=None, dtype=None): return out(P.log_softmax(arr(x), axis=ax(dim, axis)))
@fn('logsumexp')
def logsumexp(x, dim=None, keepdim=False, *, axis=None, keepdims=None): return out(P.logsumexp(arr(x), axis=ax(dim, axis), keepdims=bool(keepdim or keepdims)))
@fn('clamp', 'clip')
def clamp(x, min=None, max=None, out=None):
    a = arr(x)
    if min is not None: a = S.array_ufunc(np.maximum, '__call__', (a, raw(min)), {})
    if max is not None: a = S.array_ufunc(np.minimum, '__call__', (a, raw(max)), {})
    return globals()['out'](a)
@fn('nan_to_num')
def nan_to_num(x, nan=0.0, posinf=None, neginf=None): return out(P.nan_to_num(arr(x), copy=True, nan=0.0 if nan is None else nan, posinf=posinf, neginf=neginf))
@fn('where')
def where(c, *ab):
    if not ab: return tuple(out(v) for v in np.nonzero(S.concretize_mask(arr(c))))
    return out(P.where(raw(c), raw(ab[0]), raw(ab[1])))
@fn('clone')
def clone(x, **k): return x.clone()
def _shape(a, size):
    if size is not None: return tuple(size)
    return tuple(a[0]) if len(a) == 1 and isinstance(a[0], (tuple, list)) else tuple(a)
def filled(v):
    def f(*a, size=None, dtype=None, device=None, **k):
        s = _shape(a, size)
        if dtype is not None and dtype.kind != 'f': return TT(np.full(s, v, dtype=dtype.to_np()))
        return TT(S.asym(np.full(s, float(v))))
    return f
FN['zeros'] = filled(0.0); FN['ones'] = filled(1.0); FN['empty'] = filled(0.0)
@fn('full')
def full(size, v, dtype=None, device=None, **k):
    r = np.empty(tuple(size), dtype=object); b = np.broadcast_to(S.asym(raw(v)).view(np.ndarray), r.shape); r[...] = b
    return TT(r.view(S.SymArray))
FN['zeros_like'] = lambda x, **k: FN['zeros'](tuple(x.shape)); FN['ones_like'] = lambda x, **k: FN['ones'](tuple(x.shape))
FN['empty_like'] = FN['zeros_like']; FN['full_like'] = lambda x, v, **k: full(tuple(x.shape), v)
@fn('tensor', 'as_tensor', 'asarray')
def tensor(x, dtype=None, device=None, requires_grad=False, **k):
    x = raw(x)
    r = out(x.copy() if isinstance(x, np.ndarray) else (S.asym(x) if S.any_sym(x) or not isinstance(x, (list, tuple)) else np.array(x)))
    return r.to(dtype) if dtype is not None else r
@fn('from_numpy')
def from_numpy(a):
    if not isinstance(a, np.ndarray): raise TypeError('expected np.ndarray')
    return out(a)
@fn('arange')
def arange(*a, **k): return TT(np.arange(*a))
@fn('eye')
def eye(n, **k): return TT(S.asym(np.eye(n)))
@fn('stack')
def stack(xs, dim=0, *, axis=None): return out(np.stack([arr(x).view(np.ndarray) for x in xs], axis=axis if axis is not None else dim).view(S.SymArray))
@fn('cat', 'concat', 'concatenate')
def cat(xs, dim=0, *, axis=None): return out(np.concatenate([arr(x).view(np.ndarray) for x in xs], axis=axis if axis is not None else dim).view(S.SymArray))
@fn('einsum')
def einsum(sub, *ops): return out(P.PROXY.einsum(sub, *[arr(o) for o in (ops[0] if len(ops) == 1 and isinstance(ops[0], (list, tuple)) else ops)]))
@fn('matmul', 'mm', 'bmm')
def matmul(a, b): return a @ b
for nm in ('reshape', 'squeeze', 'unsqueeze', 'flatten', 'transpose', 'permute', 'movedim', 'index_select', 'gather', 'numel'):
    FN[nm] = (lambda nm: lambda x, *a, **k: getattr(x, nm)(*a, **k))(nm)
@fn('take_along_dim')
def take_along_dim(x, i, dim): return x.gather(dim, i)
@fn('is_tensor')
def is_tensor(x): return isinstance(x, TT)
@fn('norm')
def norm(x, p='fro', dim=None, keepdim=False, *, axis=None): return vector_norm(x, 2 if p == 'fro' else p, ax(dim, axis), keepdim)
def vector_norm(x, ord=2, dim=None, keepdim=False, *, axis=None, dtype=None):
    d = ax(dim, axis); a = arr(x)
    if d is None: a = a.reshape(-1); d = 0
    if isinstance(d, (tuple, list)) and ord in (2, None): return out(S.array_ufunc(np.sqrt, '__call__', ((a * a).sum(axis=tuple(d), keepdims=keepdim),), {}))
    return out(P.norm(a, ord=ord, axis=d, keepdims=keepdim))
def norm_(x, ord=None, dim=None, keepdim=False, *, axis=None): return vector_norm(x, 2 if ord is None else ord, ax(dim, axis), keepdim)
def no_draws(*a, **k): raise Unsupported('torch random numbers')
for nm in ('randn', 'rand', 'randint', 'normal', 'randperm', 'rand_like', 'randn_like', 'bernoulli', 'multinomial'): FN[nm] = no_draws
for nm in ('exp', 'log', 'sqrt', 'abs', 'sign', 'square', 'isnan', 'isinf', 'isfinite', 'sum', 'mean', 'any', 'all', 'prod', 'amin', 'amax', 'argmin', 'argmax', 'var', 'std',
           'softmax', 'log_softmax', 'logsumexp', 'clamp', 'clip', 'nan_to_num', 'norm', 'cumsum', 'maximum', 'minimum', 'logical_not', 'logical_and', 'logical_or', 'neg', 'sin', 'cos', 'tanh'):
    setattr(TT, nm, (lambda f: lambda self, *a, **k: f(self, *a, **k))(FN[nm]))
def where_m(self, c, o): return where(c, self, o)
TT.where = where_m

# ------------------------------------------------------------------ modules of parameters
class Module:
    training = True
    def __init__(self):
        object.__setattr__(self, '_parameters', OrderedDict()); object.__setattr__(self, '_modules', OrderedDict())
    def __setattr__(self, k, v):
        if isinstance(v, Parameter): self._parameters[k] = v
        elif isinstance(v, Module): self._modules[k] = v
        else: object.__setattr__(self, k, v)
    def __getattr__(self, k):
        for d in ('_parameters', '_modules'):
            t = self.__dict__.get(d, {})
            if k in t: return t[k]
        raise AttributeError(k)
    def named_parameters(self, prefix='', recurse=True):
        for k, p in self._parameters.items(): yield prefix + k, p
        for k, m in self._modules.items(): yield from m.named_parameters(prefix + k + '.')
    def parameters(self): return (p for _, p in self.named_parameters())
    def named_buffers(self, *a, **k): return iter(())
    def buffers(self): return iter(())
    def state_dict(self): return OrderedDict(self.named_parameters())
    def train(self, mode=True): return self
    def eval(self): return self
    def to(self, *a, **k): return self
    def __call__(self, *a, **k): return self.forward(*a, **k)
def _locate(m, name):
    *path, last = name.split('.')
    for p in path: m = m._modules[p]
    return m, last
def functional_call(model, params, args=None, kwargs=None):
    if isinstance(params, (tuple, list)): params = {k: v for d in params for k, v in d.items()}
    saved = []
    for k, v in params.items():
        m, last = _locate(model, k)
        if last in m._parameters: saved.append((m, last, m._parameters[last])); m._parameters[last] = v
    try: return model(*(args if isinstance(args, tuple) else (args,)), **(kwargs or {}))
    finally:
        for m, last, v in saved: m._parameters[last] = v
def stack_module_state(models):
    models = list(models)
    if not models: raise RuntimeError('stack_module_state: Expected at least one model, got 0.')
    names = [k for k, _ in models[0].named_parameters()]
    ps = [dict(m.named_parameters()) for m in models]
    return {k: stack([p[k] for p in ps]) for k in names}, {}
def vmap(f, in_dims=0, out_dims=0, **kw):
    def g(*args):
        dims = in_dims if isinstance(in_dims, tuple) else (in_dims,) * len(args)
        if len(dims) != len(args): raise ValueError('in_dims is not compatible with the inputs')
        n = None
        for a, d in zip(args, dims):
            if d is not None:
                if n is not None and a.shape[d] != n: raise ValueError('vmap: inconsistent sizes')
                n = a.shape[d]
        if n is None: raise ValueError('vmap: no mapped dimension')
        res = []
        for i in range(n): res.append(f(*[a if d is None else out(np.take(a.a, i, axis=d)) for a, d in zip(args, dims)]))
        if isinstance(res[0], tuple): return tuple(stack(r, out_dims) for r in zip(*res))
        return stack(res, out_dims)
    return g

class Linear(Module):
    def __init__(self, i, o, bias=True):
        super().__init__()
        self.weight = Parameter(FN['zeros'](o, i))
        if bias: self.bias = Parameter(FN['zeros'](o))
    def forward(self, x):
        r = x @ self.weight.T
        return r + self.bias if 'bias' in self._parameters else r

def modules():
    t = types.ModuleType('torch'); t.__path__ = []
    t.__dict__.update(FN)
    t.Tensor = TT; t.Size = Size; t.float64 = t.double = F64; t.float32 = t.float = F32; t.float16 = F32; t.int64 = t.long = I64; t.int32 = t.int = I64; t.bool = BOOL
    t.inf = float('inf'); t.nan = float('nan'); t.pi = np.pi; t.e = np.e
    t.device = Device; t.dtype = DT
    @contextlib.contextmanager
    def nothing(*a, **k): yield
    class NoGrad(contextlib.ContextDecorator):
        def __enter__(self): return self
        def __exit__(self, *a): return False
    t.no_grad = NoGrad; t.inference_mode = NoGrad; t.enable_grad = NoGrad
    t.manual_seed = lambda *a: None; t.set_default_dtype = lambda *a: None; t.set_num_threads = lambda *a: None; t.get_default_dtype = lambda: F64
    fu = types.ModuleType('torch.func'); fu.functional_call = functional_call; fu.stack_module_state = stack_module_state; fu.vmap = vmap
    t.vmap = vmap; t.func = fu
    la = types.ModuleType('torch.linalg'); la.vector_norm = vector_norm; la.norm = norm_; t.linalg = la
    di = types.ModuleType('torch.distributions')
    class Dist:
        def __init__(self, *a, **k): pass
        def sample(self, *a): raise Unsupported('torch distributions')
    di.Exponential = Dist; di.Normal = Dist; di.Uniform = Dist; t.distributions = di
    nn = types.ModuleType('torch.nn'); nn.Module = Module; nn.Parameter = Parameter; nn.Linear = Linear; t.nn = nn
    nf = types.ModuleType('torch.nn.functional'); nf.softmax = softmax; nf.log_softmax = log_softmax; nf.relu = lambda x: clamp(x, min=0.0); nn.functional = nf
    cu = types.ModuleType('torch.cuda'); cu.is_available = lambda: False; t.cuda = cu
    sp = types.ModuleType('torch.special'); sp.logsumexp = logsumexp; sp.softmax = softmax; t.special = sp
    return {'torch': t, 'torch.func': fu, 'torch.linalg': la, 'torch.distributions': di, 'torch.nn': nn, 'torch.nn.functional': nf, 'torch.cuda': cu, 'torch.special': sp}
