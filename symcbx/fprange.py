"""Range-and-rounding model of exp / logsumexp for scenarios with energies of any magnitude (C02).

exp(a) becomes a fresh variable with the facts that hold for the floating point function: overflow to inf above 709.8,
underflow to 0 below -745.2, values in [0,1] for a <= 0, monotone, small for very negative arguments.  logsumexp(w) becomes a variable l
with max(w) <= l <= max(w) + 2 log n; the weights exp(w_i - l) sum to one up to 1e-8 as long as |max(w)| <= 1e6, for |max(w)| >= 1e17
(spacing of doubles >= 16) the logarithm is rounded away: l = max(w) and w_i - l is 0 or <= -16.  Magnitudes in between are cut."""
import math
from fractions import Fraction
from . import nodes as N, symval as S, npfuncs as P

F = Fraction
def C(v): return N.const(F(v))
def imp(a, b): return N.or_(N.not_(a), b)
def fexp(x):
    if x > 709.78: return math.inf
    return math.exp(x)

def install(ctx):
    exps = {}           # argument node id -> (argument, variable)
    groups = []         # (lse variable, row, kind)
    def exp_hook(a):
        if N.special(a): return None
        if N.isc(a):
            v = float(N.cval(a))
            if v == 0: return C(1)
            if v > 709.78: return N.const(math.inf)
            if v < -745.2: return C(0)
            r = F(math.exp(v)); return N.const(r)
        if a.id in exps: return exps[a.id][1]
        if N.sgn(N.neg(a), frozenset(ctx.posvars)) < 1 and not ctx.guard('exp_overflow', N.le(a, C(709))): return N.const(math.inf)
        e = N.var(ctx.fresh('stub:exp'))
        ctx.defs[e.args[0]] = lambda ev, a=a: fexp(float(ev([a])[0]))
        zero = C(0); one = C(1)
        ctx.add(N.le(zero, e)); ctx.posvars.discard(e.args[0])
        ctx.add(imp(N.le(a, zero), N.le(e, one)))
        ctx.add(imp(N.le(zero, a), N.le(one, e)))
        ctx.add(imp(N.lt(C(-700), a), N.lt(zero, e)))
        ctx.add(imp(N.lt(a, C(-746)), N.eq(e, zero)))
        ctx.add(imp(N.le(a, C(-16)), N.le(e, C(F(12, 10 ** 8)))))
        for b, f in exps.values():
            ctx.add(imp(N.le(a, b), N.le(e, f))); ctx.add(imp(N.le(b, a), N.le(f, e)))
        exps[a.id] = (a, e)
        for g in groups: group(g)
        return e
    def group(g):
        """the weights of a log-sum-exp group sum to one"""
        l, row, done = g
        if done: return
        es = []
        for x in row:
            d = N.sub(x, l)
            if d.id not in exps: return
            es.append(exps[d.id][1])
        g[2] = True
        s = es[0]
        for e in es[1:]: s = N.add(s, e)
        d = N.sub(s, C(1)); tol = C(F(1, 10 ** 8))
        ctx.add(N.le(d, tol)); ctx.add(N.le(N.neg(tol), d))
    memo = {}
    def lse_hook(row):
        key = tuple(x.id for x in row)
        if key in memo: return memo[key]
        if all(N.isc(x) for x in row):
            m = max(float(N.cval(x)) for x in row)
            return N.const(F(m + math.log(sum(math.exp(float(N.cval(x)) - m) for x in row))))
        l = N.var(ctx.fresh('stub:lse')); n = len(row)
        def val(ev, row=row):
            v = [float(t) for t in ev(list(row))]; m = max(v)
            return m + math.log(sum(math.exp(t - m) for t in v))
        ctx.defs[l.args[0]] = val
        up = C(F(2 * math.log(n)))
        for x in row: ctx.add(N.le(x, l))
        ctx.add(N.or_(*[N.le(l, N.add(x, up)) for x in row]))
        lim = C(10 ** 6); huge = C(10 ** 17)
        near = N.and_(N.or_(*[N.le(N.neg(lim), x) for x in row]), *[N.le(x, lim) for x in row])
        if ctx.guard('lse_magnitude', near):
            g = [l, row, False]; groups.append(g); group(g)
        else:
            far = N.or_(N.and_(*[N.le(x, N.neg(huge)) for x in row]), N.or_(*[N.le(huge, x) for x in row]))
            ctx.assume(far)
            ctx.add(N.or_(*[N.eq(l, x) for x in row]))
            for x in row: d = N.sub(x, l); ctx.add(N.or_(N.eq(x, l), N.le(d, C(-16))))
        memo[key] = l
        return l
    def log_hook(s):
        """log of a sum of exponentials (the sum is known to be positive here)"""
        row = []; todo = [s]; arg = {e.id: a for a, e in exps.values()}
        while todo:
            x = todo.pop()
            if x.op == 'add': todo += x.args[::-1]
            elif x.id in arg: row.append(arg[x.id])
            elif N.isc(x) and N.cval(x) == 1: row.append(C(0))
            else: return None
        return lse_hook(row) if len(row) > 1 else None
    S.EXP_HOOK = exp_hook; P.LSE_HOOK = lse_hook; S.LOG_HOOK = log_hook
