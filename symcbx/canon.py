"""Rational-function normal form over atoms (variables, exp, sqrt, log, other functions).

Turns every real term into num/den, polynomials with rational coefficients over atoms; exp atoms
may occur with negative exponents (they are positive).  The normal form is where
exp(a+b)=exp(a)exp(b), exp(log b)=b and sqrt(p)^2=p are applied.  The result is handed to the
SMT solver as a polynomial (QF_NRA) query in which the atoms are real variables."""
import time
from fractions import Fraction
from .nodes import Node, Unsupported, isc, cval, special
from . import nodes as N

class NeedSplit(Exception):
    def __init__(self, cond): self.cond = cond
class TooBig(Unsupported): pass
LIMIT = [None]      # wall-clock end of the current normalisation

MAXTERMS = 60000

class Atoms:
    def __init__(self):
        self.key2id = {}; self.info = []      # info: (kind, payload)
        self.pos = set()                       # atoms known > 0
        self.src = {}                          # root of n*d -> n (d is a divisor)
    def get(self, kind, payload, key=None):
        k = (kind, key if key is not None else payload)
        i = self.key2id.get(k)
        if i is None:
            i = len(self.info); self.key2id[k] = i; self.info.append((kind, payload))
            if kind in ('exp', 'expc', 'expq'): self.pos.add(i)
        return i

# polynomial = dict mono -> Fraction ; mono = tuple of (atom, exponent) sorted
ONE = ((),)
def pconst(c): return {(): c} if c else {}
def padd(p, q, s=1):
    if len(p) < len(q) and s == 1: p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def mmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for k, e in b:
        e2 = d.get(k, 0) + e
        if e2: d[k] = e2
        else: d.pop(k, None)
    return tuple(sorted(d.items()))
def pkey(p): return frozenset(p.items())
_REP = {}
def repc(v):
    """one representative for coefficients that differ only by the rounding of constants (relative 1e-12): the arguments of
    uninterpreted functions are compared up to that rounding, as the values are"""
    if v.denominator < 10**5: return v
    r = _REP.get(v)
    if r is not None: return r
    a = abs(v); w = a.limit_denominator(2000)
    if w and abs(a - w) <= w * Fraction(1, 10**13): r = w
    else:
        import math
        e = 11 - math.floor(math.log10(a)) if a > Fraction(1, 10**300) else None
        if e is None: return v
        k = math.floor(a * Fraction(10)**e)
        for j in (k, k - 1, k + 1):
            r = _REP.get((e, j))
            if r is not None and abs(r - a) <= a * Fraction(1, 10**12): break
        else: r = _REP[(e, k)] = a
    if v < 0: r = -r
    _REP[v] = r
    return r
def repp(p):
    for c in p.values():
        if c.denominator >= 10**5: return {m: repc(c) for m, c in p.items()}
    return p
def repx(x):
    n, d = x
    if d != {(): 1}:
        c = d[min(d)]
        if c != 1: n = {m: v / c for m, v in n.items()}; d = {m: v / c for m, v in d.items()}
        return (repp(n), repp(d))
    return (repp(n), d)

def content(p):
    """common monomial and the rest"""
    it = iter(p); g = dict(next(it))
    for m in it:
        if not g: break
        dm = dict(m)
        g = {a: min(e, dm[a]) for a, e in g.items() if a in dm and min(e, dm[a]) > 0}
    if not g: return (), p
    c = tuple(sorted(g.items())); inv = tuple((a, -e) for a, e in c)
    return c, {mmul(m, inv): v for m, v in p.items()}
def split(c):
    """c = e / q with a small integer e"""
    if c.denominator < 10**5: return c.denominator, c
    return 1 / abs(c), Fraction(1 if c > 0 else -1)

_NOVAR = {}
def novar(n):
    """a term without variables"""
    st = [n]
    while st:
        n = st[-1]
        if n.id in _NOVAR: st.pop(); continue
        if n.op == 'var': _NOVAR[n.id] = False; st.pop(); continue
        t = [a for a in n.args if type(a) is Node and a.id not in _NOVAR]
        if t: st.extend(t); continue
        _NOVAR[n.id] = all(_NOVAR[a.id] for a in n.args if type(a) is Node); st.pop()
    return _NOVAR[n.id]
_NUM = {}
def numeric(c):
    """a comparison of two terms without variables, decided numerically when it is not close (relative 1e-9)"""
    if c.op not in ('lt', 'eq') or c.args[0].sort != 'R' or not (novar(c.args[0]) and novar(c.args[1])): return None
    a, b = c.args
    try: x, y = (N.evaluate([v], {}, _NUM, None)[0] for v in (a, b))
    except (OverflowError, ValueError, ZeroDivisionError): return None
    if not (abs(x) < 1e300 and abs(y) < 1e300) or abs(x - y) <= 1e-9 * max(1, abs(x), abs(y)): return None
    return bool(x < y) if c.op == 'lt' else False

class Canon:
    def __init__(self, atoms=None, known=None):
        self.A = atoms or Atoms()
        self.known = known if known is not None else {}
        self.memo = {}
        self.sqrt_red = {}     # atom id -> poly
        self.posvars = set()
        for i, (k, pl) in enumerate(self.A.info):
            if k == 'sqrt': self.sqrt_red[i] = pl
        self.opaque_ite = False; self.pcdepth = 0
    def fresh(self, known):
        c = Canon(self.A, known); c.posvars = self.posvars; c.opaque_ite = self.opaque_ite; c.pcdepth = self.pcdepth
        return c
    # -- polynomial helpers with sqrt reduction
    def pmul(self, p, q):
        if LIMIT[0] and len(p) * len(q) > 100 and time.time() > LIMIT[0]: raise TooBig('time')
        if len(p) * len(q) > 40 * MAXTERMS: raise TooBig('polynomial product too large')
        r = {}
        red = False
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v: r[m] = v
                else: r.pop(m, None)
        if len(r) > MAXTERMS: raise TooBig('polynomial too large')
        if self.sqrt_red: r = self.reduce(r)
        return r
    def reduce(self, p):
        sr = self.sqrt_red
        hit = [m for m in p if any(a in sr and (e >= 2) for a, e in m)]
        if not hit: return p
        r = {m: c for m, c in p.items()}
        for m in hit:
            if LIMIT[0] and time.time() > LIMIT[0]: raise TooBig('time')
            c = r.pop(m)
            rest = []; f = {(): c}
            for a, e in m:
                if a in sr and e >= 2:
                    k, e = divmod(e, 2)
                    for _ in range(k): f = self.pmul(f, sr[a])
                if e: rest.append((a, e))
            f = self.pmul(f, {tuple(rest): Fraction(1)})
            for m2, c2 in f.items():
                v = r.get(m2, 0) + c2
                if v: r[m2] = v
                else: r.pop(m2, None)
        return r
    def pos(self, p):
        """syntactic positivity: all monomials nonneg-by-parity with positive coefficient, one strictly positive"""
        if not p: return False
        strict = False
        P = self.A.pos
        for m, c in p.items():
            if c < 0: return False
            allpos = True
            for a, e in m:
                if a in P: continue
                allpos = False
                k = self.A.info[a][0]
                if e % 2 and k != 'sqrt': return False
            strict |= allpos
        return strict
    def nonneg(self, p):
        P = self.A.pos
        for m, c in p.items():
            if c < 0: return False
            for a, e in m:
                if a in P: continue
                if e % 2 and self.A.info[a][0] != 'sqrt': return False
        return True
    # -- rational functions
    def rnorm(self, n, d):
        if not n: return ({}, {(): Fraction(1)})
        if len(d) == 1:
            (m, c), = d.items()
            if not m:
                return ({k: v / c for k, v in n.items()}, {(): Fraction(1)}) if c != 1 else (n, d)
            # single monomial of exp atoms: invertible
            inv = tuple((a, -e) for a, e in m if self.A.info[a][0] in ('exp', 'expc', 'expq'))
            if inv:
                n = {mmul(k, inv): v / c for k, v in n.items()}
                m = mmul(m, inv); d = {m: Fraction(1)}
        # cancel common monomial content
        if len(d) >= 1:
            if len(d) == 1:
                (m, c), = d.items()
                if m:
                    com = []
                    for a, e in m:
                        k = min([dict(t).get(a, 0) for t in n] + [e])
                        if k > 0: com.append((a, -k))
                    if com:
                        com = tuple(com)
                        n = {mmul(k, com): v for k, v in n.items()}
                        d = {mmul(m, com): c}
            else:
                # exponentials are invertible: the lowest power of each in the denominator is made zero
                low = None
                for m in d:
                    e = {a: k for a, k in m if self.A.info[a][0] in ('exp', 'expc', 'expq')}
                    if low is None: low = e
                    else: low = {a: min(low.get(a, 0), e.get(a, 0)) for a in set(low) | set(e)}
                    low = {a: k for a, k in low.items() if k}
                if low:
                    inv = tuple(sorted((a, -k) for a, k in low.items()))
                    n = {mmul(m, inv): v for m, v in n.items()}; d = {mmul(m, inv): v for m, v in d.items()}
            if n == d: return ({(): Fraction(1)}, {(): Fraction(1)})
            # proportional?
            if len(n) == len(d) and set(n) == set(d):
                m0 = next(iter(d)); q = n[m0] / d[m0]
                if all(n[m] == q * d[m] for m in d): return (pconst(q), {(): Fraction(1)})
            elif len(n) == len(d) > 1:
                cn, n1 = content(n); cd, d1 = content(d)
                if (cn or cd) and set(n1) == set(d1):
                    m0 = next(iter(d1)); q = n1[m0] / d1[m0]
                    if all(n1[m] == q * d1[m] for m in d1): return self.rnorm({cn: q}, {cd: Fraction(1)})
        return (n, d)
    def radd(self, x, y, s=1):
        (a, b), (c, d) = x, y
        if b == d: return self.rnorm(padd(a, c, s), b)
        if b == {(): 1}: return self.rnorm(padd(self.pmul(a, d), c, s), d)
        if d == {(): 1}: return self.rnorm(padd(a, self.pmul(c, b), s), b)
        return self.rnorm(padd(self.pmul(a, d), self.pmul(c, b), s), self.pmul(b, d))
    def rmul(self, x, y):
        (a, b), (c, d) = x, y
        if a == d and len(a) > 0: return self.rnorm(c, b)
        if c == b and len(c) > 0: return self.rnorm(a, d)
        n = self.pmul(a, c)
        if b == {(): 1}: dd = d
        elif d == {(): 1}: dd = b
        else: dd = self.pmul(b, d)
        return self.rnorm(n, dd)
    def rinv(self, x):
        n, d = x
        if not n: raise Unsupported('division by the zero polynomial')
        return self.rnorm(d, n)
    def rkey(self, x):
        n, d = x
        if d != {(): 1}:
            m0 = min(d); c = d[m0]
            n = {m: v / c for m, v in n.items()}; d = {m: v / c for m, v in d.items()}
        return (pkey(n), pkey(d))
    def rconst(self, c): return (pconst(Fraction(c)), {(): Fraction(1)})
    def ratom(self, kind, payload, key=None):
        i = self.A.get(kind, payload, key)
        return ({((i, 1),): Fraction(1)}, {(): Fraction(1)})
    # -- boolean conditions inside terms
    def cond(self, c):
        v = self.known.get(c.id)
        if v is not None: return v
        if isc(c): return c.args[0]
        if c.op == 'not': return not self.cond(c.args[0])
        if c.op == 'and':
            for a in c.args:
                if not self.cond(a): return False
            return True
        v = numeric(c)
        if v is not None: return v
        # the same comparison may occur in algebraically equal disguise
        if c.op in ('lt', 'eq') and c.args[0].sort == 'R':
            k = self.cmpkey(c)
            if k is not None:
                if k in (True, False): return k
                v = self.known.get(k)
                if v is not None: return v
        raise NeedSplit(c)
    def cmpkey(self, c):
        try:
            n, d = self.radd(self.rf(c.args[0]), self.rf(c.args[1]), -1)
        except TooBig:
            return None
        if not n:
            return c.op == 'eq'
        if c.op == 'eq': n = self.root(n)     # divisors are nonzero on the path: they were checked when the quotient was built
        elif d != {(): 1} and not self.pos(d): return None
        if len(n) == 1 and () in n:
            return (n[()] < 0) if c.op == 'lt' else False
        m0 = min(n); s = abs(n[m0])
        n = {m: v / s for m, v in n.items()}
        if c.op == 'eq' and n[m0] < 0: n = {m: -v for m, v in n.items()}
        return (c.op, pkey(n))
    def root(self, n):
        """a polynomial with the same zeros: a root vanishes exactly where its radicand does"""
        while len(n) == 1:
            (m, c), = n.items()
            if len(m) != 1 or self.A.info[m[0][0]][0] != 'sqrt': break
            i = m[0][0]; n = self.A.src.get(i, self.A.info[i][1])
        return n
    def learn(self, c, val):
        """record a decided condition (and its disguises)"""
        self.known[c.id] = val
        if c.op == 'not': self.learn(c.args[0], not val)
        elif c.op == 'and' and val:
            for a in c.args: self.learn(a, True)
        elif c.op == 'lt' and c.args[0].sort == 'R':
            try: k = self.cmpkey(c)
            except NeedSplit: k = None
            if k is not None and k not in (True, False):
                self.known[k] = val
                if val:
                    fl = frozenset((m, -v) for m, v in k[1])
                    mk = ('lt', self._renorm(fl)); self.known.setdefault(mk, False)
        elif c.op == 'eq' and c.args[0].sort == 'R':
            try: k = self.cmpkey(c)
            except NeedSplit: k = None
            if k is not None and k not in (True, False): self.known[k] = val
    def _renorm(self, fl):
        d = dict(fl); m0 = min(d); s = abs(d[m0])
        return pkey({m: v / s for m, v in d.items()})
    # -- terms
    def rf(self, root):
        memo = self.memo
        if root.id in memo: return memo[root.id]
        st = [root]
        while st:
            n = st[-1]
            if n.id in memo: st.pop(); continue
            op = n.op
            if op == 'ite':
                if self.opaque_ite:
                    try:
                        b = self.cond(n.args[0])
                    except NeedSplit:
                        a1, a2 = n.args[1], n.args[2]
                        t = [a for a in (a1, a2) if a.id not in memo]
                        if t: st.extend(t); continue
                        memo[n.id] = self.ratom('ite', (n.args[0], memo[a1.id], memo[a2.id]),
                                                (n.args[0].id, self.rkey(memo[a1.id]), self.rkey(memo[a2.id])))
                        st.pop(); continue
                else:
                    b = self.cond(n.args[0])
                k = n.args[1] if b else n.args[2]
                if k.id not in memo: st.append(k); continue
                memo[n.id] = memo[k.id]; st.pop(); continue
            if op in ('toreal',) or (n.sort == 'I' and op not in ('const',)):
                memo[n.id] = self.ratom('int', n, n.id); st.pop(); continue
            t = [a for a in n.args if type(a) is Node and a.id not in memo]
            if t: st.extend(t); continue
            memo[n.id] = self.one(n); st.pop()
        return memo[root.id]
    def one(self, n):
        op = n.op; M = self.memo
        if op == 'const':
            if special(n): raise Unsupported('infinite/NaN constant in arithmetic')
            return self.rconst(cval(n))
        if op == 'var':
            i = self.A.get('var', n.args[0])
            if n.args[0] in self.posvars: self.A.pos.add(i)
            return ({((i, 1),): Fraction(1)}, {(): Fraction(1)})
        if op == 'add': return self.radd(M[n.args[0].id], M[n.args[1].id])
        if op == 'mul': return self.rmul(M[n.args[0].id], M[n.args[1].id])
        if op == 'div': return self.rmul(M[n.args[0].id], self.rinv(M[n.args[1].id]))
        if op.startswith('fn:'):
            a = [M[x.id] for x in n.args]
            return getattr(self, 'f_' + op[3:], lambda *a: self.opaque(op[3:], a))(*a)
        raise Unsupported('term ' + op)
    def opaque(self, name, a):
        a = tuple(repx(x) for x in a)
        return self.ratom('fn', (name, tuple(a)), (name, tuple(self.rkey(x) for x in a)))
    def f_exp(self, x):
        n, d = repx(x)
        if d != {(): 1}:
            if self.pos(d) or True:
                # split numerator monomials over the common denominator
                r = self.rconst(1)
                dk = pkey(d); one = {(): Fraction(1)}
                dm = next(iter(d)) if len(d) == 1 else None
                for m, c in n.items():
                    if dm is not None:      # a single monomial below: reduce the fraction
                        c = c / d[dm]
                        mm = mmul(m, tuple((a, -e) for a, e in dm))
                        top = tuple((a, e) for a, e in mm if e > 0); bot = tuple((a, -e) for a, e in mm if e < 0)
                        if not bot: r = self.rmul(r, self.expmono(top, c)); continue
                        q, c = split(c)
                        i = self.A.get('expq', (top, q, {bot: Fraction(1)}), (top, q, bot)); self.A.pos.add(i)
                    else:
                        q, c = split(c)
                        i = self.A.get('expq', (m, q, d), (m, q, dk)); self.A.pos.add(i)
                    e = c.numerator
                    f = ({((i, abs(e)),): Fraction(1)}, {(): Fraction(1)})
                    r = self.rmul(r, f if e > 0 else self.rinv(f))
                return r
        r = self.rconst(1)
        for m, c in n.items(): r = self.rmul(r, self.expmono(m, c))
        return r
    def expmono(self, m, c):
        if len(m) == 1 and m[0][1] == 1 and self.A.info[m[0][0]][0] == 'log' and c.denominator == 1:
            b = self.A.info[m[0][0]][1]
            bb = (b, {(): Fraction(1)})
            e = c.numerator
            if e < 0: bb = self.rinv(bb); e = -e
            r = self.rconst(1)
            for _ in range(e): r = self.rmul(r, bb)
            return r
        if len(m) == 1 and m[0][1] == 1 and self.A.info[m[0][0]][0] == 'fn' and self.A.info[m[0][0]][1][0] == 'log' and c.denominator == 1:
            x = self.A.info[m[0][0]][1][1][0]          # exp(log x) = x; x > 0 was decided where the logarithm was taken
            if c < 0: x = self.rinv(x)
            r = self.rconst(1)
            for _ in range(abs(c.numerator)): r = self.rmul(r, x)
            return r
        if len(m) == 1 and m[0][1] == 1 and self.A.info[m[0][0]][0] == 'logc' and c.denominator == 1:
            return self.rconst(Fraction(self.A.info[m[0][0]][1]) ** c.numerator)
        q, c = split(c)
        i = self.A.get('exp', (m, q))
        return ({((i, c.numerator),): Fraction(1)}, {(): Fraction(1)})
    def f_log(self, x):
        n, d = x
        if self.pos(n) and self.pos(d):
            return self.radd(self.logpos(n), self.logpos(d), -1)
        if len(n) == 1 and () in n and d != {(): 1}:      # log(c/d) = log|c| - log(|d|), the argument is positive
            c = n[()]
            return self.radd(self.logc(abs(c)), self.opaque('log', ((d if c > 0 else {m: -v for m, v in d.items()}, {(): Fraction(1)}),)), -1)
        return self.opaque('log', (x,))
    def logpos(self, p):
        # content
        g = None
        for m in p:
            dm = {a: e for a, e in m if a in self.A.pos}
            g = dm if g is None else {a: min(e, dm.get(a, 0)) if self.A.info[a][0] not in ('exp', 'expc', 'expq') else min(e, dm.get(a, 0)) for a, e in g.items() if a in dm}
        if len(p) == 1:
            (m, c), = p.items()
            r = self.logc(c)
            for a, e in m:
                k, pl = self.A.info[a]
                if k == 'exp':
                    mm, q = pl
                    t = ({mm: Fraction(e, q)}, {(): Fraction(1)})
                elif k == 'expq': t = ({pl[0]: Fraction(e) / Fraction(pl[1])}, pl[2])
                elif a in self.A.pos:
                    t = self.ratom('log', {((a, 1),): Fraction(1)}, pkey({((a, 1),): Fraction(1)}))
                    t = self.rmul(self.rconst(e), t)
                else:
                    return self.ratom('log', p, pkey(p))
                r = self.radd(r, t)
            return r
        m0 = min(p); c = p[m0]
        # pull the rational content only when all coefficients agree
        if all(v == c for v in p.values()) and c != 1:
            return self.radd(self.logc(c), self.logpos({m: Fraction(1) for m in p}))
        return self.ratom('log', p, pkey(p))
    def logc(self, c):
        if c == 1: return self.rconst(0)
        return self.ratom('logc', Fraction(c))
    def f_sqrt(self, x):
        n, d = x
        if d == {(): 1}: n = repp(n)
        if not n: return self.rconst(0)
        if d != {(): 1}:
            if not (self.pos(d) or self.nonneg(d)):
                return self.opaque('sqrtq', (x,))
            r = self.f_sqrt((self.pmul(n, d), {(): Fraction(1)}))
            if len(r[0]) == 1 and r[1] == {(): 1}:
                (m, c), = r[0].items()
                if len(m) == 1: self.A.src.setdefault(m[0][0], n)
            return self.rmul(r, self.rinv((d, {(): Fraction(1)})))
        # rational content that is a perfect square, even powers of positive atoms
        if len(n) == 1:
            (m, c), = n.items()
            if c > 0 and all(a in self.A.pos or self.A.info[a][0] == 'sqrt' for a, e in m):
                rest = []; out = []
                for a, e in m:
                    k, e = divmod(e, 2)
                    if k: out.append((a, k))
                    if e: rest.append((a, e))
                cc = N.fn('sqrt', N.const(c))
                if isc(cc):
                    base = ({tuple(sorted(out)): Fraction(cval(cc))}, {(): Fraction(1)})
                else:
                    base = self.rmul(({tuple(sorted(out)): Fraction(1)}, {(): Fraction(1)}), self.sqatom({(): c}))
                for a, e in rest:
                    base = self.rmul(base, self.sqatom({((a, 1),): Fraction(1)}))
                return base
        # pull out a common rational square factor
        c0 = abs(n[min(n)])
        cc = N.fn('sqrt', N.const(c0))
        if isc(cc) and c0 != 1:
            s = Fraction(cval(cc))
            return self.rmul(self.rconst(s), self.sqatom({m: v / c0 for m, v in n.items()}))
        return self.sqatom(n)
    def sqatom(self, p):
        i = self.A.get('sqrt', p, pkey(p))
        self.sqrt_red[i] = p
        if self.pos(p): self.A.pos.add(i)
        return ({((i, 1),): Fraction(1)}, {(): Fraction(1)})
    def f_tanh(self, x):
        return self.oddfn('tanh', x)
    def f_sin(self, x): return self.oddfn('sin', x)
    def f_tan(self, x): return self.oddfn('tan', x)
    def f_arctan(self, x): return self.oddfn('arctan', x)
    def f_sinh(self, x): return self.oddfn('sinh', x)
    def f_cos(self, x): return self.oddfn('cos', x, 1)
    def f_cosh(self, x): return self.oddfn('cosh', x, 1)
    def oddfn(self, name, x, even=0):
        n, d = x
        if not n: return self.rconst(1 if even else 0)
        m0 = min(n)
        if n[m0] * d[min(d)] < 0:
            x2 = ({m: -v for m, v in n.items()}, d)
            r = self.opaque(name, (x2,))
            return r if even else self.rmul(self.rconst(-1), r)
        return self.opaque(name, (x,))
