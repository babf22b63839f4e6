"""Discharges  pc => goal  with z3 (polynomial normal form or raw translation); counts queries and time."""
import time
from fractions import Fraction
import z3
from . import nodes as N
from .nodes import Node, Unsupported, isc, cval, special
from .canon import Canon, Atoms, NeedSplit, TooBig, numeric

RNE = z3.RNE()
F64 = z3.Float64()

class Stats:
    def __init__(self):
        self.queries = 0; self.time = 0.0; self.unsat = 0; self.sat = 0; self.unknown = 0
        self.feas = 0; self.splits = 0
    def as_dict(self): return dict(self.__dict__)
STATS = Stats()

def zq(c):
    c = Fraction(c)
    return z3.RealVal(c.numerator) / z3.RealVal(c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)
def zrat(c):
    return z3.Q(c.numerator, c.denominator)

# ---------------------------------------------------------------------------------- raw translation
class Raw:
    """structure-preserving translation; functions become fresh reals with sound axioms."""
    def __init__(self, axioms=True):
        self.memo = {}; self.ax = []; self.axioms = axioms; self.hard = False
    def __call__(self, root):
        memo = self.memo; st = [root]
        while st:
            n = st[-1]
            if n.id in memo: st.pop(); continue
            t = [a for a in n.args if type(a) is Node and a.id not in memo]
            if t: st.extend(t); continue
            memo[n.id] = self.one(n); st.pop()
        return memo[root.id]
    def one(self, n):
        op = n.op; A = [self.memo[a.id] for a in n.args if type(a) is Node]
        if op == 'const':
            if n.sort == 'B': return z3.BoolVal(n.args[0])
            if n.sort == 'I': return z3.IntVal(n.args[0])
            if special(n): raise Unsupported('special constant in solver term')
            return zrat(cval(n))
        if op == 'fconst': return z3.fpBVToFP(z3.BitVecVal(int.from_bytes(n.args[0], 'big'), 64), F64)
        if op == 'var':
            nm = n.args[0]
            return {'R': z3.Real, 'I': z3.Int, 'B': z3.Bool, 'F': lambda s: z3.FP(s, F64)}[n.sort](nm)
        if op == 'add': return A[0] + A[1]
        if op == 'mul':
            if not isc(n.args[0]): self.hard = True
            return A[0] * A[1]
        if op == 'div':
            q = z3.Real('div!%d' % n.id); self.hard = True
            self.ax.append(z3.Implies(A[1] != 0, q * A[1] == A[0]))
            return q
        if op == 'toreal': return z3.ToReal(A[0])
        if op == 'imod': return A[0] % A[1]
        if op == 'idiv': return A[0] / A[1]
        if op == 'ite': return z3.If(A[0], A[1], A[2])
        if op == 'lt': return A[0] < A[1]
        if op == 'eq': return A[0] == A[1]
        if op == 'not': return z3.Not(A[0])
        if op == 'and': return z3.And(*A)
        if op.startswith('fn:'):
            nm = op[3:]; self.hard = True
            v = z3.Real('fn!%s!%d' % (nm, n.id))
            if nm == 'exp': self.ax += [v > 0]
            elif nm == 'sqrt': self.ax += [v >= 0, z3.Implies(A[0] >= 0, v * v == A[0])]
            elif nm in ('sin', 'cos'): self.ax += [v >= -1, v <= 1]
            elif nm == 'tanh': self.ax += [v > -1, v < 1, (v > 0) == (A[0] > 0), (v == 0) == (A[0] == 0)]
            elif nm == 'log': self.ax += [z3.Implies(A[0] >= 1, v >= 0), z3.Implies(A[0] < 1, v < 0)]
            return v
        if op == 'fp.add': return z3.fpAdd(RNE, *A)
        if op == 'fp.sub': return z3.fpSub(RNE, *A)
        if op == 'fp.mul': return z3.fpMul(RNE, *A)
        if op == 'fp.div': return z3.fpDiv(RNE, *A)
        if op == 'fp.neg': return z3.fpNeg(A[0])
        if op == 'fp.abs': return z3.fpAbs(A[0])
        if op == 'fp.lt': return z3.fpLT(*A)
        if op == 'fp.le': return z3.fpLEQ(*A)
        if op == 'fp.eq': return z3.fpEQ(*A)
        if op == 'fp.isnan': return z3.fpIsNaN(A[0])
        if op == 'fp.isinf': return z3.fpIsInf(A[0])
        if op == 'fp.isneg': return z3.And(z3.fpIsNegative(A[0]), z3.Not(z3.fpIsNaN(A[0])))
        raise Unsupported('raw ' + op)

def has_hard(nodes):
    """does the set of terms contain functions / divisions / nonlinear products?"""
    seen = set(); st = list(nodes); fnc = nl = fp = False
    while st:
        n = st.pop()
        if n.id in seen: continue
        seen.add(n.id)
        if n.op.startswith('fn:') or n.op == 'div': fnc = True
        elif n.op == 'mul' and not isc(n.args[0]): nl = True
        elif n.sort == 'F': fp = True
        st.extend(a for a in n.args if type(a) is Node)
    return fnc, nl, fp

# ---------------------------------------------------------------------------------- polynomial translation
class PolyTr:
    def __init__(self, canon, lemmas=False):
        self.C = canon; self.A = canon.A; self.used = set(); self.lemmas = lemmas
        self.rawtr = Raw(); self.dens = []; self.lin = False
    def zatom(self, i):
        kind, pl = self.A.info[i]
        self.used.add(i)
        if kind == 'var': return z3.Real(pl)
        return z3.Real('%s!%d' % (kind, i))
    def zpoly(self, p):
        """z3 term of the Laurent polynomial p times a positive monomial clearing negative exponents"""
        low = {}
        for m in p:
            for a, e in m:
                if e < 0: low[a] = min(low.get(a, 0), e)
        if low:
            inv = tuple(sorted((a, -e) for a, e in low.items()))
            from .canon import mmul
            p = {mmul(m, inv): c for m, c in p.items()}
        ts = []
        if self.lin:
            for m, c in sorted(p.items()): ts.append(zrat(c) * z3.Real('m!' + '_'.join('%d.%d' % t for t in m)) if m else zrat(c))
            return z3.Sum(*ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)
        for m, c in sorted(p.items()):
            t = zrat(c)
            for a, e in m:
                z = self.zatom(a)
                t = t * (z if e == 1 else z ** e)
            ts.append(t)
        if not ts: return z3.RealVal(0)
        return z3.Sum(*ts) if len(ts) > 1 else ts[0]
    def zbool(self, c):
        v = self.C.known.get(c.id)
        if isc(c): return z3.BoolVal(c.args[0])
        v = numeric(c)
        if v is not None: return z3.BoolVal(v)
        if c.op == 'not': return z3.Not(self.zbool(c.args[0]))
        if c.op == 'and': return z3.And(*[self.zbool(a) for a in c.args])
        if c.op == 'ite': return z3.If(self.zbool(c.args[0]), self.zbool(c.args[1]), self.zbool(c.args[2]))
        if c.op in ('lt', 'eq') and c.args[0].sort == 'R':
            n, d = self.C.radd(self.C.rf(c.args[0]), self.C.rf(c.args[1]), -1)
            if c.op == 'eq':
                n = snap(n, self.C, c)
                if not n: return z3.BoolVal(True)
                return self.zpoly(n) == 0
            if not n: return z3.BoolVal(False)
            if d == {(): 1} or self.C.pos(d): return self.zpoly(n) < 0
            negd = {m: -v for m, v in d.items()}
            if self.C.pos(negd): return self.zpoly(n) > 0
            if self.lin: return self.zpoly(self.C.pmul(n, d)) < 0
            return self.zpoly(n) * self.zpoly(d) < 0
        return self.rawtr(c)
    # numeric facts about atoms without variables, and ranges of atoms
    def num(self, i, memo=None):
        import math
        memo = self.C.A.__dict__.setdefault('nummemo', {})
        if i in memo: return memo[i]
        kind, pl = self.A.info[i]
        v = None
        try:
            if kind == 'sqrt': v = self.numpoly(pl); v = math.sqrt(v) if v is not None and v >= 0 else None
            elif kind == 'logc': v = math.log(pl)
            elif kind == 'log': v = self.numpoly(pl); v = math.log(v) if v is not None and v > 0 else None
            elif kind == 'exp': v = self.numpoly({pl[0]: Fraction(1)}); v = math.exp(v / float(pl[1])) if v is not None else None
            elif kind == 'expq':
                v = self.numpoly({pl[0]: Fraction(1)}); w = self.numpoly(pl[2])
                v = math.exp(v / float(pl[1]) / w) if v is not None and w else None
            elif kind == 'fn':
                a = []
                for n, d in pl[1]:
                    x = self.numpoly(n); y = self.numpoly(d)
                    if x is None or not y: break
                    a.append(x / y)
                else:
                    name = pl[0]
                    if name == 'sqrtq': v = math.sqrt(a[0])
                    elif name in ('power', 'pow'): v = a[0] ** a[1]
                    elif name == 'arctan2': v = math.atan2(*a)
                    elif name == 'arctan': v = math.atan(*a)
                    elif name in ('sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'log'): v = getattr(math, name)(*a)
        except (ValueError, OverflowError, ZeroDivisionError): v = None
        if isinstance(v, complex) or (v is not None and not math.isfinite(v)): v = None
        memo[i] = v
        return v
    def numpoly(self, p):
        s = 0.0
        for m, c in p.items():
            t = float(c)
            for a, e in m:
                v = self.num(a)
                if v is None or (v == 0 and e < 0): return None
                t *= v ** e
            s += t
        return s
    def range(self, p):
        inf = float('inf')
        lo = hi = 0.0
        for m, c in p.items():
            l = h = float(c)
            for a, e in m:
                v = self.num(a); kind, pl = self.A.info[a]
                if v is not None: x = y = v ** e
                elif e > 0 and kind == 'fn' and pl[0] in ('sin', 'cos', 'tanh'): x, y = (0.0 if e % 2 == 0 else -1.0), 1.0
                elif e % 2 == 0 or a in self.A.pos or kind == 'sqrt': x, y = 0.0, inf
                else: x, y = -inf, inf
                q = [0.0 if 0.0 in (u, w) else u * w for u in (l, h) for w in (x, y)]
                l, h = min(q), max(q)
            lo += l; hi += h
        return lo, hi
    def exps(self, nodes):
        """each exponential of the terms as a whole: above 1 iff its argument is positive, and its range"""
        import math
        out = []; seen = set(); st = list(nodes)
        while st:
            n = st.pop()
            if n.id in seen: continue
            seen.add(n.id); st.extend(a for a in n.args if type(a) is Node)
            if n.op != 'fn:exp': continue
            try: (en, ed), (tn, td) = self.C.rf(n), self.C.rf(n.args[0])
            except (NeedSplit, TooBig, Unsupported): continue
            # Laurent monomials: clear exponents of the whole fraction (all factors are positive)
            low = {}
            for m in list(en) + list(ed):
                for a, e in m:
                    if e < 0: low[a] = min(low.get(a, 0), e)
            inv = tuple(sorted((a, -e) for a, e in low.items()))
            from .canon import mmul
            nn = self.zpoly({mmul(m, inv): c for m, c in en.items()}); dd = self.zpoly({mmul(m, inv): c for m, c in ed.items()})
            if any(e < 0 for q in (tn, td) for m in q for _, e in m): continue
            t = self.zpoly(tn) if self.C.pos(td) else self.zpoly(tn) * self.zpoly(td)
            out += [(nn > dd) == (t > 0), (nn == dd) == (t == 0)]
            if td == {(): 1}:
                lo, hi = self.range(tn)
                if hi < 700: out.append(nn <= zrat(Fraction(math.exp(hi)) * (1 + Fraction(1, 10**12))) * dd)
                if -700 < lo < 700: out.append(nn >= zrat(Fraction(math.exp(lo)) * (1 - Fraction(1, 10**12))) * dd)
        return out
    def axioms(self):
        out = list(self.rawtr.ax); done = set()
        while True:
            todo = [i for i in self.used if i not in done]
            if not todo: break
            for i in todo:
                done.add(i); kind, pl = self.A.info[i]
                z = self.zatom(i)
                if i in self.A.pos: out.append(z > 0)
                v = self.num(i)
                if v is not None:
                    r = Fraction(1, 10**10) * max(1, abs(Fraction(v)))
                    out += [z >= zrat(Fraction(v) - r), z <= zrat(Fraction(v) + r)]
                    continue
                if kind == 'sqrt':
                    out.append(z >= 0)
                    out.append(z * z == self.zpoly(pl))
                elif kind == 'logc':
                    import math
                    v = Fraction(math.log(pl)); out += [z > zrat(v - Fraction(1, 10**9)), z < zrat(v + Fraction(1, 10**9))]
                elif kind == 'log':
                    p1 = self.zpoly(pl); out += [(z > 0) == (p1 > 1), (z == 0) == (p1 == 1)]
                elif kind == 'exp':
                    m, q = pl
                    if m == ():
                        import math
                        v = Fraction(math.exp(1 / q)); out += [z > zrat(v - Fraction(1, 10**9)), z < zrat(v + Fraction(1, 10**9))]
                    elif self.lemmas:
                        t = self.zpoly({m: Fraction(1, q)}) if all(e > 0 for _, e in m) else None
                        if t is not None:
                            out += [(z > 1) == (t > 0), (z == 1) == (t == 0), z >= 1 + t]
                elif kind == 'fn':
                    name, args = pl
                    if name in ('sin', 'cos'): out += [z <= 1, z >= -1]
                    elif name == 'sqrtq':
                        n, d = args[0]
                        out.append(z >= 0)
                        if not any(e < 0 for q in (n, d) for m in q for _, e in m): out.append(z * z * self.zpoly(d) == self.zpoly(n))
                    elif name == 'cosh': out += [z >= 1]
                    elif name == 'pow' and not any(e < 0 for q in args[0] for m in q for _, e in m):
                        n, d = args[0]
                        t = self.zpoly(n) if self.C.pos(d) else self.zpoly(n) * self.zpoly(d)
                        out += [z3.Implies(t >= 0, z >= 0)]
                    elif name == 'tanh':
                        n, d = args[0]
                        t = self.zpoly(n) if self.C.pos(d) else self.zpoly(n) * self.zpoly(d)
                        out += [z < 1, z > -1, (z > 0) == (t > 0), (z == 0) == (t == 0)]
                elif kind == 'int':
                    out.append(z == self.rawtr(pl))
        return out

def snap(n, canon, c):
    """drop coefficients that are pure rounding of constants (relative 1e-11 of the same monomial)"""
    if not n: return n
    if max(abs(v) for v in n.values()) > 0 and all(abs(v) < Fraction(1, 10**9) for v in n.values()):
        a, b = canon.rf(c.args[0]), canon.rf(c.args[1])
        p1 = canon.pmul(a[0], b[1]); p2 = canon.pmul(b[0], a[1])
        out = {}
        for m in set(p1) | set(p2):
            u, v = p1.get(m, Fraction(0)), p2.get(m, Fraction(0))
            if abs(u - v) > Fraction(1, 10**11) * max(abs(u), abs(v)): out[m] = u - v
        return out
    big = {m: v for m, v in n.items() if abs(v) >= Fraction(1, 10**11)}
    if len(big) != len(n) and big == {}: return {}
    return n

def run_solver(assertions, timeout, tactic=None, want_model=True):
    """returns (verdict, model)"""
    t0 = time.time()
    STATS.queries += 1
    s = z3.Tactic(tactic).solver() if tactic else z3.Solver()
    s.set('timeout', int(timeout * 1000))
    for a in assertions: s.add(a)
    try:
        r = s.check()
    except z3.Z3Exception as e:
        r = z3.unknown
    STATS.time += time.time() - t0
    if r == z3.unsat: STATS.unsat += 1; return 'unsat', None
    if r == z3.sat:
        STATS.sat += 1
        return 'sat', s.model() if want_model else None
    STATS.unknown += 1
    return 'unknown', None

def model_values(model, names):
    out = {}
    d = {str(v): model[v] for v in model.decls()} if False else {v.name(): model[v] for v in model.decls()}
    for nm in names:
        if nm in d: out[nm] = zval(d[nm])
    return out
def zval(v):
    if z3.is_bool(v): return z3.is_true(v)
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    if z3.is_fp_value(v) or z3.is_fp(v):
        import struct
        if v.isNaN(): return float('nan')
        bv = z3.simplify(z3.fpToIEEEBV(v))
        return struct.unpack('>d', bv.as_long().to_bytes(8, 'big'))[0]
    return None

class Verdict:
    def __init__(self, status, model=None, why=''):
        self.status = status; self.model = model or {}; self.why = why
    def __repr__(self): return 'Verdict(%s,%s)' % (self.status, self.why)

MAXSPLIT = 4000
DEADLINE = [None]     # wall-clock end of the scenario

def conj(d):
    if d.op == 'and':
        return [q for a in d.args for q in conj(a)]
    return [d]

class Prover:
    def __init__(self, pc, posvars=(), timeout=20.0, deadline=None):
        self.pc = list(pc); self.timeout = timeout; self.posvars = set(posvars)
        self.deadline = deadline
        self.base = Canon(); self.base.posvars = self.posvars
        self.splits = 0; self.blind = None
        for c in self.pc: self.note(self.base, c, True)
    def note(self, canon, c, val):
        try: canon.learn(c, val)
        except (Unsupported, NeedSplit): canon.known[c.id] = val
    def prove(self, goal, lemmas=False):
        goal = N.toB(goal)
        if isc(goal):
            if goal.args[0]: return Verdict('proved', why='folded')
            # constant false: is the path feasible?
            return self.refute(self.pc, self.base, goal, lemmas)
        if self.decided(goal): return Verdict('proved', why='a comparison of the path in normal form')
        if self.opaque(goal): return Verdict('proved', why='normal form with selections as unknowns')
        if self.disjunct(goal): return Verdict('proved', why='normal form')
        if self.hypothesis(goal): return Verdict('proved', why='normal form of a hypothesis')
        fnc, nl, fp = has_hard([goal])
        pf = has_hard(self.pc)
        if fp or pf[2]: return self.raw_query(goal)
        if not fnc and not nl and not any(pf):
            v = self.raw_query(goal, 5)
            if v.status != 'unknown': return v
        if not fnc and not nl:
            # linear goal: the linear part of the path condition may already suffice
            lin = [c for c in self.pc if not any(has_hard([c]))]
            v = self.raw_query(goal, 2, pc=lin)
            if v.status == 'proved': return v
        if self.blind is not None and self.selects(goal):
            t, self.timeout = self.timeout, min(self.timeout, 6)
            try: v = self.refute1(self.pc, self.blind, goal, lemmas)
            except (NeedSplit, TooBig, Unsupported): v = Verdict('unknown')
            finally: self.timeout = t
            if v.status == 'proved': return v
        return self.split(goal, self.base, self.pc, lemmas, 0)
    def decided(self, goal):
        c = goal.args[0] if goal.op == 'not' else goal
        if c.op not in ('eq', 'lt') or c.args[0].sort != 'R' or not self.pc: return False
        if all(a.op in ('var', 'const') for a in c.args): return False
        try: return self.base.cond(goal)
        except (NeedSplit, TooBig, Unsupported): return False
    def selects(self, goal):
        seen = set(); st = [goal]
        while st:
            n = st.pop()
            if n.id in seen: continue
            seen.add(n.id)
            if n.op == 'ite' and n.sort == 'R': return True
            st.extend(a for a in n.args if type(a) is Node)
        return False
    def opaque(self, goal):
        """both sides agree without looking into selected values (minima, maxima)"""
        if goal.op != 'eq' or goal.args[0].sort != 'R': return False
        if self.blind is None:
            self.blind = self.base.fresh(dict(self.base.known)); self.blind.opaque_ite = True
        try: return not self.blind.radd(self.blind.rf(goal.args[0]), self.blind.rf(goal.args[1]), -1)[0]
        except (NeedSplit, TooBig, Unsupported): return False
    def disjunct(self, goal):
        """a disjunction one of whose members is an equation between equal normal forms"""
        if not (goal.op == 'not' and goal.args[0].op == 'and'): return False
        for c in goal.args[0].args:
            d = c.args[0] if c.op == 'not' else N.not_(c)
            parts = sorted(conj(d), key=lambda q: 0 if all(a.op in ('var', 'const') for a in q.args if type(a) is Node) else 1)
            ok = True
            for q in parts:
                if q.id in self.base.known: ok = self.base.known[q.id]
                elif q.op == 'eq' and q.args[0].sort == 'R':
                    if all(a.op in ('var', 'const') for a in q.args) and q.args[0] is not q.args[1]: ok = False
                    else:
                        try: ok = not self.base.radd(self.base.rf(q.args[0]), self.base.rf(q.args[1]), -1)[0]
                        except (NeedSplit, TooBig, Unsupported): ok = False
                else: ok = False
                if not ok: break
            if ok: return True
        return False
    def hypothesis(self, goal):
        """an equation that is, up to sign, the normal form of an equation already on the path"""
        B = self.blind or self.base
        if goal.op != 'eq' or goal.args[0].sort != 'R': return False
        hyp = [c for c in self.pc if c.op == 'eq' and c.args[0].sort == 'R' and not all(a.op in ('var', 'const') for a in c.args)]
        if not hyp or len(hyp) > 12: return False
        try: g = B.radd(B.rf(goal.args[0]), B.rf(goal.args[1]), -1)
        except (NeedSplit, TooBig, Unsupported): return False
        for c in hyp:
            try:
                h = B.radd(B.rf(c.args[0]), B.rf(c.args[1]), -1)
                if not B.radd(g, h, -1)[0] or not B.radd(g, h)[0]: return True
            except (NeedSplit, TooBig, Unsupported): pass
        return False
    def raw_query(self, goal, timeout=None, pc=None):
        tr = Raw()
        try:
            asr = [tr(c) for c in (self.pc if pc is None else pc)] + [z3.Not(tr(goal))]
        except Unsupported as e:
            return Verdict('unknown', why=str(e))
        r, m = run_solver(asr + tr.ax, timeout or self.timeout)
        if r == 'unsat': return Verdict('proved')
        if r == 'sat':
            names = [v.args[0] for v in N.variables(self.pc + [goal])]
            return Verdict('sat', model_values(m, names))
        return Verdict('unknown', why='raw timeout')
    def split(self, goal, canon, pc, lemmas, depth):
        """case split over the ITE conditions of the goal"""
        if DEADLINE[0] and time.time() > DEADLINE[0]: return Verdict('unknown', why='deadline')
        if self.splits > MAXSPLIT: return Verdict('unknown', why='too many case splits')
        try:
            tr = PolyTr(canon, lemmas)
            g = tr.zbool(goal)
        except NeedSplit as e:
            c = e.cond
            res = None
            for val in (True, False):
                k = canon.fresh(dict(canon.known))
                cc = c if val else N.not_(c)
                self.splits += 1; STATS.splits += 1
                self.note(k, c, val)
                if not self.feasible(pc + [cc]): continue
                v = self.split(goal, k, pc + [cc], lemmas, depth + 1)
                if v.status != 'proved': return v
            return Verdict('proved')
        except (TooBig, Unsupported) as e:
            v = self.raw_query(goal, pc=pc)
            if v.status == 'unknown': v.why = str(e) + '; ' + v.why
            return v
        # goal alone
        neg = z3.Not(g)
        sneg = z3.simplify(neg)
        if z3.is_false(sneg):
            r, m = run_solver([neg], 5)
            if r == 'unsat': return Verdict('proved')
        return self.refute(pc, canon, goal, lemmas, tr, neg)
    def feasible(self, pc, timeout=1.0):
        STATS.feas += 1
        tr = Raw()
        try: asr = [tr(c) for c in pc]
        except Unsupported: return True
        r, _ = run_solver(asr + tr.ax, timeout, want_model=False)
        return r != 'unsat'
    def linear(self, pc, canon, goal):
        """monomials as independent unknowns: decides the cases that only need the comparisons already made"""
        tr = PolyTr(canon); tr.lin = True
        asr = []
        for c in [N.not_(goal)] + list(pc):
            try: asr.append(tr.zbool(c))
            except (NeedSplit, TooBig, Unsupported): pass
        r, _ = run_solver(asr + tr.rawtr.ax, 1, want_model=False)
        return r == 'unsat'
    def refute(self, pc, canon, goal, lemmas, tr=None, neg=None):
        v = self.refute1(pc, canon, goal, lemmas, tr, neg)
        if v.status == 'proved' or lemmas: return v
        # conditions inside the path condition that the goal did not ask about
        tr2 = PolyTr(canon, lemmas)
        for c in pc:
            try: tr2.zbool(c)
            except NeedSplit as e:
                if canon.pcdepth >= 5: return v
                c = e.cond
                for val in (True, False):
                    k = canon.fresh(dict(canon.known)); k.pcdepth = canon.pcdepth + 1
                    cc = c if val else N.not_(c)
                    self.splits += 1; STATS.splits += 1
                    for q in pc: self.note(k, q, True)
                    self.note(k, c, val)
                    if not self.feasible(pc + [cc]): continue
                    w = self.split(goal, k, pc + [cc], lemmas, 0)
                    if w.status != 'proved': return v
                return Verdict('proved', why='cases of the path condition')
            except (TooBig, Unsupported): pass
        return v
    def refute1(self, pc, canon, goal, lemmas, tr=None, neg=None):
        if tr is None:
            tr = PolyTr(canon, lemmas); neg = z3.Not(tr.zbool(goal))
        if pc and not isc(goal) and self.linear(pc, canon, goal): return Verdict('proved', why='linear in the monomials')
        ax0 = tr.axioms()
        names = [v.args[0] for v in N.variables(pc + [goal])]
        r, m = run_solver([neg] + ax0, min(3, self.timeout), 'qfnra-nlsat')
        if r == 'unsat': return Verdict('proved')
        if lemmas:
            ax0 = ax0 + tr.exps([goal])
            r, m = run_solver([neg] + tr.axioms() + ax0, min(3, self.timeout), 'qfnra-nlsat')
            if r == 'unsat': return Verdict('proved')
        # with path condition
        zpc = []
        dropped = 0
        for c in pc:
            try: zpc.append(tr.zbool(c))
            except (NeedSplit, TooBig, Unsupported):
                dropped += 1
                try: zpc.append(tr.rawtr(c))
                except Unsupported: pass
        ax = tr.axioms()
        if lemmas: ax = ax + tr.exps([goal]); ax += tr.axioms()
        asr = [neg] + zpc + ax
        status, why = 'unknown', 'solver gave up'
        model = {}
        for tac, to in (('qfnra-nlsat', self.timeout / 2), (None, self.timeout / 2), ):
            r, m = run_solver(asr, to, tac)
            if r == 'unsat': return Verdict('proved')
            if r == 'sat':
                if not lemmas:
                    v = self.refute1(pc, canon, goal, True)
                    if v.status == 'proved': return v
                return Verdict('sat', model_values(m, names), why='poly')
        if not lemmas:
            return self.refute1(pc, canon, goal, True)
        return Verdict('unknown', why='solver timeout')
