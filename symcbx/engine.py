"""Explores one scenario instance symbolically, discharges its checks, replays counterexamples, validates the encoding."""
import json, math, os, random, subprocess, sys, time, importlib, traceback
from fractions import Fraction
from . import nodes as N, symval as S, npfuncs as P
from .nodes import Unsupported
from .symenv import SymEnv, REPO
from .prover import Prover, STATS, Verdict, Raw, run_solver, model_values
from .concenv import default_value

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get('CBX_PYTHON', '/opt/venv/bin/python')

class Worker:
    def __init__(self): self.p = None
    def start(self):
        env = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1')
        self.p = subprocess.Popen([PY, os.path.join(HERE, 'symcbx', 'worker.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, env=env)
    def run(self, job):
        if self.p is None: self.start()
        from .worker_json import clean
        self.p.stdin.write(json.dumps(clean(job)) + '\n'); self.p.stdin.flush()
        s = self.p.stdout.readline()
        if not s:
            self.p = None
            return {'crash': 'worker died'}
        return json.loads(s)
    def close(self):
        if self.p:
            self.p.stdin.close(); self.p.wait(); self.p = None

class Path:
    __slots__ = ('pc', 'checks', 'tables', 'error', 'inputs', 'defs', 'posvars', 'unsupported', 'status')

def tof(v):
    if v in ('nan', 'inf', '-inf'): return float(v)
    return v

class Instance:
    def __init__(self, prop, spec, tier, seed, deadline):
        self.prop = prop; self.spec = spec; self.tier = tier; self.seed = seed; self.deadline = deadline
        self.harness = spec['h']; self.params = spec.get('params', {})
        self.torch = spec.get('torch', False); self.max_paths = spec.get('max_paths', 4000)
        self.timeout = spec.get('timeout', 20.0); self.nval = spec.get('validate', 2)
        self.fp_exp = spec.get('fp_exp', False)
        self.worker = Worker()
        self.paths = []; self.violations = []; self.inconclusive = []; self.functions = set()
        self.goals = 0; self.folded = 0; self.memo = {}; self.validated = 0; self.labels = {}
        self.stats = {}
        self.mod = importlib.import_module('props.' + prop)
        self.fn = getattr(self.mod, self.harness)
    def name(self): return '%s(%s)' % (self.harness, ', '.join('%s=%s' % kv for kv in self.params.items()))
    # ------------------------------------------------------------------ exploration
    def run(self):
        t0 = time.time()
        S.LAZY[0] = self.spec.get('lazy', True)
        try:
            self.explore()
            if S.LAZY[0] and self.inconclusive and not self.violations and any(p.status in ('error', 'unsupported') for p in self.paths):
                # once more with every arg-extreme decided by forking
                S.LAZY[0] = False; self.paths = []; self.inconclusive = []; self.memo = {}; self.goals = self.folded = 0; self.labels = {}
                self.explore()
            if not self.violations: self.validate()
        finally:
            self.worker.close()
        done = sum(1 for p in self.paths if p.status == 'done')
        if not self.violations and not self.inconclusive and done == 0:
            self.inconclusive.append('no feasible path reached the end (vacuous scenario)')
        return dict(name=self.name(), harness=self.harness, params=self.params, paths=done, all_paths=len(self.paths),
                    goals=self.goals, folded=self.folded, violations=self.violations, inconclusive=self.inconclusive[:10],
                    functions=sorted(self.functions), validated=self.validated, stats=STATS.as_dict(),
                    wall=time.time() - t0, labels=len(self.labels), guards=getattr(self, 'guards', 0), unwitnessed=getattr(self, 'unwitnessed', 0), sample=getattr(self, 'sample', None))
    def late(self): return time.time() > self.deadline
    def explore(self):
        stack = [()]; first = True; self.guards = 0; rnd = random.Random(11)
        while stack:
            if self.late(): self.inconclusive.append('time budget exhausted with %d open paths' % len(stack)); return
            if len(self.paths) >= self.max_paths: self.inconclusive.append('more than %d paths' % self.max_paths); return
            # after an assertion that stayed open, look at paths of another kind first
            p, alts = self.one(stack.pop(rnd.randrange(len(stack)) if self.inconclusive else -1), first)
            first = False
            stack.extend(alts)
            self.paths.append(p)
            self.prove_path(p)
            if self.violations or len(self.inconclusive) >= 16: return
    def one(self, prefix, trace=False):
        ctx = S.Ctx(prefix)
        ctx.eager = self.spec.get('eager', False)
        ctx.welldef = self.spec.get('welldef', False)
        E = SymEnv(ctx, self.torch)
        p = Path(); p.error = None; p.unsupported = None; p.status = 'done'
        P.LSE_HOOK = None; S.EXP_HOOK = None; S.LOG_HOOK = None
        if self.fp_exp:
            from . import fprange
            fprange.install(ctx)
        if trace: sys.setprofile(self.profile)
        try:
            with E.session():
                self.fn(E, **self.params)
        except S.PathEnd as e: p.status = 'cut'
        except Unsupported as e:
            p.unsupported = str(e) + where(e); p.status = 'unsupported'
        except N.SignNeeded as e:
            p.unsupported = 'sign of a term needed' + where(e); p.status = 'unsupported'
        except RecursionError as e:
            p.unsupported = 'recursion'; p.status = 'unsupported'
        except Exception as e:
            p.error = '%s: %s%s' % (type(e).__name__, str(e)[:200], where(e)); p.status = 'error'
        finally:
            if trace: sys.setprofile(None)
            P.LSE_HOOK = None; S.EXP_HOOK = None; S.LOG_HOOK = None
        p.pc = ctx.pc; p.checks = E.checks; p.tables = E.tables; p.inputs = E.inputs; p.defs = ctx.defs; p.posvars = ctx.posvars
        self.guards += getattr(ctx, 'guards', 0)
        return p, ctx.alts
    def profile(self, frame, event, arg):
        if event == 'call':
            f = frame.f_code.co_filename
            if f.startswith(REPO + '/cbx'):
                self.functions.add('%s:%s' % (os.path.relpath(f, REPO), frame.f_code.co_qualname))
    # ------------------------------------------------------------------ proving
    def prove_path(self, p):
        if p.status == 'cut': return
        provers = {}; same = []; most = len(self.inconclusive) + 2
        for label, goal, kind, a, b, k in p.checks:
            if kind == 'obs': continue
            self.goals += 1; self.labels[label] = self.labels.get(label, 0) + 1
            if N.isc(goal) and goal.args[0]:
                self.folded += 1
                if a is not None and b is not None: same.append((a, b, kind))
                continue
            key = (goal.id, tuple(c.id for c in p.pc[:k]))
            if key in self.memo: continue
            if self.late(): self.inconclusive.append('time budget exhausted'); return
            pr = provers.get(k)
            if pr is None: pr = provers[k] = Prover(p.pc[:k], p.posvars, self.timeout)
            v = pr.prove(goal)
            if v.status != 'proved':
                v2 = self.ackermann(p, k, goal)
                if v2 is not None: v = v2
            if v.status == 'proved': self.memo[key] = True; continue
            self.refute(p, label, goal, kind, a, b, k, v)
            if self.violations or len(self.inconclusive) >= most: return
        self.confirm(same)
        if p.status in ('error', 'unsupported'):
            what = p.error or ('not encodable: ' + p.unsupported)
            v = Prover(p.pc, p.posvars, min(self.timeout, 5)).prove(N.FALSE) if p.pc else Verdict('sat')
            if v.status == 'proved': p.status = 'cut'; return
            self.refute(p, ('exception: ' if p.error else '') + what, N.FALSE, 'error', None, None, len(p.pc), v)
    def confirm(self, same):
        """one solver query for all assertions of the path whose two sides already have the same normal form"""
        import z3
        tr = Raw(); bad = []; seen = set()
        for a, b, kind in same:
            if (a.id, b.id) in seen or (a is b and a.op == 'const') or N.special(a) or N.special(b) or a.sort == 'F' or b.sort == 'F': continue
            seen.add((a.id, b.id))
            if a.sort != b.sort: a, b = N.toR(a), N.toR(b)
            try: za, zb = tr(a), tr(b)
            except Unsupported: continue
            bad.append(za != zb if kind == 'eq' else za > zb)
        if not bad: return
        r, _ = run_solver([z3.Or(*bad)] + tr.ax, 10, want_model=False)
        if r == 'sat': self.inconclusive.append('solver disagrees with the normal form')
    def ackermann(self, p, k, goal):
        """functional consistency of the objective between points not syntactically equal"""
        ax = []
        used = {v.args[0] for v in N.variables([goal] + p.pc[:k])}
        for tab in p.tables.values():
            t = [(pn, v) for pn, v in tab if v.args[0] in used]
            if len(t) > 12: return None
            for i in range(len(t)):
                for j in range(i):
                    ax.append(N.or_(N.not_(N.and_(*[N.eq(x, y) for x, y in zip(t[i][0], t[j][0])])), N.eq(t[i][1], t[j][1])))
        if not ax: return None
        return Prover(p.pc[:k] + ax, p.posvars, self.timeout).prove(goal)
    # ------------------------------------------------------------------ refuting
    def candidates(self, p, model, rnd, names, n):
        doms = {nm: p.inputs.get(nm, {}) for nm in names}
        def dflt(nm, s): return default_value(s, nm, doms.get(nm, {}))
        base = {nm: (model[nm] if model.get(nm) is not None else dflt(nm, self.seed)) for nm in names}
        yield base
        if model:
            for s in range(n // 3):
                c = {}
                for nm in names:
                    v = base[nm]
                    if isinstance(v, bool) or doms[nm].get('sort') in ('I', 'B', 'F'): c[nm] = v
                    elif rnd.random() < 0.5: c[nm] = v
                    else: c[nm] = v + rnd.choice([1e-2, .1, 1.0]) * rnd.uniform(-1, 1) * (1 + (abs(v) if math.isfinite(v) else 0))
                yield c
        vals = [-3.0, -2.0, -1.0, -.5, 0.0, .25, .5, 1.0, 2.0, 3.0, 4.0]
        for s in range(n - n // 3):
            c = {}
            for nm in names:
                d = doms[nm]
                if d.get('sort') in ('I', 'B', 'F') or (rnd.random() < .3 and nm in model): c[nm] = base[nm] if rnd.random() < .5 else dflt(nm, (self.seed, s))
                elif rnd.random() < .4: c[nm] = rnd.choice(vals)
                else: c[nm] = dflt(nm, (self.seed, s))
                if isinstance(c[nm], float):
                    if d.get('lo') is not None: c[nm] = max(c[nm], d['lo'])
                    if d.get('hi') is not None: c[nm] = min(c[nm], d['hi'])
                    if d.get('pos'): c[nm] = abs(c[nm]) or .5
            yield c
    def missing(self, p, asg, memo):
        def m(nm):
            f = p.defs.get(nm)
            if f is not None: return f(lambda ns: N.evaluate(ns, asg, memo, m))
            return default_value(self.seed, nm, p.inputs.get(nm, {}))
        return m
    def violates(self, p, k, goal, kind, a, b, asg):
        memo = {}; asg = dict(asg)
        m = self.missing(p, asg, memo)
        try:
            for c in p.pc[:k]:
                if not N.evaluate([c], asg, memo, m)[0]: return False
            if kind == 'error': return True
            if kind in ('eq', 'le') and a.sort != 'F':
                if N.special(a) or N.special(b): return not N.evaluate([goal], asg, memo, m)[0]
                x, y = [float(v) for v in N.evaluate([a, b], asg, memo, m)]
                if math.isnan(x) and math.isnan(y): return False
                if math.isnan(x) or math.isnan(y): return True
                mar = 2e-7 + 3e-6 * max(abs(x), abs(y))
                return abs(x - y) > mar if kind == 'eq' else x > y + mar
            return not N.evaluate([goal], asg, memo, m)[0]
        except (Unsupported, OverflowError, ZeroDivisionError, ValueError, TypeError):
            return False
    def refute(self, p, label, goal, kind, a, b, k, v):
        rnd = random.Random(12345)
        exprs = p.pc[:k] + [goal] + [q for t in p.tables.values() for pn, _ in t for q in pn]
        if kind == 'error': exprs += []
        names = [x.args[0] for x in N.variables(exprs) if not x.args[0].startswith('stub:')]
        names = list(dict.fromkeys(names + [nm for nm in p.inputs]))
        tried = 0; t0 = time.time()
        models = [v.model or {}]
        import itertools
        more = (c for h in (self.hints(p, k, goal) if not v.model and kind != 'error' else ()) for c in self.candidates(p, h, rnd, names, 90))
        for i, c in enumerate(itertools.chain(self.candidates(p, v.model or {}, rnd, names, 400), more)):
            ok = self.violates(p, k, goal, kind, a, b, c)
            if not ok and i > 0: 
                if time.time() - t0 > max(3, 20 / (1 + len(self.inconclusive))): break
                continue
            tried += 1
            r = self.replay(p, c)
            if r.get('violation'):
                self.report(p, label, c, r); return
            if tried >= 6: break
        self.inconclusive.append('%s: %s (%s) not proved and no counterexample reproduced on the real code' % (label, v.status, v.why))
    def hints(self, p, k, goal):
        """models of both cases of the selections inside an assertion the solver could not decide"""
        conds = []; seen = set(); st = [goal]
        while st and len(conds) < 10:
            n = st.pop()
            if n.id in seen: continue
            seen.add(n.id)
            if n.op == 'ite': conds.append(n.args[0])
            st.extend(q for q in n.args if type(q) is N.Node)
        for c in conds:
            for cc in (c, N.not_(c)):
                tr = Raw()
                try: asr = [tr(q) for q in p.pc[:k]] + [tr(cc)]
                except Unsupported: continue
                r, m = run_solver(asr + tr.ax, 1)
                if r == 'sat':
                    yield {nm: x for nm, x in model_values(m, [q.args[0] for q in N.variables(p.pc[:k] + [goal, cc])]).items() if x is not None}
    def job(self, asg, tables):
        return dict(prop=self.prop, harness=self.harness, params=self.params, asg=asg, tables=tables, seed=self.seed, torch=self.torch)
    def replay(self, p, asg):
        memo = {}; asg = dict(asg); m = self.missing(p, asg, memo)
        tabs = {}
        for nm, tab in p.tables.items():
            t = []
            for pn, fv in tab:
                try: pt = [float(x) for x in N.evaluate(pn, asg, memo, m)]; val = float(N.evaluate([fv], asg, memo, m)[0])
                except Exception: continue
                t.append((pt, val))
            tabs[nm] = t
        ins = {n: v for n, v in asg.items() if n in p.inputs and '@' not in n and v is not None}
        job = self.job(ins, tabs)
        r = self.worker.run(job)
        bad = r.get('failed') or (r.get('error') and r['error'].get('in_code'))
        r['job'] = job; r['violation'] = bool(bad) and self.robust(job, r)
        return r
    def robust(self, job, r):
        """a numeric discrepancy that is only amplified rounding changes wildly when the inputs change in the 12th digit"""
        if not r.get('failed'): return True
        lab = r['failed'][0]
        if len(lab) < 3: return True
        try: d = float(lab[1]) - float(lab[2])
        except (TypeError, ValueError): return True
        if not math.isfinite(d) or d == 0: return True
        rnd = random.Random(7)
        for _ in range(3):
            j = dict(job); j['asg'] = {n: v * (1 + 1e-12 * rnd.uniform(-1, 1)) if isinstance(v, float) and math.isfinite(v) else v for n, v in job['asg'].items()}
            q = self.worker.run(j)
            for f in q.get('failed') or []:
                if f[0] != lab[0]: continue
                try: e = float(f[1]) - float(f[2])
                except (TypeError, ValueError): continue
                if math.isfinite(e) and not 0.5 < e / d < 2: return False
        return True
    def report(self, p, label, asg, r):
        what = r['failed'][0] if r.get('failed') else r['error']
        self.violations.append(dict(label=label, observed=what, job=r['job']))
    # ------------------------------------------------------------------ validation of the encoding
    def validate(self):
        self.unwitnessed = 0
        for s in range(self.nval):
            if self.late(): return
            seed = self.seed * 1000 + s
            job = self.job({}, {}); job['seed'] = seed
            r = self.worker.run(job)
            if r.get('crash'): self.inconclusive.append('validation run failed: ' + str(r['crash'])); return
            if r.get('skipped'): self.unwitnessed += 1; continue
            if r.get('failed') or (r.get('error') and r['error'].get('in_code')):
                r['job'] = job
                self.violations.append(dict(label='validation run', observed=r['failed'][0] if r.get('failed') else r['error'], job=job)); return
            if r.get('error'):
                self.inconclusive.append('scenario raises on the real code: %s' % r['error']); return
            ok = self.match(r)
            if ok is not True: self.inconclusive.append('encoding validation mismatch (seed %d): %s' % (seed, ok)); return
            self.validated += 1
            if not hasattr(self, 'sample'):
                self.sample = dict(scenario=self.name(), seed=seed, inputs={k: r['used'][k] for k in list(r['used'])[:12]}, checked=[x[:4] for x in r['results'][:4]])
    def match(self, r):
        used = {k: tof(v) for k, v in r['used'].items()}
        calls = {k: [([tof(c) for c in pt], tof(v)) for pt, v in t] for k, t in r['calls'].items()}
        why = 'no path matches'
        for p in self.paths:
            if p.status != 'done': continue
            asg = dict(used); memo = {}
            fv = {}
            for nm, tab in p.tables.items():
                for pn, v in tab: fv[v.args[0]] = (nm, pn)
            base = self.missing(p, asg, memo)
            def m(nm):
                if nm in fv:
                    f, pn = fv[nm]
                    pt = [float(x) for x in N.evaluate(pn, asg, memo, m)]
                    best = None
                    for q, v in calls.get(f, []):
                        d = max([abs(x - y) / (1 + abs(y)) for x, y in zip(pt, q)] or [0.0])
                        if best is None or d < best[0]: best = (d, v)
                    if best is None or best[0] > 1e-5: raise NoPoint()
                    return best[1]
                f = p.defs.get(nm)
                if f is not None: return f(lambda ns: N.evaluate(ns, asg, memo, m))
                raise NoPoint()
            try:
                if not all(N.evaluate([c], asg, memo, m)[0] for c in p.pc if signcond(c) or not stubby(c)): continue
                res = r['results']
                if len(res) != len(p.checks):
                    why = 'different number of checks: %d real, %d symbolic' % (len(res), len(p.checks)); continue
                for (lab, ok, l, rr), (lab2, goal, kind, a, b, k) in zip(res, p.checks):
                    if lab != lab2: return 'check order differs: %s / %s' % (lab, lab2)
                    if kind in ('eq', 'le', 'obs') and not isinstance(l, list):
                        for side, num in ((a, l), (b, rr)):
                            if side is None or num is None: continue
                            num = tof(num)
                            x = float(N.evaluate([side], asg, memo, m)[0])
                            if math.isnan(x) and math.isnan(num) or x == num: continue
                            if not abs(x - num) <= 1e-6 + 1e-5 * max(abs(x), abs(num)):
                                return '%s: symbolic value %r, real value %r' % (lab, x, num)
                    elif bool(N.evaluate([goal], asg, memo, m)[0]) != bool(ok): return '%s: truth value differs' % lab
                return True
            except NoPoint: continue
        return why

class NoPoint(Exception): pass
_stub = {}
def stubby(c):
    r = _stub.get(c.id)
    if r is None: r = _stub[c.id] = any(v.args[0].startswith('stub:') for v in N.variables([c]))
    return r

def signcond(c): return c.op == 'var' or (c.op == 'not' and c.args[0].op == 'var')

def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if '/cbx/' in f.filename or '/props/' in f.filename]
    if os.environ.get('SYMDEBUG'): return '\n' + ''.join(traceback.format_tb(e.__traceback__))
    return ' at %s:%d' % (os.path.basename(fr[-1].filename), fr[-1].lineno) if fr else ''
