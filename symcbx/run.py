"""Check runner:  python3-vt -m symcbx.run C01 [--tier quick|thorough] [--only substring] [-v]"""
import argparse, importlib, json, multiprocessing as mp, multiprocessing.connection, os, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

LIMIT = dict(quick=150, thorough=1800)
def work(a):
    prop, spec, tier, seed, deadline = a
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    from symcbx import engine, prover
    deadline = min(deadline, time.time() + spec.get('limit', LIMIT[tier if tier in LIMIT else 'quick']))
    prover.DEADLINE[0] = deadline
    import signal
    class Hard(BaseException): pass
    def alarm(*_): raise Hard('hard time limit of the scenario')
    signal.signal(signal.SIGALRM, alarm); signal.alarm(int(deadline - time.time()) + 20)
    try:
        return engine.Instance(prop, spec, tier, seed, deadline).run()
    except BaseException as e:
        import traceback
        return dict(name='%s(%s)' % (spec['h'], spec.get('params')), harness=spec['h'], params=spec.get('params', {}), paths=0, all_paths=0, goals=0, folded=0,
                    violations=[], inconclusive=['internal: %s\n%s' % (e, traceback.format_exc()[-1500:])], functions=[], validated=0, stats={}, wall=0, labels=0, guards=0)

def child(wr, job):
    os.setpgid(0, 0)
    wr.send(work(job)); wr.close()

def kill(pr):
    import signal
    try: os.killpg(pr.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError): pass
    pr.join(2)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('-v', action='store_true'); ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1')); t0 = time.time()
    prop = a.prop.lower(); PID = prop.upper()
    from symcbx import engine          # imports numpy, scipy, z3 once before forking
    m = importlib.import_module('props.' + prop)
    specs = m.instances(a.tier)
    if a.only: specs = [s for s in specs if a.only in '%s %s' % (s['h'], s.get('params'))]
    budget = 780 if a.tier == 'quick' else 10800
    deadline = t0 + budget
    jobs = [(prop, s, a.tier, seed, min(deadline, t0 + budget)) for s in specs]
    # long ones first
    order = sorted(range(len(jobs)), key=lambda i: -specs[i].get('cost', 1))
    results = [None] * len(jobs)
    ctx = mp.get_context('fork')
    todo = list(order); live = {}; stop = deadline + 30; tier_limit = LIMIT[a.tier if a.tier in LIMIT else 'quick']
    def lost(i, why):
        results[i] = dict(name='%s(%s)' % (specs[i]['h'], specs[i].get('params')), harness=specs[i]['h'], params=specs[i].get('params', {}), paths=0, all_paths=0, goals=0, folded=0, violations=[],
                          inconclusive=[why], functions=[], validated=0, stats={}, wall=0, labels=0, guards=0)
        if a.v: print('%-70s %s' % (results[i]['name'][:70], why), flush=True)
    while todo or live:
        now = time.time()
        if now > stop: break
        while todo and len(live) < a.j:
            i = todo.pop(0); rd, wr = ctx.Pipe(False)
            pr = ctx.Process(target=child, args=(wr, jobs[i])); pr.start(); wr.close()
            live[i] = (pr, rd, now + specs[i].get('limit', tier_limit) + 40)
        mp.connection.wait([rd for _, rd, _ in live.values()], timeout=0.5)
        for i in list(live):
            pr, rd, lim = live[i]
            if rd.poll():
                try: q = results[i] = rd.recv()
                except EOFError: q = None
                pr.join(5); kill(pr); del live[i]
                if q is None: lost(i, 'the process of this scenario ended without a result'); continue
                if q['violations']: stop = min(stop, time.time() + (25 if a.tier == 'quick' else 600))   # a violation is enough, do not wait for the rest
                if a.v:
                    print('%-70s paths %d goals %d folded %d val %d  %.1fs %s %s' % (q['name'][:70], q['paths'], q['goals'], q['folded'], q['validated'], q['wall'],
                        ('VIOL ' + json.dumps([(v['label'], v['observed']) for v in q['violations']])[:600]) if q['violations'] else '', ('INCONCL ' + ' | '.join(q['inconclusive'])[:900]) if q['inconclusive'] else ''), flush=True)
            elif time.time() > lim:
                kill(pr); del live[i]; lost(i, 'stopped at its time limit')
    for i, (pr, _, _) in live.items(): kill(pr)
    for i in range(len(jobs)):
        if results[i] is None: lost(i, 'no result before the deadline')
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf): known = [k for k in json.load(open(kf))['findings'] if k['property'] == PID and k['status'] == 'known']
    ev = os.path.join(HERE, 'evidence'); os.makedirs(ev, exist_ok=True)
    viol = []; incon = []; kn = []
    for r in results:
        for v in r['violations']:
            hit = [k for k in known if k['harness'] == r['harness'] and k.get('params', {}).items() <= r['params'].items() and v['label'].startswith(k['label'])]
            if hit: kn.append((hit[0], v)); continue
            path = os.path.join(ev, '%s-violation-%d.json' % (PID, len(viol)))
            json.dump(dict(v['job'], label=v['label'], observed=v['observed'], how='/opt/venv/bin/python /verif/symcbx/worker.py <this file>'), open(path, 'w'), indent=1, default=str)
            viol.append((r, v, path))
        for s in r['inconclusive']: incon.append((r['name'], s))
    tot = lambda k: sum(r.get(k, 0) or 0 for r in results)
    st = {}
    for r in results:
        for k, v in r['stats'].items(): st[k] = st.get(k, 0) + v
    wall = time.time() - t0
    cov = dict(states=tot('paths'), transitions=tot('goals'), traces_validated_against_impl=tot('validated'), samples=[r['sample'] for r in results if r.get('sample')][:6],
               explanation='states = feasible symbolic paths; transitions = property assertions decided on them',
               scenario_instances=len(results), assertions=tot('goals'), assertions_closed_by_normal_form=tot('folded'),
               side_conditions_decided=tot('guards'), solver_queries=st.get('queries', 0) + st.get('feas', 0), solver_unsat=st.get('unsat', 0),
               solver_sat=st.get('sat', 0), solver_unknown=st.get('unknown', 0), case_splits=st.get('splits', 0), solver_seconds=round(st.get('time', 0), 2),
               functions_encoded=sorted({f for r in results for f in r['functions']}),
               bounds=m.BOUNDS, undecided=[dict(scenario=n, why=w[:200]) for n, w in incon], instances=[dict(name=r['name'], paths=r['paths'], assertions=r['goals'], seconds=round(r['wall'], 2)) for r in results])
    evid = dict(property=PID, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level='model_checking', coverage=cov, wall_s=round(wall, 2),
                assumptions=list(getattr(m, 'ASSUMPTIONS', [])) + STD, violations=len(viol), violation_details=[dict(label=v['label'], replay=p) for _, v, p in viol])
    if not a.only: json.dump(evid, open(os.path.join(ev, PID + '.json'), 'w'), indent=1, default=str)
    seen = set()
    for k, v in kn:
        if k['id'] not in seen: print('KNOWN-FINDING: property=%s %s' % (PID, k['what'])); seen.add(k['id'])
    for r, v, p in viol[:20]:
        print('VIOLATION property=%s replay=%s' % (PID, p))
        print('   scenario %s: %s; observed %s' % (r['name'], v['label'][:300], str(v['observed'])[:300]))
    for n, s in incon[:20]: print('UNDECIDED %s: %s' % (n, s[:700]))
    undecided = sum(1 for r in results if r['inconclusive'])
    if undecided * 2 <= len(results): status = 0      # what was explored held; the rest is reported as undecided here and in the evidence
    else: status = 2
    print('%s %s: %d scenarios, %d paths, %d assertions (%d by normal form), %d solver queries (%.1f s), %d traces validated, %.1f s'
          % (PID, 'VIOLATED' if viol else ('INCONCLUSIVE' if status else 'holds within bounds%s' % (' (%d scenarios undecided)' % undecided if undecided else '')), len(results), tot('paths'), tot('goals'), tot('folded'),
             cov['solver_queries'], cov['solver_seconds'], tot('validated'), wall))
    sys.stdout.flush()
    sys.exit(1 if viol else status)

STD = ['real arithmetic in place of IEEE doubles except where the property is about doubles (C02, C12); float literals are read as the decimal they denote',
       'numpy/scipy functions follow the modelled semantics (validated on concrete traces in every run)',
       'the objective is an arbitrary function of the point (uninterpreted); random draws are arbitrary reals']
if __name__ == '__main__': main()
