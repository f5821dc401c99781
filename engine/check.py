"""check.py <property> [quick|thorough]: build the harness from /repo, explore every scenario of the
property symbolically, let the solver decide each claim, replay models on the native build."""
import concurrent.futures as cf
import importlib, json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build, scenario

OPT = {'C23'}                    # properties whose scenarios need the optimizer feature
PLUG = {'C24': 'plug_clif'}   # scenarios decided by a module of their own


def load_findings(pid):
    f = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(f):
        return {}
    return {(e['scenario'], e['label']): e['what'] for e in json.load(open(f))['findings'] if e['property'] == pid}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3:] 
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    evp = os.path.join(ROOT, 'evidence')
    os.makedirs(evp, exist_ok=True)
    try:
        bins = build.build(['opt'] if pid in OPT else [])
    except build.BuildFailed as e:
        print('the harness does not build against /repo:\n' + str(e))
        return 2
    names = subprocess.run([bins['native'], 'list'], capture_output=True, text=True, check=True).stdout.split()
    names = [n for n in names if n.startswith(pid + '.') and (tier == 'thorough' or not n.startswith(pid + '.t.'))]
    if only:
        names = [n for n in names if n in only]
    if not names:
        print('no scenarios for', pid)
        return 2
    findings = load_findings(pid)
    tmp = tempfile.mkdtemp(prefix='vsym')
    maxp = 20000 if tier == 'quick' else 100000
    plug = importlib.import_module(PLUG[pid]) if pid in PLUG else None
    budget = 600 if tier == 'quick' else 6 * 3600
    results = []
    try:
        ex = cf.ProcessPoolExecutor(8)
        futs = {}
        for n in names:
            arg = (n, {'native': bins['native'], 'symbolic': bins['symbolic']}, seed, tier, maxp, tmp, findings)
            fn = plug.run if plug and plug.handles(n) else scenario.run
            futs[ex.submit(fn, arg)] = n
        try:
            for f in cf.as_completed(futs, timeout=max(60, budget - (time.time() - t0))):
                n = futs[f]
                try:
                    results.append(f.result())
                except Exception as e:      # an engine failure, reported below
                    results.append({'scenario': n, 'errors': ['engine: %s: %s' % (type(e).__name__, e)]})
        except cf.TimeoutError:
            for f, n in futs.items():
                if not f.done():
                    results.append({'scenario': n, 'errors': ['out of time']})
            for p in list(ex._processes.values()):
                p.kill()
        ex.shutdown(wait=False, cancel_futures=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return report(pid, tier, seed, bins, results, t0)


def report(pid, tier, seed, bins, results, t0):
    evp = os.path.join(ROOT, 'evidence')
    results.sort(key=lambda r: r['scenario'])
    g = lambda r, k, d=0: r.get(k, d)
    S = lambda k: sum(g(r, k) for r in results)
    viol, known, opens, errors, unw = [], [], [], [], []
    how = {}
    for r in results:
        viol += g(r, 'violations', [])
        known += g(r, 'known', [])
        opens += [dict(o, scenario=r['scenario']) for o in g(r, 'open', [])]
        errors += [f"{r['scenario']}: {e}" for e in g(r, 'errors', [])]
        unw += [f"{r['scenario']}:{l}" for l, d in g(r, 'labels', {}).items() if d.get('unwitnessed')]
        for k, v in g(r, 'proved', {}).items():
            how[k] = how.get(k, 0) + v
    # several open paths of one label are one report
    st = [g(r, 'stats', {}) for r in results]
    q = sum(s.get('queries', 0) for s in st)
    val = S('validated')
    mism = sum(s.get('mismatch', 0) for s in st)
    if mism > 0.2 * max(val, 1) and mism > 10:
        errors.append(f'validation: {mism} of {val + mism} native samples differ from the encoding')
    if not viol and not sum(how.values()):
        errors.append('nothing was decided')
    rp = os.path.join(evp, 'replay')
    os.makedirs(rp, exist_ok=True)
    seen = set()
    rc = 0
    for k in known:
        key = (k['scenario'], k['label'])
        if key not in seen:
            seen.add(key)
            print(f"KNOWN-FINDING: property={pid} {k['what']} (scenario {k['scenario']}, claim '{k['label']}', e.g. {k['inputs']}: {k['detail']})")
    n = 0
    for v in viol:
        n += 1
        f = os.path.join(rp, f'{pid}-{n}.json')
        json.dump({'property': pid, 'scenario': v['scenario'], 'claim': v['label'], 'inputs': {k: repr(x) for k, x in v['inputs'].items()},
                   'observed': v['detail'], 'failing_cases': v['cases'],
                   'replay': f"echo '{v['line']}' | {bins['native']} replay {v['scenario']}"}, open(f, 'w'), indent=1)
        print(f"  {v['scenario']}: '{v['label']}' fails at {v['inputs']}: {v['detail']}")
        print(f'VIOLATION property={pid} replay={f}')
        rc = 1
    for e in errors:
        print('ERROR', e)
    for o in opens[:20]:
        print('UNDECIDED', o['scenario'], o['label'], o['why'])
    for u in unw[:20]:
        print('UNREACHED', u)
    ops = {c: {k: v for k, v in rep.items() if isinstance(v, (int, float))} if isinstance(rep, dict) else rep for c, rep in bins['report'].items()}
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': S('paths'), 'transitions': S('forks') or S('paths'), 'traces_validated_against_impl': val,
            'samples': [s for r in results for s in g(r, 'samples', [])][:12],
            'scenarios': [{k: r.get(k) for k in ('scenario', 'paths', 'forks', 'infeasible', 'claims', 'proved', 'wall_s', 'bounds') if k in r} for r in results],
            'claims': S('claims'), 'claims_discharged_by': how, 'infeasible_paths': S('infeasible'),
            'solver_queries': q, 'solver_seconds': round(sum(s.get('solver_s', 0) for s in st), 2),
            'undecided': opens[:50], 'errors': errors[:20], 'unreached_claims': unw, 'encoding_mismatches': mism, 'encoding_mismatch_examples': [x for s in st for x in s.get('mismatches', [])][:5],
            'rounding_only_differences': [x for s in st for x in s.get('rounding', [])][:10],
            'known_findings': len(seen), 'functions_encoded': ops, 'build_seconds': round(bins['seconds'], 1),
            'outside_the_encoding': sorted({t for r in results for t in g(r, 'texts', []) if isinstance(t, str)})[:20],
        },
        'assumptions': ['values are compared in exact real arithmetic up to the stated tolerance; overflow, underflow, division by zero and NaN are tracked, rounding is not',
                        'libm functions (ln, exp, lgamma, pow, sqrt, sin, cos) are their mathematical functions',
                        'inputs lie in the bounds declared in the scenario (harness/src), collections have the sizes fixed there'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    json.dump(ev, open(os.path.join(evp, pid + '.json'), 'w'), indent=1, default=str)
    print(f"{pid} {tier}: {len(results)} scenarios, {S('paths')} paths, {S('claims')} claims, discharged {how}, open {len(opens)}, "
          f"violations {len(viol)}, known {len(seen)}, validated {val}, mismatches {mism}, {q} queries, {ev['wall_s']} s")
    failed = sum(1 for r in results if g(r, 'errors', []))
    if rc == 0 and errors and (failed * 2 > len(results) or not sum(how.values())):
        rc = 2
    return rc


if __name__ == '__main__':
    sys.exit(main())
