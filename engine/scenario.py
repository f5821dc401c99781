"""Run one scenario: explore symbolically, decide every claim with the solver, and run the
native build on concrete inputs (counterexample replay, reachability witnesses, validation of
the encoding)."""
import signal, json, math, os, random, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import exact
import prove
from prove import Explored, Path, FPPath, FloatEval, f2bits, INF, bits2f

NAMES_SPECIAL = [0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 3.0, 10.0, -2.0, 1e-3, 100.0]


def sample_inputs(ex, rng, n):
    """assignments within the declared bounds"""
    dom = {}
    consts = set()
    for p in ex.paths:
        for kind, pred, a, b, taken in p['conds']:
            na, nb = ex.nodes[a], ex.nodes[b]
            if kind in 'de':
                s, c, side = (nb, na, 0) if nb['op'] in ('sym', 'isym') else (na, nb, 1)
                v = int(c['name']) if c['op'] == 'iconst' else bits2f(c['bits'])
                dom.setdefault(s['name'], [s['op'], -INF, INF])[1 + side] = v
            else:
                for x in (na, nb):
                    if x['op'] == 'const':
                        consts.add(bits2f(x['bits']))
                    elif x['op'] == 'iconst':
                        consts.add(float(int(x['name'])))
    for x in ex.nodes:
        if x['op'] == 'const' and len(consts) < 60:
            consts.add(bits2f(x['bits']))
    consts = sorted(c for c in consts if math.isfinite(c))
    out = []
    anysym = [x['name'] for x in ex.nodes if x['op'] == 'any']
    for k in range(n):
        env = {}
        style = k % 4
        for name, (op, lo, hi) in dom.items():
            if op == 'isym':
                lo, hi = int(lo), int(hi)
                r = rng.random()
                if r < 0.3:
                    v = min(hi, lo + rng.randrange(0, 4))
                elif r < 0.4:
                    v = hi
                elif r < 0.7:
                    v = min(hi, lo + rng.randrange(0, 40))
                elif r < 0.85:
                    v = rng.randint(lo, hi)
                else:
                    v = min(hi, max(lo, lo + int(math.exp(rng.uniform(0, math.log(hi - lo + 1.5))))))
                env[name] = v
                continue
            r = rng.random()
            if style == 0 or r < 0.4:
                v = rng.uniform(max(lo, -4.0), min(hi, 4.0)) if max(lo, -4.0) < min(hi, 4.0) else rng.uniform(lo, hi)
            elif r < 0.55:
                v = rng.choice(NAMES_SPECIAL)
            elif r < 0.65 and consts:
                v = rng.choice(consts) + rng.choice([0.0, 0.0, 1e-6, -1e-6, 1.0, -1.0])
            elif r < 0.72 and env:
                v = rng.choice([float(x) for x in env.values()])
            elif r < 0.8:
                v = rng.choice([lo, hi])
            elif r < 0.9:
                v = float(rng.randint(-6, 12))
            else:
                m = max(abs(lo), abs(hi))
                v = math.exp(rng.uniform(math.log(1e-6), math.log(max(m, 1e-5)))) * (1 if rng.random() < 0.6 or lo >= 0 else -1)
            env[name] = min(hi, max(lo, v))
        for name in anysym:
            env[name] = rng.choice([math.nan, INF, -INF, 0.0, -0.0, 5e-324, -5e-324, 1.0, -1.0, 1e308, rng.uniform(-3, 3), rng.uniform(0, 1), rng.uniform(0, 1),
                                    1.0 - 2 ** -53, 1.0 + 2 ** -52, rng.uniform(1, 100)] + consts[:8])
        out.append(env)
    return out


def encode(env):
    return ' '.join(f'{k}={f2bits(v) if isinstance(v, float) else v}' for k, v in env.items())


def native(binary, name, envs, timeout=240):
    inp = '\n'.join(encode(e) for e in envs) + '\n'
    try:
        r = subprocess.run([binary, 'replay', name], input=inp, capture_output=True, text=True, timeout=timeout)
        lines = [json.loads(l[2:]) for l in r.stdout.split('\n') if l.startswith('@@')]
        if r.returncode != 0 and len(lines) < len(envs):
            lines.append({'status': 'crash', 'msg': f'the process ended with {r.returncode}', 'claims': []})
    except subprocess.TimeoutExpired:
        lines = []
    return lines


def pf(s):
    return float(s.replace('NaN', 'nan'))


def close(x, y, tol=1e-6):
    if x != x or y != y:
        return x != x and y != y
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= tol * (1 + max(abs(x), abs(y)))


class TimeLimit(BaseException):
    pass


def _alarm(sig, frame):
    raise TimeLimit()


def run(arg):
    name, binaries, seed, tier, max_paths, tmp, findings = arg
    t0 = time.time()
    deadline = t0 + (150 if tier == 'quick' else 3000)
    if tier != 'quick':
        prove.S_TIMEOUT, prove.Q_TIMEOUT, prove.HARD = 10000, 120000, 150
    rng = random.Random(f'{seed}/{name}')
    res = {'scenario': name, 'paths': 0, 'forks': 0, 'infeasible': 0, 'claims': 0, 'proved': {}, 'open': [], 'violations': [], 'known': [],
           'errors': [], 'validated': 0, 'labels': {}, 'samples': [], 'stats': {'queries': 0, 'solver_s': 0.0, 'opaque': 0}, 'texts': []}
    out = os.path.join(tmp, name.replace('/', '_') + '.json')
    e = dict(os.environ, VSYM_OUT=out)
    try:
        r = subprocess.run([binaries['symbolic'], 'explore', name, str(max_paths)], env=e, capture_output=True, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        res['errors'].append('exploration timed out')
        return res
    if r.returncode != 0:
        res['errors'].append('exploration ended with %s: %s' % (r.returncode, r.stderr[-400:]))
        return res
    ex = Explored(out)
    os.unlink(out)
    res['explore_s'] = round(time.time() - t0, 2)
    res['paths'], res['forks'] = ex.end['paths'], ex.end['forks']
    if not ex.end['complete']:
        res['errors'].append(f'more than {max_paths} paths')
    envs = sample_inputs(ex, rng, 160)
    opens = []
    models, first = [], []
    tried = 0
    fp = any(x['op'] == 'any' for x in ex.nodes)
    for p in ex.paths:
        if p['status'] == 'assume':
            continue
        claims = list(p['claims'])
        if p['status'] == 'panic':
            claims.append(['no panic', 'true', 0, 0, '0', False, len(p['conds'])])
        elif p['status'] == 'abort':
            claims.append(['encoded', 'true', 0, 0, '0', False, len(p['conds'])])
        for ev in p['events']:
            if ev not in res['texts']:
                res['texts'].append(ev)
        if not claims:
            continue
        if time.time() > deadline:
            for cl in claims:
                res['claims'] += 1
                opens.append((cl[0], 'time limit', p['path'], '', None))
                res['labels'].setdefault(cl[0], {'n': 0, 'witness': 0})
            if len(opens) > 200:
                break
            continue
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, max(5.0, deadline - time.time() + 20))
        done = 0
        try:
            P = (FPPath if fp else Path)(ex, p, res['stats'])
            if not P.load():
                res['infeasible'] += 1
                continue
            # the inputs of the first paths, and of the first path that reaches a claim
            new = len(first) < 200 and any(cl[0] not in res['labels'] for cl in claims)
            m = P.feasible_model() if new or len(models) < 400 else z3.unknown
            if isinstance(m, dict):
                (first if new else models).append(m)
            elif m == z3.unsat:
                res['infeasible'] += 1
                continue
            for cl in claims:
                res['claims'] += 1
                lab = cl[0]
                d = res['labels'].setdefault(lab, {'n': 0, 'witness': 0})
                d['n'] += 1
                signal.setitimer(signal.ITIMER_REAL, max(5.0, min(60.0 if tier == 'quick' else 900.0, deadline - time.time() + 20)))
                st, how, mod = P.decide(cl)
                done += 1
                if st == 'proved':
                    res['proved'][how] = res['proved'].get(how, 0) + 1
                else:
                    opens.append((lab, how, p['path'], p['msg'], mod))
                    if mod:
                        models.append(mod)
                        if tried < 25 and (name, lab) not in findings:
                            tried += 1
                            # a confirmed violation needs no company
                            nat = native(binaries['native'], name, [dict(envs[0] if envs else {}, **mod)], 20)
                            if nat and any(c['label'] == lab and not c['ok'] for c in nat[0]['claims']):
                                tried = 25
                                deadline = min(deadline, time.time() + 20)
                    if len(opens) > 200:
                        break
        except TimeLimit:
            for cl in claims[done:]:
                res['claims'] += 1
                opens.append((cl[0], 'time limit', p['path'], '', None))
                res['labels'].setdefault(cl[0], {'n': 0, 'witness': 0})
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if len(opens) > 200:
            break
    # native runs
    dflt = envs[0] if envs else {}
    models = first + models
    cases = [dict(dflt, **m) for m in models] + envs
    if not cases:
        cases = [{}]
    t1 = time.time()
    nat = native(binaries['native'], name, cases[:400])
    if opens:
        # as many more as take about a minute
        extra = min(3000, int(60 * min(len(cases), 400) / max(time.time() - t1, 1e-3)))
        cases += sample_inputs(ex, rng, extra)
        # neighbourhoods of the solver's models
        for m in models[-50:]:
            for _ in range(6):
                q = dict(dflt)
                for k, v in m.items():
                    q[k] = v if rng.random() < 0.5 or not isinstance(v, float) else v * (1 + rng.uniform(-0.5, 0.5)) + rng.choice([0, rng.uniform(-1, 1)])
                cases.append(q)
    if len(nat) == min(len(cases), 400) and not (nat and nat[-1]['status'] == 'crash') and len(cases) > 400:
        nat += native(binaries['native'], name, cases[400:])
    lo_hi = {}
    openlabels = {o[0] for o in opens}
    failed = {}
    sharp = set()
    for env, r in zip(cases, nat):
        if r['status'] == 'assume':
            continue
        if r['status'] in ('panic', 'crash'):
            failed.setdefault('no panic', []).append((env, r['msg']))
        if r['status'] == 'crash':
            break
        for c in r['claims']:
            d = res['labels'].get(c['label'])
            if d is not None:
                d['witness'] += 1
            if not c['ok']:
                failed.setdefault(c['label'], []).append((env, f"{c['a']} against {c['b']} {c['detail']}"))
                if not (math.isfinite(pf(c['a'])) and math.isfinite(pf(c['b']))):
                    sharp.add((id(env), c['label']))
    # validation: the recorded terms, evaluated in double precision, against the native values
    nval = 0
    for env, r in list(zip(cases, nat))[:120]:
        if r['status'] != 'ok' or any(v != v for v in env.values() if isinstance(v, float)):
            continue
        try:
            fe = FloatEval(ex.nodes, env)
            hit = None
            for p in ex.paths:
                if p['status'] == 'ok' and all(fe.cond(c) for c in p['conds']):
                    hit = p
                    break
        except KeyError:
            continue
        if hit is None:
            res['stats']['nopath'] = res['stats'].get('nopath', 0) + 1
            continue
        vals = [c for c in r['claims'] if c['kind'] not in ('out', 'true')]
        syms = [c for c in hit['claims'] if c[1] != 'true']
        if len(vals) != len(syms):
            res['stats']['mismatch'] = res['stats'].get('mismatch', 0) + 1
            res['stats'].setdefault('mismatches', []).append(f'{len(syms)} claims encoded, {len(vals)} native, at {encode(env)}')
            continue
        bad = False
        for c, s in zip(vals, syms):
            x = fe(s[2])
            if not close(x, pf(c['a'])) or (s[1] != 'fin' and not close(fe(s[3]), pf(c['b']))):
                res['stats']['mismatch'] = res['stats'].get('mismatch', 0) + 1
                if res['stats']['mismatch'] <= 3:
                    res['stats'].setdefault('mismatches', []).append(f"{s[0]}: encoded {x!r}/{fe(s[3])!r} native {c['a']}/{c['b']} at {encode(env)}")
                bad = True
        if not bad:
            nval += 1
            if len(res['samples']) < 2:
                res['samples'].append({'scenario': name, 'inputs': {k: v for k, v in env.items()}, 'path': hit['path'],
                                       'claims': [c['label'] for c in r['claims']][:6]})
    res['validated'] = nval
    if not res['claims']:
        res['errors'].append('vacuous: no path reached a claim')
    if res['stats'].get('nopath', 0) > 30 and res['stats']['nopath'] > nval:
        res['errors'].append(f"{res['stats']['nopath']} native samples follow no explored path")
    # verdicts
    for lab, how, pth, msg, mod in opens:
        rep = failed.get(lab)
        if lab == 'encoded':
            res['open'].append({'label': lab, 'why': msg, 'path': pth})
        elif rep:
            pass
        else:
            res['open'].append({'label': lab, 'why': how + (' ' + msg if msg else ''), 'path': pth, 'model': mod})
    for lab, reps in list(failed.items()):
        if lab not in openlabels or fp or lab in ('no panic', 'encoded') or 'encoded' in openlabels:
            continue
        # an open claim that fails natively, but not before rounding
        keep, t1 = [], time.time()
        for env, detail in reps:
            if (id(env), lab) in sharp or keep or time.time() - t1 > 20 or not exact.holds(ex, env, lab):
                keep.append((env, detail))
        if not keep:
            res['open'].append({'label': lab, 'why': 'fails natively by rounding only', 'path': reps[0][1]})
            del failed[lab]
        else:
            failed[lab] = keep
    for lab, reps in failed.items():
        k = findings.get((name, lab))
        env, detail = min(reps, key=lambda t: sum(len(repr(v)) for v in t[0].values()))
        rec = {'scenario': name, 'label': lab, 'inputs': env, 'line': encode(env), 'detail': detail, 'solver': lab in openlabels, 'cases': len(reps)}
        if k is not None:
            rec['what'] = k
            res['known'].append(rec)
        elif lab in openlabels or 'encoded' in openlabels:
            res['violations'].append(rec)
        else:
            # every path's claim was discharged over the reals: rounding, unless the values are far apart
            res['stats'].setdefault('rounding', []).append(rec)
    for lab, d in res['labels'].items():
        if d['witness'] == 0 and lab not in ('no panic', 'encoded') and not any(o['label'] == lab for o in res['open']):
            d['unwitnessed'] = True
    res['wall_s'] = round(time.time() - t0, 2)
    return res


if __name__ == '__main__':
    b = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), '.build')
    tag = os.environ.get('TAG', 'base')
    for n in sys.argv[1:]:
        r = run((n, {'native': b + '/native-' + tag, 'symbolic': b + '/symbolic-' + tag}, 1, 'quick', 20000, '/tmp', {}))
        print(json.dumps(r, indent=1, default=str))
