"""Entry point of every check: explores the harnesses of one property, replays counterexamples on the real code, writes evidence."""
import json
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get('SX_PYTHON', '/opt/venv/bin/python')
REPO = os.environ.get('SX_REPO', '/repo')


class Conc:
    """Fork server executing cases on the real code."""
    def __init__(self, mod):
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        self.p = subprocess.Popen([PY, os.path.join(ROOT, 'sx', 'conc.py'), mod], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  env=env, cwd=ROOT, text=True)
        line = self.p.stdout.readline()
        if 'ready' not in line:
            raise SystemExit('the concrete runner did not start')

    def run(self, harness, inputs, params, timeout=30):
        self.p.stdin.write(json.dumps({'harness': harness, 'inputs': inputs, 'params': params, 'timeout': timeout}) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            return {'status': 'died', 'label': 'concrete runner ended'}
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


def load_known(pid):
    path = os.path.join(ROOT, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line.startswith('KNOWN-FINDING: property=%s ' % pid):
                out.append(line)
    return out


def obs_equal(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def near(a, b):
    """Observed values agree (decimal quotients are exact on the symbolic side, rounded at 100 digits on the real one)."""
    if type(a) is list and type(b) is list:
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str) and '/' in a and '/' in b and a != b:
        from fractions import Fraction
        try:
            x, y = Fraction(a), Fraction(b)
        except ValueError:
            return False
        return abs(x - y) <= Fraction(1, 10 ** 50) * max(1, abs(y))
    return a == b


def main():
    pid = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    verbose = '-v' in sys.argv
    t0 = time.time()
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.path.insert(0, ROOT)
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    import random
    random.seed(int(os.environ.get('VERIF_SEED', '1')))
    from sx import explore as X
    ev = os.path.join(ROOT, 'evidence')
    os.makedirs(ev, exist_ok=True)
    try:
        env = X.Env(pid, ROOT)
    except Exception as e:
        import traceback
        traceback.print_exc()
        # the code does not load; see whether the real code loads
        print('cannot load the code under check: %r' % e)
        sys.exit(2)
    conc = Conc(pid)
    nw = int(os.environ.get('SX_WORKERS', str(min(8, os.cpu_count() or 4))))
    pool = X.Pool(env, nw)
    harnesses = [hd for hd in env.mod.HARNESSES if hd.get(tier, hd.get('quick')) is not None and (only is None or hd['name'] == only)]
    budget = getattr(env.mod, 'BUDGET', {}).get(tier, 150 if tier == 'quick' else 780)
    end = time.monotonic() + budget
    results, violations, spurious, undec, validated, mismatches = [], [], [], [], 0, []
    known_hits = {}
    known_fn = getattr(env.mod, 'known', None)
    for i, hd in enumerate(harnesses):
        params = dict(hd.get('quick') or {})
        if tier == 'thorough' and hd.get('thorough') is not None:
            params.update(hd['thorough'])
        left = len(harnesses) - i
        now = time.monotonic()
        # a harness may use its weight of what is left
        deadline = now + max(2.0, (end - now) * min(1.0, 2.5 / (left + 1.5)))
        r = X.explore(pool, hd, params, deadline, timeout_ms=hd.get('timeout_ms', 4000 if tier == 'quick' else 20000),
                      path_limit_s=hd.get('path_limit_s', 40.0 if tier == 'quick' else 200.0))
        results.append(r)
        if r.errors:
            pool.close()
            pool = X.Pool(env, nw)
        for f in r.fails:
            out = conc.run(hd['name'], f['inputs'], params)
            if out['status'] in ('fail', 'timeout', 'died'):
                f['observed'] = out
                f['params'] = params
                violations.append(f)
            else:
                f['observed'] = out
                spurious.append(f)
        for u in r.undecided:
            undec.append(u)
            for inp in u['inputs']:
                out = conc.run(hd['name'], inp, params)
                u['observed'] = out['status']
                if out['status'] in ('fail', 'timeout', 'died'):
                    violations.append({'kind': 'fail', 'label': out.get('label', out['status']), 'inputs': inp, 'harness': hd['name'],
                                       'observed': out, 'params': params})
                    break
        if not violations:
            for s in r.samples:
                out = conc.run(hd['name'], s['inputs'], params)
                if out['status'] in ('fail', 'timeout', 'died'):
                    violations.append({'kind': 'fail', 'label': out.get('label', out['status']), 'inputs': s['inputs'], 'harness': hd['name'],
                                       'observed': out, 'params': params, 'note': 'found while validating the encoding on the real code'})
                elif out['status'] == 'ok':
                    validated += 1
                    if s['obs'] is not None and not near(s['obs'], out['obs']):
                        mismatches.append({'harness': hd['name'], 'inputs': s['inputs'], 'symbolic': s['obs'], 'real': out['obs']})
                else:
                    mismatches.append({'harness': hd['name'], 'inputs': s['inputs'], 'symbolic': 'ok', 'real': out})
        if verbose:
            st = r.stats
            print('%-28s %6.1fs paths=%d infeasible=%d checks=%d solved=%d trivial=%d q=%d dq=%d solver=%.1fs unsup=%d aborted=%d undec=%d '
                  'fails=%d complete=%s covers=%s left=%d %s' % (hd['name'], r.wall, st.paths, st.infeasible, st.checks, st.checks_solved, st.checks_trivial, st.queries,
                                                       st.domain_queries, st.solver_s, st.unsupported, st.aborted, st.undecided_checks,
                                                       len(r.fails), r.complete, sorted(r.covers), r.left, r.errors or ''), flush=True)
        if tier == 'quick' and not verbose and any(known_fn is None or known_fn(v) is None for v in violations):
            break
    pool.close()
    # known findings
    lines = load_known(pid)
    rest = []
    for v in violations:
        k = known_fn(v) if known_fn else None
        if k is not None and any((' id=%s ' % k) in (l + ' ') for l in lines):
            known_hits[k] = known_hits.get(k, 0) + 1
        else:
            rest.append(v)
    violations = rest
    conc.close()
    missing = []
    for r in results:
        if r.complete:
            for cov in r.hd.get('covers', []):
                if cov not in r.covers:
                    missing.append('%s:%s' % (r.hd['name'], cov))
    write_evidence(pid, tier, results, violations, spurious, undec, validated, mismatches, missing, time.time() - t0, lines, env, ev)
    for l in lines:
        print(l)
    if verbose:
        seen = {}
        for u in undec:
            k = u['reason'][:400]
            if k not in seen:
                seen[k] = 1
                print('UNDECIDED', u['harness'], k, u['inputs'][:1], u.get('observed'))
        for f in spurious:
            print('SPURIOUS', f)
        for m in mismatches[:10]:
            print('MISMATCH', m)
        for m in missing:
            print('NOT COVERED', m)
    if violations:
        v = violations[0]
        path = os.path.join(ev, pid + '.replay.json')
        json.dump({'property': pid, 'harness': v['harness'], 'inputs': v['inputs'], 'params': v['params'], 'label': v['label'],
                   'observed': v['observed'], 'how': 'python3-vt %s/sx/replay.py %s' % (ROOT, path),
                   'others': violations[1:10]}, open(path, 'w'), indent=1, default=str)
        print('%s: %s' % (v['harness'], v['label']))
        print('inputs: %s' % json.dumps(v['inputs'], ensure_ascii=False)[:600])
        if verbose:
            for w in violations:
                print('  V', w['harness'], w['label'], json.dumps(w['inputs'], ensure_ascii=False)[:300], '=>', w['observed'])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.exit(1)
    st = sum(r.stats.checks for r in results)
    if st == 0 and not undec:
        print('no assertion was reached')
        sys.exit(2)
    if mismatches:
        print('INCONCLUSIVE: %d sampled paths differ between the encoding and the real code' % len(mismatches))
    if spurious:
        print('INCONCLUSIVE: %d counterexamples of the encoding do not reproduce on the real code' % len(spurious))
    comp = all(r.complete for r in results) and not undec
    print('%s %s: %d harnesses, %d paths, %d assertions, %d solver queries, %s, %.1fs' % (
        pid, tier, len(results), sum(r.stats.paths for r in results), st, sum(r.stats.queries for r in results),
        'all paths within bounds decided' if comp else 'NOT exhaustive within bounds', time.time() - t0))
    sys.exit(0)


def write_evidence(pid, tier, results, violations, spurious, undec, validated, mismatches, missing, wall, lines, env, ev):
    ent = set()
    notes = set()
    tot = {}
    for r in results:
        ent |= r.entered
        notes |= r.notes
        for k, v in r.stats.dict().items():
            tot[k] = tot.get(k, 0) + v
    samples = []
    for r in results:
        for s in r.samples[:2]:
            samples.append({'harness': s['harness'], 'inputs': s['inputs'], 'observed': s['obs']})
    complete = all(r.complete for r in results) and not undec and not spurious
    doc = getattr(env.mod, 'ASSUMES', [])
    data = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': 'model_checking',
        'wall_s': round(wall, 2),
        'result': 'violation' if violations else 'held',
        'exhaustive_within_bounds': complete,
        'coverage': {
            'states': tot.get('paths', 0), 'transitions': tot.get('decisions', 0),
            'traces_validated_against_impl': validated,
            'samples': samples[:12] or [{'note': 'no path completed'}],
            'meaning': 'states: symbolic paths executed to their end; transitions: branch decisions taken along them; traces: models of '
                       'sampled paths executed on the unmodified code with the same verdict and observations',
            'assertions_decided': tot.get('checks'),
            'assertions_by_solver': tot.get('checks_solved'), 'assertions_by_path_condition': tot.get('checks_trivial'),
            'solver_queries': tot.get('queries'), 'solver_sat': tot.get('sat'), 'solver_unsat': tot.get('unsat'),
            'solver_unknown': tot.get('unknown'), 'character_domain_queries': tot.get('domain_queries'),
            'solver_seconds': round(tot.get('solver_s', 0), 2),
            'paths_not_encodable_run_concretely': len(undec), 'spurious_counterexamples': len(spurious),
            'encoding_mismatches': len(mismatches), 'reachability_witnesses_missing': missing,
        },
        'harnesses': [{
            'name': r.hd['name'], 'bounds': r.hd.get('bounds', ''), 'paths': r.stats.paths, 'assertions': r.stats.checks,
            'queries': r.stats.queries, 'solver_s': round(r.stats.solver_s, 2), 'wall_s': round(r.wall, 2), 'complete': r.complete,
            'reached': sorted(r.covers), 'unexplored_prefixes': r.left} for r in results],
        'functions_encoded': sorted(e for e in ent),
        'assumptions': list(doc) + sorted(notes) + [
            'Decimal arithmetic is idealised as exact rational arithmetic; within the stated bounds intermediate integers fit the 100-digit context',
            'character-level decisions are taken on finite alphabets by domain propagation, and by z3 once characters are related to other values'],
        'undecided': [{'harness': u['harness'], 'reason': u['reason'][:300]} for u in undec[:10]],
        'known_findings': lines,
    }
    json.dump(data, open(os.path.join(ev, pid + '.json'), 'w'), indent=1, default=str, ensure_ascii=False)


if __name__ == '__main__':
    main()
