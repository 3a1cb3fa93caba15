#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from a spec in tools-external file: seed.py SPEC.py ; verifies tests pass, demo fails with the patch and passes without."""
import json, os, subprocess, sys, runpy
REPO = '/repo'
HEAD = '''import scipy.special
if not hasattr(scipy.special, 'sph_harm'):
    scipy.special.sph_harm = None
from modularcalculator.modularcalculator import ModularCalculator
from modularcalculator.objects.exceptions import *
from modularcalculator.objects.number import Number
c = ModularCalculator('Computing')


def show(v):
    if isinstance(v, list):
        return '[' + ', '.join(show(e.value) + ('' if e.unit is None else ' ' + str(e.unit)) for e in v) + ']'
    if isinstance(v, Number):
        return v.to_string(c)
    if isinstance(v, Exception):
        return 'error'
    return str(v)


def calc(text, **flags):
    try:
        r = c.calculate(text, flags)
    except CalculatingException as e:
        return 'error'
    rs = [x for x in r.results if x.has_result()]
    if not rs:
        return None
    return show(rs[-1].value) + ('' if rs[-1].unit is None else ' ' + str(rs[-1].unit))


def expect(got, want):
    if got != want:
        raise SystemExit('got %r, expected %r' % (got, want))


'''

def sh(*a, **k):
    return subprocess.run(a, text=True, capture_output=True, **k)

def main():
    spec = runpy.run_path(sys.argv[1])
    for b in spec['BUGS']:
        if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
            continue
        d = '/verif/seeded/' + b['id']
        assert not sh('git', '-C', REPO, 'status', '--porcelain').stdout.strip()
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in b['edits']:
                p = os.path.join(REPO, 'modularcalculator', f)
                s = open(p, newline='').read()
                assert s.count(old) == 1, (b['id'], f, s.count(old), old)
                open(p, 'w', newline='').write(s.replace(old, new))
            diff = sh('git', '-C', REPO, 'diff').stdout
            open(d + '/patch.diff', 'w').write(diff)
            demo = b.get('full') or HEAD + b['demo']
            open(d + '/demo.py', 'w').write(demo.rstrip('\n') + '\n')
            open(d + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            r1 = sh('bash', d + '/demo.sh', cwd=REPO)
            sh('bash', '/opt/vp/test.sh', '/tmp/seedtest.json')
            t = json.load(open('/tmp/seedtest.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            stable = base.get('stable') or base.get('tests') or base
            if isinstance(stable, dict): stable = stable.get('passed', list(stable))
            lost = [x for x in stable if x not in set(t['passed'])]
            chk = ''
            if os.environ.get('CHECK', '1') == '1' and os.path.exists('/verif/checks/%s.py' % b['property']):
                r = sh('python3-vt', 'sx/run.py', b['property'], cwd='/verif')
                chk = 'check exit %d: %s' % (r.returncode, ' | '.join(r.stdout.strip().splitlines()[-3:])[:300])
        finally:
            sh('git', '-C', REPO, 'checkout', '--', '.')
        r0 = sh('bash', d + '/demo.sh', cwd=REPO)
        print('%s [%s]: tests lost %d %s; demo with patch %d (%s), without %d (%s); %s' % (b['id'], b['property'], len(lost), lost[:2], r1.returncode, (r1.stdout+r1.stderr).strip()[-120:], r0.returncode, (r0.stdout+r0.stderr).strip()[-120:], chk), flush=True)

main()
