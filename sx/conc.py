"""Concrete side: runs a harness on the real, unmodified code for one assignment of its inputs. Started as a fork server with
the interpreter that runs the project's own tests; every case runs in a forked child."""
import importlib
import importlib.util
import json
import os
import signal
import sys
import traceback
from fractions import Fraction


class AssumeFailed(BaseException):
    pass


class CheckFailed(BaseException):
    pass


def qval(x):
    if isinstance(x, Fraction):
        return x
    if type(x).__name__ == 'Number' and hasattr(x, 'num'):
        return Fraction(x.num) / Fraction(x.den)
    return Fraction(x)


class H:
    sym = False

    def __init__(self, inputs, params, builders):
        self.inputs, self.params, self.builders = inputs, params, builders
        self.failed = None
        self.obs = []
        self.covered = set()
        self.ncheck = 0

    def p(self, name, default=None):
        return self.params.get(name, default)

    # ---- inputs
    def int(self, name, lo, hi):
        return int(self.inputs.get(name, lo))

    def bool(self, name):
        return bool(self.inputs.get(name, False))

    def choose(self, name, options):
        i = self.inputs.get(name, 0)
        return options[i if i < len(options) else 0]

    def str(self, name, length, alphabet):
        v = self.inputs.get(name)
        if v is None:
            v = alphabet[0] * (length if isinstance(length, int) else length[0])
        return v

    def digit(self, ch, alphabet):
        return alphabet.index(ch)

    def bitop(self, op, a, b, k):
        return {'&': a & b, '|': a | b, '^^': a ^ b}[op]

    def coprime(self, a, b):
        pass

    # ---- assertions
    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, c, label):
        self.ncheck += 1
        if not c:
            self.failed = label
            raise CheckFailed(label)

    def fail(self, label):
        self.check(False, label)

    def cover(self, label):
        self.covered.add(label)

    def same(self, a, b, label):
        """Equality of values computed through decimal quotients: exact symbolically, within working precision concretely."""
        a, b = qval(a), qval(b)
        self.check(abs(a - b) <= Fraction(1, 10 ** 60) * max(1, abs(b)), label)

    def observe(self, v):
        self.obs.append(render(v))

    # ---- library
    def lib(self, name):
        return importlib.import_module('modularcalculator.' + name)

    def calc(self, key='Computing'):
        return self.builders.get(key)

    def q(self, x, d=None):
        return qval(x) if d is None else qval(x) / qval(d)

    def floor(self, x):
        import math
        return math.floor(x)

    def hash_of(self, x):
        return hash(x)

    def opaque(self, on):
        pass

    def gcd_fork(self, limit):
        pass

    def float_opaque(self, on):
        pass

    def is_true(self, c):
        return bool(c)

    def number(self, name, lo, hi, dhi=1, nonzero=False):
        n = self.int(name + '_num', lo, hi)
        d = self.int(name + '_den', 1, dhi)
        if nonzero:
            self.assume(n != 0)
        return self.lib('objects.number').Number(n, d), self.q(n, d)


def render(v):
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, Fraction) or type(v).__name__ in ('Number', 'Decimal'):
        f = qval(v)
        return '%d/%d' % (f.numerator, f.denominator)
    if isinstance(v, (list, tuple)):
        return [render(x) for x in v]
    return type(v).__name__


class Builders:
    def __init__(self, mod):
        self.mod, self.cache = mod, {}

    def get(self, key):
        if key not in self.cache:
            self.cache[key] = self.mod.build(key)
        return self.cache[key]


def run_case(mod, common, job, builders):
    hd = [x for x in mod.HARNESSES if x['name'] == job['harness']][0]
    h = H(job['inputs'], job['params'], builders)
    try:
        hd['fn'](h)
        return {'status': 'ok', 'obs': h.obs, 'checks': h.ncheck}
    except AssumeFailed:
        return {'status': 'vacuous'}
    except CheckFailed as e:
        return {'status': 'fail', 'label': str(e), 'obs': h.obs}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = '%s:%s' % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else ''
        return {'status': 'fail', 'label': 'exception %s: %s (%s)' % (type(e).__name__, str(e)[:200], where), 'obs': h.obs}


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, os.path.join(root, 'checks'))
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter('ignore')
    mod = importlib.import_module(sys.argv[1])
    common = importlib.import_module('common')
    builders = Builders(common)
    for k in getattr(mod, 'CALCS', ['Computing']):
        builders.get(k)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    out.write(json.dumps({'ready': True}) + '\n')
    out.flush()
    for line in sys.stdin:
        job = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(job.get('timeout', 30))
            try:
                import resource
                resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
                res = run_case(mod, common, job, builders)
            except BaseException as e:
                res = {'status': 'error', 'label': repr(e)}
            try:
                os.write(w, json.dumps(res).encode())
            finally:
                os._exit(0)
        os.close(w)
        buf = b''
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            buf += b
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if buf:
            res = json.loads(buf)
        else:
            res = {'status': 'timeout' if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM else 'died', 'label': 'no result'}
        out.write(json.dumps(res) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
