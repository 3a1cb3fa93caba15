"""Path exploration: forked workers re-execute a harness along decision prefixes; the parent shares out unexplored prefixes."""
import importlib
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback
import z3
from . import core, hooks, instrument, symapi, snapshot
from . import num as N
from .core import Ctx, Stats, Control, Infeasible, Unsupported, PathAbort
from .symapi import CheckFailed, path_model, Model


class Builders:
    def __init__(self, mod):
        self.mod, self.cache = mod, {}

    def get(self, key):
        if key not in self.cache:
            raise Unsupported('calculator %r was not prepared before exploration' % key)
        return self.cache[key]

    def prepare(self, key):
        if key not in self.cache:
            self.cache[key] = self.mod.build(key)


class Env:
    def __init__(self, modname, root):
        instrument.install()
        sys.path.insert(0, os.path.join(root, 'checks'))
        instrument.PREFIXES_H = ('common', modname)
        self.common = instrument.load_harness(os.path.join(root, 'checks', 'common.py'), 'common')
        self.mod = instrument.load_harness(os.path.join(root, 'checks', modname + '.py'), modname)
        self.builders = Builders(self.common)
        for k in getattr(self.mod, 'CALCS', ['Computing']):
            self.builders.prepare(k)
        for m in getattr(self.mod, 'LIBS', []):
            importlib.import_module('modularcalculator.' + m)
        patch_rendering()
        self.snap = snapshot.Snapshot(list(self.builders.cache.values()))


def patch_rendering():
    """Number texts inside messages are replaced by a placeholder unless a harness makes rendering its subject."""
    items = importlib.import_module('modularcalculator.objects.items')
    number = importlib.import_module('modularcalculator.objects.number')
    cls = items.OperandResult
    orig = cls.to_string

    def to_string(self, *a, **k):
        c = core.C
        if c is not None and c.opaque:
            v = self.value
            if isinstance(v, number.Number) and (hooks.is_sym(v.num) or hooks.is_sym(v.den)):
                c.notes.add('texts of symbolic numbers inside messages are placeholders')
                return '<number>'
        return orig(self, *a, **k)
    cls.to_string = to_string
    nfmt = number.Number.__format__

    def fmt(self, spec):
        c = core.C
        if c is not None and c.opaque and (hooks.is_sym(self.num) or hooks.is_sym(self.den)):
            c.notes.add('texts of symbolic numbers inside messages are placeholders')
            return '<number>'
        return nfmt(self, spec)
    number.Number.__format__ = fmt


SAMPLES_PER_BATCH = 1


def overtime(*a):
    raise PathAbort('path took longer than its limit')


def run_path(env, hd, prefix, opts, stats, want_sample):
    """One path. Returns (alts, record or None, sample or None)."""
    env.snap.restore()
    c = Ctx(prefix, stats, opts['timeout_ms'], opts['path_limit_s'])
    core.set_ctx(c)
    h = symapi.SymH(opts['params'], env.builders)
    rec = sample = None
    outcome = 'ok'
    # the limit is looked at when a path decides something; the timer ends loops that decide nothing
    signal.signal(signal.SIGALRM, overtime)
    signal.setitimer(signal.ITIMER_REAL, opts['path_limit_s'] + 5, 5)
    try:
        try:
            hd['fn'](h)
        except (CheckFailed, Infeasible, Unsupported, PathAbort):
            raise
        except Control:
            raise
        except RecursionError:
            raise Unsupported('recursion limit of the symbolic executor')
        except Exception as e:
            if isinstance(e, (TypeError, AttributeError)) and 'Sym' in str(e):
                raise Unsupported('native operation on a symbolic value: ' + str(e)[:120])
            tb = traceback.extract_tb(e.__traceback__)
            where = ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
            try:
                msg = str(e)[:160]
            except Control:
                msg = '(message over symbolic text)'
            c.stats.checks += 1
            c.hits += 1
            raise CheckFailed('exception %s: %s (%s)' % (type(e).__name__, msg, where), None)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Infeasible:
        outcome = 'infeasible'
        stats.infeasible += 1
    except CheckFailed as e:
        outcome = 'fail'
        m = Model(c, e.model) if e.model is not None else None
        if m is None:
            r = c.check(full=True)
            if r == z3.sat:
                m = Model(c, c.lastmodel())
        if m is None:
            if r == z3.unsat:
                outcome = 'infeasible'
                stats.infeasible += 1
            else:
                outcome = 'undecided'
                stats.undecided_checks += 1
                rec = {'kind': 'undecided', 'reason': 'solver unknown at failing path: ' + e.label, 'inputs': [], 'harness': hd['name']}
        else:
            rec = {'kind': 'fail', 'label': e.label, 'inputs': m.inputs(), 'harness': hd['name']}
            if sys.flags.dev_mode or opts.get('debug'):
                rec['debug'] = repr(c.trace)
    except (Unsupported, PathAbort) as e:
        outcome = 'unsupported'
        if isinstance(e, Unsupported) and c.check(full=True) == z3.unsat:
            outcome = 'infeasible'
            stats.infeasible += 1
        elif isinstance(e, Unsupported):
            stats.unsupported += 1
        else:
            stats.aborted += 1
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-12:])
                            if '/sx/' not in f.filename)
        if outcome != 'infeasible':
            rec = {'kind': 'undecided', 'reason': '%s (%s)' % (e, where), 'inputs': models(c, 3), 'harness': hd['name']}
    if outcome != 'infeasible':
        stats.paths += 1
    if outcome == 'ok' and want_sample:
        c.timeout_ms = min(c.timeout_ms, 1500)
        m = path_model(c)
        if m is not None:
            obs = None
            try:
                obs = [m.value(v) for v in h.obs]
            except Exception:
                obs = None
            sample = {'inputs': m.inputs(), 'obs': obs, 'harness': hd['name']}
    alts = c.alts
    cov, notes = c.covers, c.notes
    core.set_ctx(None)
    return alts, rec, sample, cov, notes, outcome


def models(c, n):
    out = []
    try:
        blocks = []
        for k in range(n):
            r = c.check(*blocks, full=True)
            if r != z3.sat:
                break
            m = Model(c, c.lastmodel())
            out.append(m.inputs())
            ints = [v for (kk, v) in c.inputs.values() if kk == 'int']
            if not ints:
                break
            blocks.append(z3.Or([v.z != m.ival(v.z) for v in ints]))
            if k + 1 < n and ints:
                # vary every input when possible
                blocks2 = blocks + [v.z != m.ival(v.z) for v in ints if not (v.lo is not None and v.lo == v.hi)]
                if c.check(*blocks2, full=True) == z3.sat:
                    blocks = blocks2
    except Control:
        pass
    return out


def send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('<I', len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def recv(fd):
    h = b''
    while len(h) < 4:
        x = os.read(fd, 4 - len(h))
        if not x:
            return None
        h += x
    n = struct.unpack('<I', h)[0]
    out = []
    while n:
        x = os.read(fd, min(n, 1 << 16))
        if not x:
            return None
        out.append(x)
        n -= len(x)
    return pickle.loads(b''.join(out))


def worker(env, rfd, wfd):
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)               # what the code under check prints is not ours
    import gc
    gc.collect()
    gc.freeze()
    sys.setrecursionlimit(20000)
    import threading
    npaths = 0
    while True:
        job = recv(rfd)
        if job is None:
            os._exit(0)
        hd = [x for x in env.mod.HARNESSES if x['name'] == job['harness']][0]
        opts = job['opts']
        stack = list(job['prefixes'])
        stats = Stats()
        recs, samples, covers, notes = [], [], set(), set()
        hooks.entered.clear()
        t0 = time.monotonic()
        first = True
        while stack and (first or (time.monotonic() - t0 < job['slice'] and time.monotonic() < job['deadline'])):
            prefix = stack.pop()
            want = job['sample'] > 0 and (first or random.random() < 0.02)
            alts, rec, sample, cov, nt, outcome = run_path(env, hd, prefix, opts, stats, want)
            first = False
            stack.extend(alts)
            covers |= cov
            notes |= nt
            if rec:
                recs.append(rec)
            if sample:
                samples.append(sample)
                job['sample'] -= 1
            if len(recs) > 20:
                break
        send(wfd, {'left': stack, 'stats': stats.dict(), 'recs': recs, 'samples': samples, 'covers': covers, 'notes': notes,
                   'entered': set(hooks.entered)})


class Pool:
    def __init__(self, env, n):
        self.w = []
        for _ in range(n):
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(w1)
                os.close(r2)
                for (_, a, b) in self.w:
                    os.close(a)
                    os.close(b)
                try:
                    worker(env, r1, w2)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(3)
            os.close(r1)
            os.close(w2)
            self.w.append((pid, w1, r2))

    def close(self):
        import signal
        for pid, a, b in self.w:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.close(a)
            os.close(b)
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
        self.w = []


class Result:
    def __init__(self, hd):
        self.hd = hd
        self.stats = Stats()
        self.fails, self.undecided, self.samples = [], [], []
        self.covers, self.notes, self.entered = set(), set(), set()
        self.complete = False
        self.wall = 0.0
        self.left = 0
        self.errors = []


def explore(pool, hd, params, deadline, timeout_ms=4000, path_limit_s=60.0, max_fail=6, samples=24):
    res = Result(hd)
    t0 = time.monotonic()
    todo = [[]]
    idle = list(range(len(pool.w)))
    busy = {}
    opts = {'params': params, 'timeout_ms': timeout_ms, 'path_limit_s': path_limit_s}
    labels = {}
    stop = False
    sampled = 0
    while (todo and not stop) or busy:
        now = time.monotonic()
        if now > deadline:
            stop = True
        while todo and idle and not stop:
            k = max(1, min(16, len(todo) // max(1, len(idle))))
            batch, todo = todo[:k], todo[k:]
            w = idle.pop()
            sl = 0.05 if len(todo) < len(pool.w) else 0.4
            send(pool.w[w][1], {'harness': hd['name'], 'opts': opts, 'prefixes': batch, 'slice': sl, 'deadline': deadline,
                                'sample': 1 if sampled < samples else 0})
            busy[pool.w[w][2]] = (w, batch)
        if not busy:
            break
        rl, _, _ = select.select(list(busy), [], [], 1.0)
        if not rl and now > deadline + 20:
            res.errors.append('worker overran the deadline')
            break
        for fd in rl:
            w, batch = busy.pop(fd)
            out = recv(fd)
            if out is None:
                res.errors.append('worker died on %d prefixes' % len(batch))
                stop = True
                continue
            idle.append(w)
            todo.extend(out['left'])
            res.stats.merge(out['stats'])
            res.covers |= out['covers']
            res.notes |= out['notes']
            res.entered |= out['entered']
            for s in out['samples']:
                if sampled < samples:
                    res.samples.append(s)
                    sampled += 1
            for r in out['recs']:
                if r['kind'] == 'fail':
                    key = r['label'][:60]
                    labels[key] = labels.get(key, 0) + 1
                    if labels[key] <= 3:
                        res.fails.append(r)
                    if len(res.fails) >= max_fail:
                        stop = True
                else:
                    if len(res.undecided) < 60:
                        res.undecided.append(r)
    res.left = len(todo)
    res.complete = not todo and not stop and not res.errors
    res.wall = time.monotonic() - t0
    return res
