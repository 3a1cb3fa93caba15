"""Path state, decisions and solver access of the symbolic executor."""
import time
import z3


_nl = {}


def nonlinear(e):
    """Does the formula multiply variables?"""
    k = e.get_id()
    r = _nl.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    v = False
    d = e.decl().kind() if z3.is_app(e) else None
    if d == z3.Z3_OP_MUL and sum(0 if z3.is_int_value(c) else 1 for c in e.children()) > 1:
        v = True
    elif d in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM) and not z3.is_int_value(e.arg(1)):
        v = True
    elif d == z3.Z3_OP_POWER:
        v = True
    else:
        v = any(nonlinear(c) for c in e.children())
    if len(_nl) > 20000:
        _nl.clear()
    _nl[k] = (e, v)
    return v


class Control(BaseException):
    """Steers the explorer; derives from BaseException so that library code cannot swallow it."""


class Unsupported(Control):
    """The encoding does not cover an operation on a symbolic value."""


class Infeasible(Control):
    pass


class PathAbort(Control):
    pass


class Stats:
    FIELDS = ('paths', 'branches', 'decisions', 'queries', 'sat', 'unsat', 'unknown', 'domain_queries', 'solver_s',
              'checks', 'checks_trivial', 'checks_solved', 'infeasible', 'unsupported', 'undecided_checks', 'aborted')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def merge(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d.get(f, 0))

    def dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Ctx:
    """State of the path being executed. One global instance at a time (core.C)."""

    def __init__(self, prefix, stats, timeout_ms=4000, path_limit_s=60.0, max_decisions=4000):
        self.prefix = prefix
        self.trace = []          # decisions taken
        self.alts = []           # prefixes still to explore
        self.stats = stats
        self.timeout_ms = timeout_ms
        self.cons = []           # z3 constraints of the path
        self.pushed = 0
        self.solver = None
        self.lazy = []           # non-linear constraints, used for final verdicts and quick feasibility queries only
        self.fixed = {}          # atom id -> value decided on this path
        self.nonzero = set()     # ids of atoms known to be non-zero
        self.zeros = []          # polynomials known to be zero
        self.dom = {}            # char var -> bitmask
        self.promoted = set()
        self.atoms = {}          # id -> Atom
        self.inputs = {}         # name -> symbolic input (for counterexamples)
        self.natoms = 0
        self.integral = set()    # keys of polynomials known to be integral
        self.coprime = []        # pairs of polynomials known coprime
        self.memo = {}
        self.entered = set()
        self.covers = set()
        self.labels = []
        self.t0 = time.monotonic()
        self.path_limit_s = path_limit_s
        self.max_decisions = max_decisions
        self.opaque = True
        self.gcd_fork = 20000    # gcd with a constant up to this size forks over the divisors
        self.float_opaque = False
        self.notes = set()
        self.active = True
        self.hits = 0

    # ------------------------------------------------------------------ solver
    def add(self, c):
        if nonlinear(c):
            self.lazy.append(c)
        else:
            self.cons.append(c)

    def _sync(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', self.timeout_ms)
            self.pushed = 0
        if self.pushed < len(self.cons):
            self.solver.add(self.cons[self.pushed:])
            self.pushed = len(self.cons)

    def check(self, *extra, full=False, quick=False):
        """sat / unsat / unknown for path condition and extra; full includes the non-linear constraints."""
        t = time.monotonic()
        use = [e for e in extra]
        if (full or quick) and (self.lazy or any(nonlinear(e) for e in use)):
            r = self._full(use, 120 if quick else self.timeout_ms)
        else:
            self._sync()
            r = self.solver.check(*use)
            self.stats.queries += 1
            if r == z3.sat:
                self._lastmodel = self.solver.model()
            elif r == z3.unknown:
                r = self._full(use, self.timeout_ms * 2, lazy=full)
        self.stats.solver_s += time.monotonic() - t
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def _full(self, extra, ms, lazy=True):
        s = z3.Solver()
        s.set('timeout', ms)
        s.set('random_seed', 7)
        s.add(self.cons)
        if lazy:
            s.add(self.lazy)
        s.add(extra)
        r = s.check()
        self.stats.queries += 1
        if r == z3.sat:
            self._lastmodel = s.model()
        return r

    def lastmodel(self):
        return self._lastmodel

    # ------------------------------------------------------------------ decisions
    def _tick(self):
        self.stats.decisions += 1
        if len(self.trace) > self.max_decisions:
            raise PathAbort('more than %d decisions on one path' % self.max_decisions)
        self.time_check()

    def time_check(self):
        if time.monotonic() - self.t0 > self.path_limit_s:
            raise PathAbort('path took longer than %gs' % self.path_limit_s)

    def next_forced(self):
        n = len(self.trace)
        if n < len(self.prefix):
            return self.prefix[n]
        return None

    def take(self, d, others=()):
        base = list(self.trace)
        for o in others:
            self.alts.append(base + [o])
        self.trace.append(d)

    def branch(self, cond):
        """Decide a z3 Boolean on this path; explores both sides when both are satisfiable."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self._tick()
        f = self.next_forced()
        if f is not None:
            if f in (0, 1):      # forced, or one of two alternatives
                self.trace.append(f)
                self.add(cond if f else z3.Not(cond))
                return bool(f)
            raise AssertionError('decision prefix does not fit (non-deterministic harness?)')
        self.stats.branches += 1
        ncond = z3.Not(cond)
        if nonlinear(cond):
            # both sides are explored unless one is refuted quickly; the path condition is decided in full at the end
            rt = self.check(cond, quick=True)
            if rt == z3.unsat:
                self.take(0)
                self.add(ncond)
                return False
            if self.check(ncond, quick=True) == z3.unsat:
                self.take(1)
                self.add(cond)
                return True
            self.take(1, [0])
            self.add(cond)
            return True
        rt = self.check(cond)
        if rt == z3.unsat:
            self.take(0)
            self.add(ncond)
            return False
        rf = self.check(ncond)
        if rf == z3.unsat:
            self.take(1)
            self.add(cond)
            return True
        self.take(1, [0])
        self.add(cond)
        return True

    def nary(self, n, feasible, apply):
        """Choose among n options. feasible(i) -> bool, apply(i) records the choice."""
        self._tick()
        f = self.next_forced()
        if f is not None:
            self.trace.append(f)
            apply(f)
            return f
        self.stats.branches += 1
        ok = [i for i in range(n) if feasible(i)]
        if not ok:
            raise Infeasible()
        self.take(ok[0], ok[1:])
        apply(ok[0])
        return ok[0]

    # ------------------------------------------------------------------ character domains
    def newchar_domain(self, v, mask):
        self.dom[v] = mask

    def decide_mask(self, v, mask):
        """Is character variable v within mask? Decides by domain propagation (and z3 once v is related to others)."""
        d = self.dom[v]
        t = d & mask
        if t == 0:
            return False
        if t == d:
            return True
        self._tick()
        self.stats.domain_queries += 1
        f = self.next_forced()
        if f is not None:
            self.trace.append(f)
            self._setdom(v, t if f else d & ~mask)
            return bool(f)
        self.stats.branches += 1
        ft = ff = True
        if v in self.promoted:
            ft = self.check(v.among(t)) != z3.unsat
            ff = self.check(v.among(d & ~mask)) != z3.unsat
            if not ft and not ff:
                raise Infeasible()
        if ft and ff:
            self.take(1, [0])
            self._setdom(v, t)
            return True
        self.take(1 if ft else 0)
        self._setdom(v, t if ft else d & ~mask)
        return ft

    def _setdom(self, v, mask):
        self.dom[v] = mask
        if v in self.promoted:
            self.add(v.among(mask))

    def promote(self, v):
        if v not in self.promoted:
            self.promoted.add(v)
            self.add(v.among(self.dom[v]))

    def concretise_char(self, v):
        """Fork over all values of v; returns the index chosen."""
        d = self.dom[v]
        idx = [i for i in range(len(v.alphabet)) if d >> i & 1]
        if len(idx) == 1:
            return idx[0]
        self.stats.domain_queries += 1

        def feas(k):
            return v not in self.promoted or self.check(v.among(1 << idx[k])) != z3.unsat

        k = self.nary(len(idx), feas, lambda k: self._setdom(v, 1 << idx[k]))
        return idx[k]


C = None      # current path


def set_ctx(c):
    global C
    C = c


def ctx():
    return C
