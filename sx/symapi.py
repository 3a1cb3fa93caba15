"""Symbolic side of the harness interface."""
import importlib
import math
from decimal import Decimal
from fractions import Fraction
import z3
from . import core
from . import num as N
from . import text as T
from . import hooks
from .core import Control, Infeasible, Unsupported


class CheckFailed(Control):
    def __init__(self, label, model):
        self.label, self.model = label, model


class Q(N.Sym):
    """Exact rational value used by the reference side of a harness."""
    __slots__ = ()

    def __init__(self, p):
        self.p = p

    __hash__ = None

    def _b(self, o, f):
        q = pq(o)
        return mkq(f(self.p, q))

    def __add__(self, o): return self._b(o, N.p_add)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, N.p_sub)
    def __rsub__(self, o): return self._b(o, lambda a, b: N.p_sub(b, a))
    def __mul__(self, o): return self._b(o, N.p_mul)
    __rmul__ = __mul__
    def __neg__(self): return mkq(N.p_scale(self.p, Fraction(-1)))
    def __abs__(self): return self if self >= 0 else -self

    def __truediv__(self, o):
        return mkq(N.p_mul(self.p, inv(pq(o))))

    def __rtruediv__(self, o):
        return mkq(N.p_mul(pq(o), inv(self.p)))

    def __pow__(self, n):
        if isinstance(n, N.Sym):
            n = n.concretise()
        if n < 0:
            return mkq(N.p_pow(inv(self.p), -n))
        return mkq(N.p_pow(self.p, n))

    def __floor__(self):
        return mkq(N.poly_of(N.p_floor(self.p)))

    def _cmp(self, o, r):
        return N.rel(N.p_sub(self.p, pq(o)), r)


def inv(p):
    if N.p_isconst(p):
        return N.p_const(1 / N.p_constval(p))
    return N.p_inverse(p)


def mkq(p):
    return N.p_constval(p) if N.p_isconst(p) else Q(p)


def pq(x):
    if isinstance(x, N.Sym):
        return x.p
    if type(x).__name__ == 'Number' and hasattr(x, 'num'):
        return N.p_mul(pq(x.num), inv(pq(x.den)))
    return N.p_const(Fraction(x))


hooks.SYMT = hooks.SYMT


class SymH:
    sym = True

    def __init__(self, params, builders):
        self.params, self.builders = params, builders
        self.obs = []
        self.ncheck = 0

    def p(self, name, default=None):
        return self.params.get(name, default)

    # ---- inputs
    def int(self, name, lo, hi):
        c = core.C
        assert name not in c.inputs, name
        if lo == hi:
            c.inputs[name] = ('const', lo)
            return lo
        a = N.new_atom(name, lo, hi)
        c.inputs[name] = ('int', a)
        return N.SymInt(N.p_atom(a))

    def bool(self, name):
        c = core.C
        assert name not in c.inputs, name
        b = z3.Bool('%s!%d' % (name, len(c.inputs)))
        c.inputs[name] = ('bool', b)
        return N.SymBool(b)

    def choose(self, name, options):
        c = core.C
        assert name not in c.inputs, name
        i = 0 if len(options) == 1 else c.nary(len(options), lambda i: True, lambda i: None)
        c.inputs[name] = ('const', i)
        return options[i]

    def str(self, name, length, alphabet):
        """Text of symbolic characters; length is a number or an inclusive range (forked)."""
        c = core.C
        assert name not in c.inputs, name
        n = length
        if not isinstance(length, int):
            lo, hi = length
            n = lo + (0 if lo == hi else c.nary(hi - lo + 1, lambda i: True, lambda i: None))
        es = []
        for i in range(n):
            v = T.CharVar('%s[%d]' % (name, i), alphabet)
            c.newchar_domain(v, v.full())
            es.append(T.SymChar(v))
        s = T.mk(es)
        c.inputs[name] = ('str', tuple(es))
        return s

    def digit(self, ch, alphabet):
        """Value of a digit character: its position in alphabet."""
        if type(ch) is T.SymStr:
            return self.q(T.char_index(ch.e[0], alphabet)) if type(ch.e[0]) is T.SymChar else alphabet.index(ch.e[0])
        return alphabet.index(ch)

    def bitop(self, op, a, b, k):
        """Reference for &, | and ^^ on whole numbers below 2^k: bit i is (x div 2^i) mod 2."""
        if not isinstance(a, N.Sym) and not isinstance(b, N.Sym):
            return {'&': a & b, '|': a | b, '^^': a ^ b}[op]
        c = core.C
        xs = []
        for x in (a, b):
            t, den = N.p_z3(N.poly_of(x))
            xs.append(t if den == 1 else t / den)
        rs = []
        for i in range(k):
            u, v = [(x / (1 << i)) % 2 == 1 for x in xs]
            rs.append(z3.If({'&': z3.And(u, v), '|': z3.Or(u, v), '^^': u != v}[op], 1 << i, 0))
        at = N.new_atom('ref', 0, 2 ** k - 1)
        c.add(at.z == z3.Sum(rs))
        return N.SymInt(N.p_atom(at))

    def coprime(self, a, b):
        """Assume gcd(a, b) == 1 (used by gcd reasoning; the solver itself does not see it)."""
        sa, sb = isinstance(a, N.Sym), isinstance(b, N.Sym)
        if not sa and not sb:
            if math.gcd(a, b) != 1:
                raise Infeasible()
            return
        if abs(a) == 1 if not sa else abs(b) == 1 if not sb else False:
            return
        core.C.coprime.append((N.p_key(N.poly_of(a)), N.p_key(N.poly_of(b))))

    # ---- assertions
    def assume(self, cond):
        c = core.C
        if type(cond) is N.SymBool:
            z = z3.simplify(cond.z)
            if z3.is_false(z):
                raise Infeasible()
            if z3.is_true(z):
                return
            if len(c.trace) >= len(c.prefix):
                if c.check(z) == z3.unsat:
                    raise Infeasible()
            c.add(z)
            if cond.refine is not None:
                cond.refine(True)
        elif not cond:
            raise Infeasible()

    def check(self, cond, label):
        c = core.C
        c.stats.checks += 1
        self.ncheck += 1
        c.hits += 1
        if type(cond) is N.SymBool:
            z = z3.simplify(cond.z)
            if z3.is_true(z):
                c.stats.checks_trivial += 1
                return
            r = c.check(z3.Not(z), full=True)
            if r == z3.unsat:
                c.stats.checks_solved += 1
                return
            if r == z3.sat:
                raise CheckFailed(label, c.lastmodel())
            c.stats.undecided_checks += 1
            raise core.PathAbort('solver answered unknown for: ' + label)
        if cond:
            c.stats.checks_trivial += 1
            return
        raise CheckFailed(label, None)

    def fail(self, label):
        self.check(False, label)

    def cover(self, label):
        core.C.covers.add(label)

    def same(self, a, b, label):
        self.check(self.q(a) == self.q(b), label)

    def observe(self, v):
        self.obs.append(v)

    # ---- library
    def lib(self, name):
        return importlib.import_module('modularcalculator.' + name)

    def calc(self, key='Computing'):
        return self.builders.get(key)

    def q(self, x, d=None):
        p = pq(x)
        if d is not None:
            p = N.p_mul(p, inv(pq(d)))
        return mkq(p)

    def floor(self, x):
        return math.floor(x)

    def hash_of(self, x):
        return hooks.m_hash(x)

    def opaque(self, on):
        core.C.opaque = on

    def float_opaque(self, on):
        core.C.float_opaque = on

    def gcd_fork(self, limit):
        core.C.gcd_fork = limit

    def is_true(self, cond):
        return bool(cond)

    def number(self, name, lo, hi, dhi=1, nonzero=False):
        """A Number in lowest terms (as the constructor harness of N01 shows every Number to be) and its exact value."""
        n = self.int(name + '_num', lo, hi)
        d = self.int(name + '_den', 1, dhi)
        self.coprime(n, d)
        if nonzero:
            self.assume(n != 0)
        return self.lib('objects.number').Number(n, d), self.q(n, d)


# ------------------------------------------------------------------------------------------------ models
class Model:
    """Concrete values for the inputs of a path."""
    def __init__(self, c, zm):
        self.c, self.zm = c, zm
        self.atoms = {}

    def ival(self, z):
        v = self.zm.eval(z, model_completion=True)
        return v.as_long()

    def char(self, x):
        if type(x) is str:
            return x
        v = x.var
        if v in self.c.promoted:
            return_code = chr(self.ival(v.z))
            return x.table[v.index[return_code]] if x.table is not None else return_code
        d = self.c.dom[v]
        i = (d & -d).bit_length() - 1
        return x.image(i)

    def inputs(self):
        r = {}
        for n, (k, v) in self.c.inputs.items():
            if k == 'const':
                r[n] = v
            elif k == 'int':
                r[n] = self.ival(v.z)
            elif k == 'bool':
                r[n] = z3.is_true(self.zm.eval(v, model_completion=True))
            else:
                r[n] = ''.join(self.char(x) for x in v)
        return r

    def poly(self, p):
        t = Fraction(0)
        for m, cf in p.items():
            for i, e in m:
                if i not in self.atoms:
                    self.atoms[i] = self.ival(self.c.atoms[i].z)
                cf = cf * Fraction(self.atoms[i]) ** e
            t += cf
        return t

    def value(self, v):
        """Render like conc.render."""
        if type(v) is N.SymBool:
            return z3.is_true(self.zm.eval(v.z, model_completion=True))
        if type(v) is N.SymInt:
            return int(self.poly(v.p))
        if isinstance(v, N.Sym):
            f = self.poly(v.p)
            return '%d/%d' % (f.numerator, f.denominator)
        if type(v) is T.SymStr:
            return ''.join(self.char(x) for x in v.e)
        if v is None or isinstance(v, (bool, int, str)):
            return v
        if type(v).__name__ == 'Number' and hasattr(v, 'num'):
            f = self.poly(pq(v))
            return '%d/%d' % (f.numerator, f.denominator)
        if isinstance(v, (Fraction, Decimal)):
            f = Fraction(v)
            return '%d/%d' % (f.numerator, f.denominator)
        if isinstance(v, (list, tuple)):
            return [self.value(x) for x in v]
        return type(v).__name__


def path_model(c):
    r = c.check(full=True)
    if r != z3.sat:
        return None
    return Model(c, c.lastmodel())
