"""Symbolic numbers: SymBool, SymInt, SymDec as Laurent polynomials with rational coefficients over integer atoms."""
import decimal
import math
from decimal import Decimal
from fractions import Fraction
import z3
from . import core
from .core import Unsupported, Infeasible

ONE = ()


class Atom:
    __slots__ = ('id', 'name', 'z', 'lo', 'hi')

    def __init__(self, id, name, z, lo=None, hi=None):
        self.id, self.name, self.z, self.lo, self.hi = id, name, z, lo, hi

    def sign(self):
        """1 / -1 / 0 (unknown or may be zero)"""
        if self.lo is not None and self.lo > 0:
            return 1
        if self.hi is not None and self.hi < 0:
            return -1
        return 0

    def isnonzero(self):
        return self.sign() != 0 or self.id in core.C.nonzero


def new_atom(name, lo=None, hi=None, z=None, constrain=True):
    c = core.C
    c.natoms += 1
    i = c.natoms
    if z is None:
        z = z3.Int('%s!%d' % (name, i))
    a = Atom(i, name, z, lo, hi)
    c.atoms[i] = a
    if constrain:
        if lo is not None:
            c.add(z >= lo)
        if hi is not None:
            c.add(z <= hi)
    return a


# ---------------------------------------------------------------------- polynomials: dict monomial -> Fraction
def p_const(v):
    v = Fraction(v)
    return {ONE: v} if v else {}


def p_atom(a):
    return {((a.id, 1),): Fraction(1)}


def p_add(a, b):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def p_scale(a, k):
    if not k:
        return {}
    return {m: c * k for m, c in a.items()}


def p_sub(a, b):
    return p_add(a, p_scale(b, Fraction(-1)))


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        n = d.get(i, 0) + e
        if n:
            d[i] = n
        else:
            d.pop(i, None)
    return tuple(sorted(d.items()))


def m_pow(m, k):
    return tuple((i, e * k) for i, e in m)


def p_mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            n = r.get(m, 0) + c1 * c2
            if n:
                r[m] = n
            else:
                r.pop(m, None)
    return r


def p_isconst(p):
    return not p or (len(p) == 1 and ONE in p)


def p_constval(p):
    return p.get(ONE, Fraction(0))


def p_key(p):
    return tuple(sorted(p.items()))


def p_integral_syntactic(p):
    for m, c in p.items():
        if c.denominator != 1:
            return False
        for _, e in m:
            if e < 0:
                return False
    return True


def p_integral(p):
    """Is p known to be integer valued (syntactically, or by a recorded fact)?"""
    if p_integral_syntactic(p):
        return True
    facts = core.C.integral
    k = p_key(p)
    if k in facts or p_key(p_scale(p, Fraction(-1))) in facts:
        return True
    for f in facts:
        # p == fact * (integer polynomial), tried for single-quotient monomials
        q = _mono_quotient(p, f)
        if q is not None and p_integral_syntactic(q):
            return True
    # p minus its integral monomials
    rest = {m: c for m, c in p.items() if not (m_integral(m, c, facts) if len(p) > 1 else p_integral_syntactic({m: c}))}
    if len(rest) < len(p):
        return p_integral(rest)
    return False


def m_integral(m, c, facts):
    if c.denominator == 1 and all(e > 0 for _, e in m):
        return True
    for f in facts:
        if len(f) == 1:
            q = _mono_quotient({m: c}, f)
            if p_integral_syntactic(q):
                return True
            if len(facts) < 12:
                # product of two facts
                (qm, qc), = q.items()
                if any(len(g) == 1 and p_integral_syntactic(_mono_quotient({qm: qc}, g)) for g in facts):
                    return True
    return False


def _mono_quotient(p, fkey):
    """q with p == q * f when q is a single monomial, else None."""
    if len(fkey) != len(p) or not p:
        return None
    fm, fc = fkey[0]
    for m, c in p.items():
        qm = m_mul(m, tuple((i, -e) for i, e in fm))
        qc = c / fc
        q = {qm: qc}
        if p_mul(q, dict(fkey)) == p:
            return q
    return None


def p_interval(p):
    """(lo, hi) with None for unbounded."""
    lo = hi = Fraction(0)
    atoms = core.C.atoms
    for m, c in p.items():
        l, h = Fraction(1), Fraction(1)
        for i, e in m:
            a = atoms[i]
            al, ah = a.lo, a.hi
            if e < 0:
                if al is not None and al > 0:
                    al, ah = (Fraction(0) if ah is None else Fraction(1, ah)), Fraction(1, al)
                elif ah is not None and ah < 0:
                    al, ah = Fraction(1, ah), (Fraction(0) if al is None else Fraction(1, al))
                else:
                    al, ah = Fraction(-1), Fraction(1)     # integer atom, non-zero
            for _ in range(abs(e)):
                l, h = _imul(l, h, al, ah)
            if e % 2 == 0 and e != 0 and l is not None and l < 0 and len(m) == 1:
                l = Fraction(0)
        if c >= 0:
            l, h = (None if l is None else l * c), (None if h is None else h * c)
        else:
            l, h = (None if h is None else h * c), (None if l is None else l * c)
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
    return lo, hi


def _imul(l, h, a, b):
    INF = float('inf')
    l2 = -INF if l is None else l
    h2 = INF if h is None else h
    a2 = -INF if a is None else a
    b2 = INF if b is None else b
    vs = []
    for x in (l2, h2):
        for y in (a2, b2):
            vs.append(0 if (x == 0 or y == 0) else x * y)
    lo, hi = min(vs), max(vs)
    return (None if lo == -INF else lo), (None if hi == INF else hi)


def m_z3(m):
    atoms = core.C.atoms
    t = None
    for i, e in m:
        z = atoms[i].z
        for _ in range(e):
            t = z if t is None else t * z
    return t


def p_z3(p):
    """z3 Int term k*p for the least k > 0 with integer coefficients; p must have no negative exponents."""
    den = 1
    for c in p.values():
        den = den * c.denominator // math.gcd(den, c.denominator)
    terms = []
    for m, c in sorted(p.items()):
        k = int(c * den)
        t = m_z3(m)
        if t is None:
            terms.append(z3.IntVal(k))
        elif k == 1:
            terms.append(t)
        else:
            terms.append(k * t)
    if not terms:
        return z3.IntVal(0), den
    return (terms[0] if len(terms) == 1 else z3.Sum(terms)), den


def p_clear(p):
    """Multiply by positive monomials to remove negative exponents; sign is preserved (atoms in denominators are non-zero)."""
    neg = {}
    for m in p:
        for i, e in m:
            if e < 0:
                neg[i] = max(neg.get(i, 0), -e)
    if not neg:
        return p
    mult = ONE
    flip = 1
    for i, e in neg.items():
        s = core.C.atoms[i].sign()
        if s < 0 and e % 2:
            flip = -flip
        elif s == 0 and e % 2:
            e += 1
        mult = m_mul(mult, ((i, e),))
    r = {m_mul(m, mult): c * flip for m, c in p.items()}
    return r


def p_simplify(p, rel):
    """A polynomial without negative exponents or common factors of known sign that stands in the same relation to 0."""
    p = p_clear(p)
    com = None
    for m in p:
        d = {i: e for i, e in m}
        com = d if com is None else {i: min(e, d[i]) for i, e in com.items() if i in d}
    drop = {}
    flip = 1
    for i, e in (com or {}).items():
        s = core.C.atoms[i].sign()
        if not s and (rel in ('==', '!=') or e % 2 == 0) and e > 0 and i in core.C.nonzero:
            drop[i] = e
        elif s:
            drop[i] = e
            if s < 0 and e % 2:
                flip = -flip
    if drop:
        dm = tuple(sorted((i, -e) for i, e in drop.items()))
        p = {m_mul(m, dm): c * flip for m, c in p.items()}
    return p


def p_rel(p, rel):
    """Formula (or bool) for p rel 0."""
    if not p_isconst(p):
        p = p_simplify(p, rel)
    if p_isconst(p):
        v = p_constval(p)
        return {'==': v == 0, '<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0, '!=': v != 0}[rel]
    lo, hi = p_interval(p)
    if rel == '<':
        if hi is not None and hi < 0: return True
        if lo is not None and lo >= 0: return False
    elif rel == '<=':
        if hi is not None and hi <= 0: return True
        if lo is not None and lo > 0: return False
    elif rel == '>':
        if lo is not None and lo > 0: return True
        if hi is not None and hi <= 0: return False
    elif rel == '>=':
        if lo is not None and lo >= 0: return True
        if hi is not None and hi < 0: return False
    elif rel in ('==', '!='):
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return rel == '!='
    t, _ = p_z3(p)
    z = z3.IntVal(0)
    return {'==': t == z, '!=': t != z, '<': t < z, '<=': t <= z, '>': t > z, '>=': t >= z}[rel]


# ---------------------------------------------------------------------- values
class SymBool:
    __slots__ = ('z', 'refine')

    def __init__(self, z, refine=None):
        self.z = z
        self.refine = refine

    __class__ = property(lambda self: bool)

    def __bool__(self):
        r = core.C.branch(self.z)
        if self.refine is not None:
            self.refine(r)
        return r

    def __repr__(self):
        return 'SymBool(%s)' % (self.z,)

    def __str__(self):
        raise Unsupported('str of a symbolic truth value')

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, (bool, int)) and type(o) is not SymBool and not isinstance(o, Sym):
            return bool(self) == o
        if type(o) is SymBool:
            return SymBool(self.z == o.z)
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (bool, int)) and type(o) is not SymBool and not isinstance(o, Sym):
            return bool(self) != o
        if type(o) is SymBool:
            return SymBool(self.z != o.z)
        return NotImplemented

    def __and__(self, o):
        return SymBool(z3.And(self.z, zbool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.z, zbool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.z, zbool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        raise Unsupported('~ on a symbolic truth value')

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __getattr__(self, n):
        raise Unsupported('SymBool.' + n)


def zbool(x):
    if type(x) is SymBool:
        return x.z
    return z3.BoolVal(bool(x))


def mkbool(f, refine=None):
    if f is True or f is False:
        return f
    return SymBool(f, refine)


def refiner(p, rel):
    """Tighten the bounds of an atom when a*x + b rel 0 has been decided; learn equations."""
    if rel in ('==', '!='):
        inner = bound_refiner(p, rel)

        def run(taken):
            if inner is not None:
                inner(taken)
            if taken == (rel == '=='):
                learn_zero(p)
            else:
                learn_nonzero(p)
        return run
    return bound_refiner(p, rel)


def bound_refiner(p, rel):
    if len(p) > 2:
        return None
    ms = [m for m in p if m != ONE]
    if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1:
        return None
    a = core.C.atoms[ms[0][0][0]]
    k = p[ms[0]]
    bound = -p.get(ONE, Fraction(0)) / k       # x rel' bound
    inv = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
    rel = inv[rel] if k < 0 else rel
    negrel = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}

    def run(taken):
        r = rel if taken else negrel[rel]
        if r == '<':
            v = math.ceil(bound) - 1
        elif r == '<=':
            v = math.floor(bound)
        if r in ('<', '<='):
            if a.hi is None or v < a.hi:
                a.hi = v
        elif r in ('>', '>='):
            v = math.floor(bound) + 1 if r == '>' else math.ceil(bound)
            if a.lo is None or v > a.lo:
                a.lo = v
        elif r == '==':
            if bound.denominator == 1:
                a.lo = a.hi = int(bound)
        elif r == '!=':
            if a.lo is not None and a.lo == bound:
                a.lo += 1
            if a.hi is not None and a.hi == bound:
                a.hi -= 1
        if a.lo is not None and a.lo == a.hi and a.id not in core.C.fixed:
            subst(a.id, Fraction(a.lo), ONE)
    return run


def p_norm(p):
    """Apply the substitutions decided on this path (atom = coefficient * monomial) and polynomials known to be zero."""
    c = core.C
    if c is None or not p:
        return p
    fx = c.fixed
    if fx:
        hit = False
        for m in p:
            for i, e in m:
                if i in fx:
                    hit = True
        if hit:
            r = {}
            for m, cf in p.items():
                nm = ONE
                for i, e in m:
                    if i in fx:
                        v, vm = fx[i]
                        if v == 0:
                            if e < 0:       # divisors are decided to be non-zero before they are used
                                raise Infeasible()
                            cf = 0
                            break
                        cf = cf * Fraction(v) ** e
                        nm = m_mul(nm, m_pow(vm, e))
                    else:
                        nm = m_mul(nm, ((i, e),))
                if cf:
                    n = r.get(nm, 0) + cf
                    if n:
                        r[nm] = n
                    else:
                        r.pop(nm, None)
            p = r
    if c.zeros and p and not p_isconst(p):
        for z in c.zeros:
            q = _mono_quotient(p, z)
            if q is not None and all(e > 0 or c.atoms[i].isnonzero() for m in q for i, e in m):
                return {}
    return p


def learn_nonzero(p):
    """p != 0 has been decided: every atom of a one-term polynomial is non-zero."""
    if len(p) == 1:
        (m, _), = p.items()
        for i, e in m:
            core.C.nonzero.add(i)
            a = core.C.atoms[i]
            if a.lo == 0:
                a.lo = 1
            if a.hi == 0:
                a.hi = -1


def learn_zero(p):
    """p == 0 has been decided: derive a substitution when p has one or two terms."""
    c = core.C
    p = p_norm(p)
    if p_isconst(p):
        return
    terms = list(p.items())
    if len(terms) == 1:
        m = tuple((i, e) for i, e in terms[0][0] if e > 0 and not c.atoms[i].isnonzero())
        if not m:
            raise Infeasible()
        if len(m) == 1:
            subst(m[0][0], Fraction(0), ONE)
        else:
            c.zeros.append(p_key({m_pow(m, 1): Fraction(1)}))
        return
    if len(terms) == 2:
        (m1, c1), (m2, c2) = terms
        q = m_mul(m1, m_pow(m2, -1))          # q == -c2/c1
        k = -c2 / c1
        common = [i for i, _ in m1 if any(i == j for j, _ in m2)]
        for i, e in sorted(q, reverse=True) if all(c.atoms[j].isnonzero() for j in common) else ():
            if e in (1, -1):
                rest = tuple((j, f) for j, f in q if j != i)
                if not all(c.atoms[j].isnonzero() or f * e < 0 for j, f in rest):
                    continue
                # x^e * rest = k
                if e == 1:
                    subst(i, k, m_pow(rest, -1))
                elif k:
                    subst(i, 1 / k, rest)
                return
    c.zeros.append(p_key(p))


def subst(i, k, mono):
    c = core.C
    if mono == ONE:
        a = c.atoms[i]
        if (a.lo is not None and k < a.lo) or (a.hi is not None and k > a.hi) or (k == 0 and i in c.nonzero) or Fraction(k).denominator != 1:
            raise Infeasible()
    elif not p_integral_syntactic({mono: Fraction(k)}):
        c.integral.add(p_key({mono: Fraction(k)}))        # it equals an integer atom
    c.fixed[i] = (k, mono)
    for j, (kj, mj) in list(c.fixed.items()):
        if j != i and any(a == i for a, _ in mj):
            q = p_norm({mj: Fraction(kj)}) if kj else {}
            if len(q) == 1:
                (m2, k2), = q.items()
                c.fixed[j] = (k2, m2)
            elif not q:
                c.fixed[j] = (Fraction(0), ONE)
    renorm = lambda key: p_key(p_norm(dict(key)))
    c.integral = {renorm(k2) for k2 in c.integral}
    c.coprime = [(renorm(x), renorm(y)) for x, y in c.coprime]
    c.memo = {rekey(k2, renorm): v for k2, v in c.memo.items()}
    for x, y in list(c.coprime):
        for u, v in ((x, y), (y, x)):
            if not u and len(v) == 1 and len(v[0][0]) >= 1:       # gcd(0, v) == 1: v is 1 or -1
                lo, hi = p_interval(dict(v))
                if lo is not None and lo >= 0:
                    learn_zero(p_sub(dict(v), p_const(1)))
                elif hi is not None and hi <= 0:
                    learn_zero(p_add(dict(v), p_const(1)))


def rekey(key, renorm):
    """Memo keys contain polynomial keys (tuples of (monomial, Fraction) pairs): bring those to normal form."""
    out = []
    for x in key:
        if type(x) is tuple and x and type(x[0]) is tuple and len(x[0]) == 2 and type(x[0][1]) is Fraction:
            x = renorm(x)
        out.append(x)
    return tuple(out)


def rel(p, r):
    p = p_norm(p)
    if r == '>' and core.C.gcd_fork == 0 and len(p) == 2 and p.get(()) == -1:
        # "gcd > 1" of an opaque gcd: dividing by it is right for 1 too (N01 looks at both cases)
        (m, cf), = [x for x in p.items() if x[0]]
        if cf == 1 and len(m) == 1 and m[0][1] == 1 and core.C.atoms[m[0][0]].name == 'gcd':
            core.C.notes.add('division by an opaque gcd covers gcd = 1')
            return True
    if not p_isconst(p):
        p = p_simplify(p, r)
    return mkbool(p_rel(p, r), refiner(p, r))


def poly_of(x):
    if isinstance(x, Sym):
        return x.p
    if type(x) is bool or isinstance(x, int):
        return p_const(int(x))
    if isinstance(x, Fraction):
        return p_const(x)
    if isinstance(x, Decimal):
        if not x.is_finite():
            raise Unsupported('non-finite decimal')
        return p_const(Fraction(x))
    return None


class Sym:
    """Common base of the numeric values."""
    __slots__ = ('_p',)

    @property
    def p(self):
        c = core.C
        if c is not None and (c.fixed or c.zeros):
            return p_norm(self._p)
        return self._p

    @p.setter
    def p(self, v):
        self._p = v

    def __bool__(self):
        return bool(rel(self.p, '!='))

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, ' + '.join('%s*%s' % (c, m) for m, c in self.p.items()))

    def __str__(self):
        raise Unsupported('native str() of a symbolic number')

    def _cmp(self, o, r):
        q = poly_of(o) if not isinstance(o, float) else None
        if q is None:
            if isinstance(o, float):
                if o == math.inf or o == -math.inf:
                    return {'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0, '==': False, '!=': True}[r]
                if o == int(o):
                    q = p_const(int(o))
                else:
                    q = p_const(Fraction(o))
            else:
                return NotImplemented
        return rel(p_sub(self.p, q), r)

    def __eq__(self, o): return self._cmp(o, '==')
    def __ne__(self, o): return self._cmp(o, '!=')
    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')

    def __format__(self, spec):
        raise Unsupported('native format() of a symbolic number')

    def concretise(self):
        """Fork over all feasible values (must be integral and bounded)."""
        c = core.C
        lo, hi = p_interval(self.p)
        if lo is None or hi is None:
            raise Unsupported('concretisation of an unbounded value')
        if hi - lo > 4096:
            raise Unsupported('concretisation over more than 4096 values')
        lo, hi = math.ceil(lo), math.floor(hi)

        for v in range(lo, hi + 1):
            if rel(p_sub(self.p, p_const(v)), '=='):
                return v
        raise Infeasible()


def wrap_int(p):
    p = p_norm(p)
    if p_isconst(p):
        v = p_constval(p)
        if v.denominator == 1:
            return int(v)
    r = SymInt.__new__(SymInt)
    r.p = p
    return r


def wrap_dec(p, exp=None, signsrc=None):
    p = p_norm(p)
    r = SymDec.__new__(SymDec)
    if p_isconst(p):
        d = frac_to_dec(p_constval(p))
        if d is not None:
            return d
    r.p = p
    r.exp = exp
    r.signsrc = signsrc
    return r


def frac_to_dec(f):
    if f.denominator == 1:
        return Decimal(f.numerator)
    d = f.denominator
    twos = fives = 0
    while d % 2 == 0:
        d //= 2; twos += 1
    while d % 5 == 0:
        d //= 5; fives += 1
    if d != 1:
        return None
    n = max(twos, fives)
    num = f.numerator * 10 ** n // f.denominator
    if len(str(abs(num))) > 200:
        return None
    return Decimal(num).scaleb(-n, decimal.Context(prec=1000)) if False else Decimal((0 if num >= 0 else 1, tuple(int(c) for c in str(abs(num))), -n))


def rat(p):
    """Exact rational value of a polynomial as SymDec, Fraction or int."""
    if p_isconst(p):
        return p_constval(p)
    return wrap_dec(p)


def check_prec(p):
    """Decimal arithmetic is idealised as exact; that is justified while integers fit the context precision."""
    prec = decimal.getcontext().prec
    c = core.C
    if prec >= 90:
        return
    lo, hi = p_interval(p)
    big = max(abs(lo) if lo is not None else math.inf, abs(hi) if hi is not None else math.inf)
    if p_integral(p) and big < 10 ** prec:
        return
    raise Unsupported('decimal context precision %d too small for exact modelling' % prec)


class SymInt(Sym):
    __slots__ = ()

    __class__ = property(lambda self: int)

    def __init__(self, p):
        self.p = p

    def __hash__(self):
        return hash(self.concretise())

    def __index__(self):
        return self.concretise()

    def __int__(self):
        return self.concretise()

    def __float__(self):
        raise Unsupported('float of a symbolic integer')

    def _bin(self, o, f):
        if isinstance(o, float):
            from . import hooks
            return hooks.float_op(self, o, lambda a, b: wrap_int(f(poly_of(a), poly_of(b))))
        if isinstance(o, complex):
            raise Unsupported('symbolic integer with complex')
        if type(o) is SymDec or isinstance(o, Decimal):
            return NotImplemented if not isinstance(o, Decimal) or type(o) is SymDec else wrap_dec(f(self.p, poly_of(o)))
        q = poly_of(o)
        if q is None:
            return NotImplemented
        return wrap_int(f(self.p, q))

    def __add__(self, o): return self._bin(o, p_add)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, p_sub)
    def __rsub__(self, o): return self._bin(o, lambda a, b: p_sub(b, a))

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)) and not isinstance(o, Sym):
            return o * self.concretise()
        return self._bin(o, p_mul)
    __rmul__ = __mul__

    def __neg__(self): return wrap_int(p_scale(self.p, Fraction(-1)))
    def __pos__(self): return self
    def __abs__(self): return self if self >= 0 else -self
    def __floor__(self): return self
    def __ceil__(self): return self
    def __trunc__(self): return self
    def __round__(self, n=None):
        if n is None or n >= 0:
            return self
        raise Unsupported('round(int, negative)')

    def __truediv__(self, o):
        if isinstance(o, Decimal):
            return d_div(self.p, poly_of(o))
        raise Unsupported('float division of symbolic integers')

    def __rtruediv__(self, o):
        if isinstance(o, Decimal):
            return d_div(poly_of(o), self.p)
        raise Unsupported('float division of symbolic integers')

    def __floordiv__(self, o): return i_divmod(self, o)[0]
    def __mod__(self, o): return i_divmod(self, o)[1]
    def __rfloordiv__(self, o): return i_divmod(o, self)[0]
    def __rmod__(self, o): return i_divmod(o, self)[1]
    def __divmod__(self, o): return i_divmod(self, o)
    def __rdivmod__(self, o): return i_divmod(o, self)

    def __pow__(self, o, m=None):
        if m is not None:
            raise Unsupported('modular power')
        if isinstance(o, Sym):
            o = o.concretise()
        if not isinstance(o, int):
            raise Unsupported('symbolic integer power of ' + str(type(o)))
        if o < 0:
            raise Unsupported('negative integer power (float)')
        return wrap_int(p_pow(self.p, o))

    def __rpow__(self, o):
        return o ** self.concretise()

    def __lshift__(self, o):
        if isinstance(o, Sym):
            o = o.concretise()
        if o < 0:
            raise ValueError('negative shift count')
        return self * (1 << o)

    def __rshift__(self, o):
        if isinstance(o, Sym):
            o = o.concretise()
        if o < 0:
            raise ValueError('negative shift count')
        return self // (1 << o)

    def __rlshift__(self, o): return o << self.concretise()
    def __rrshift__(self, o): return o >> self.concretise()
    def __and__(self, o): return bitop(self, o, 'and')
    __rand__ = __and__
    def __or__(self, o): return bitop(self, o, 'or')
    __ror__ = __or__
    def __xor__(self, o): return bitop(self, o, 'xor')
    __rxor__ = __xor__
    def __invert__(self): return -self - 1

    def bit_length(self):
        a = abs(self)
        if not isinstance(a, Sym):
            return a.bit_length()
        lo, hi = p_interval(a.p)
        if hi is None:
            raise Unsupported('bit_length of unbounded integer')
        for k in range(0, int(hi).bit_length() + 1):
            if a < (1 << k):
                return k
        raise Infeasible()

    def is_integer(self):
        return True

    def as_integer_ratio(self):
        return (self, 1)

    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1

    def __getattr__(self, n):
        raise Unsupported('int.' + n)


def p_pow(p, n):
    r = p_const(1)
    for _ in range(n):
        r = p_mul(r, p)
    return r


class SymDec(Sym):
    __slots__ = ('exp', 'signsrc')

    __class__ = property(lambda self: Decimal)

    def __init__(self, p, exp=None, signsrc=None):
        self.p, self.exp, self.signsrc = p, exp, signsrc

    def __hash__(self):
        if p_isconst(self.p):
            return hash(p_constval(self.p))
        lo, hi = p_interval(self.p)
        if not p_integral(self.p):
            raise Unsupported('hash of a symbolic fraction')
        return hash(self.concretise())

    def _bin(self, o, f):
        if isinstance(o, (float, complex)):
            raise TypeError('unsupported operand type(s): Decimal and float')
        q = poly_of(o)
        if q is None:
            return NotImplemented
        r = f(self.p, q)
        check_prec(r)
        return wrap_dec(r)

    def __add__(self, o): return self._bin(o, p_add)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, p_sub)
    def __rsub__(self, o): return self._bin(o, lambda a, b: p_sub(b, a))
    def __mul__(self, o): return self._bin(o, p_mul)
    __rmul__ = __mul__
    def __neg__(self):
        # Decimal negation of zero gives zero
        return wrap_dec(p_scale(self.p, Fraction(-1)))
    def __pos__(self): return self
    def __abs__(self): return self if self >= 0 else -self
    def copy_abs(self): return abs(self)
    def copy_negate(self): return -self

    def __truediv__(self, o):
        if isinstance(o, float):
            raise TypeError('unsupported operand type(s) for /: Decimal and float')
        q = poly_of(o)
        if q is None:
            return NotImplemented
        return d_div(self.p, q)

    def __rtruediv__(self, o):
        q = poly_of(o)
        if q is None:
            return NotImplemented
        return d_div(q, self.p)

    def __mod__(self, o):
        return d_divmod(self, o)[1]

    def __rmod__(self, o):
        return d_divmod(o, self)[1]

    def __floordiv__(self, o): return d_divmod(self, o)[0]
    def __rfloordiv__(self, o): return d_divmod(o, self)[0]
    def __divmod__(self, o): return d_divmod(self, o)
    def __rdivmod__(self, o): return d_divmod(o, self)

    def __pow__(self, o, m=None):
        if m is not None:
            raise Unsupported('decimal modular power')
        if isinstance(o, Sym):
            if not p_integral(o.p):
                raise Unsupported('decimal power with symbolic fractional exponent')
            o = o.concretise()
        if isinstance(o, Decimal):
            if o != int(o):
                raise Unsupported('fractional power of a symbolic decimal')
            o = int(o)
        if not isinstance(o, int):
            return NotImplemented
        if o == 0:
            if self == 0:
                raise decimal.InvalidOperation([decimal.InvalidOperation])
            return Decimal(1)
        if o < 0:
            if self == 0:
                return Decimal('Infinity')
            return d_div(p_const(1), p_pow(self.p, -o))
        r = p_pow(self.p, o)
        check_prec(r)
        return wrap_dec(r)

    def __rpow__(self, o):
        if not p_integral(self.p):
            raise Unsupported('symbolic fractional exponent')
        return o ** Decimal(self.concretise())

    def __floor__(self): return p_floor(self.p)
    def __ceil__(self):
        f = p_floor(p_scale(self.p, Fraction(-1)))
        return -f

    def __trunc__(self):
        if p_integral(self.p):
            return wrap_int(self.p)
        if self >= 0:
            return p_floor(self.p)
        return -p_floor(p_scale(self.p, Fraction(-1)))

    def __int__(self):
        raise Unsupported('native int() of a symbolic decimal')

    def log10(self, context=None):
        from . import hooks
        return hooks.dec_log10(self)

    def __float__(self):
        raise Unsupported('float of a symbolic decimal')

    def __complex__(self):
        raise Unsupported('complex of a symbolic decimal')

    def __round__(self, n=None):
        if n is None:
            return wrap_int(p_round(self.p, 'ROUND_HALF_EVEN'))
        if isinstance(n, Sym):
            n = n.concretise()
        return self._quantize(-int(n), decimal.getcontext().rounding)

    def _quantize(self, exp, rounding):
        f = p_round(p_scale(self.p, Fraction(10) ** (-exp)), rounding)
        fp = poly_of(f)
        lo, hi = p_interval(fp)
        lim = 10 ** decimal.getcontext().prec
        if lo is None or hi is None or hi >= lim or lo <= -lim:
            if rel(p_sub(fp, p_const(lim)), '>=') or rel(p_add(fp, p_const(lim)), '<='):
                raise decimal.InvalidOperation([decimal.InvalidOperation])
        return SymDec(p_scale(fp, Fraction(10) ** exp), exp, self.p)

    def quantize(self, o, rounding=None, context=None):
        if isinstance(o, Sym):
            raise Unsupported('quantize to a symbolic exponent')
        return self._quantize(o.as_tuple().exponent, rounding or decimal.getcontext().rounding)

    def to_integral_value(self, rounding=None, context=None):
        return wrap_dec(poly_of(p_round(self.p, rounding or decimal.getcontext().rounding)), 0, self.p)

    to_integral = to_integral_value

    def to_integral_exact(self, rounding=None, context=None):
        if p_integral(self.p):
            return wrap_dec(self.p)
        return self.to_integral_value(rounding)

    def as_integer_ratio(self):
        return d_ratio(self.p)

    def normalize(self, context=None):
        return self

    def is_zero(self): return bool(self == 0)
    def is_signed(self): return bool(self < 0)
    def is_finite(self): return True
    def is_nan(self): return False
    def is_infinite(self): return False
    def compare(self, o):
        if self < o: return Decimal(-1)
        if self == o: return Decimal(0)
        return Decimal(1)
    def min(self, o): return self if self <= o else o
    def max(self, o): return self if self >= o else o
    def remainder_near(self, o): raise Unsupported('remainder_near')
    def conjugate(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return Decimal(0)

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __getattr__(self, n):
        raise Unsupported('Decimal.' + n)


SYM = (SymInt, SymDec, SymBool)


# ---------------------------------------------------------------------- division, rounding, gcd
def p_floor(p):
    if p_isconst(p):
        return math.floor(p_constval(p))
    if p_integral(p):
        return wrap_int(p)
    c = core.C
    # split off the integral part
    whole = {m: cf for m, cf in p.items() if cf.denominator == 1 and all(e > 0 for _, e in m)}
    rest = {m: cf for m, cf in p.items() if m not in whole}
    for m, cf in list(rest.items()):
        if all(e > 0 for _, e in m):
            n = math.floor(cf)
            if n:
                whole[m] = Fraction(n)
                rest[m] = cf - n
    if p_isconst(rest):
        return wrap_int(p_add(whole, p_const(math.floor(p_constval(rest)))))
    key = ('floor', p_key(rest))
    if key not in c.memo:
        lo, hi = p_interval(rest)
        a = new_atom('fl', None if lo is None else math.floor(lo), None if hi is None else math.floor(hi))
        d = p_sub(rest, p_atom(a))      # 0 <= rest - a < 1
        for f in (p_rel(d, '>='), p_rel(p_sub(d, p_const(1)), '<')):
            if f is not True:
                c.add(f if f is not False else z3.BoolVal(False))
        c.memo[key] = a
    return wrap_int(p_add(whole, p_atom(c.memo[key])))


def p_round(p, rounding):
    """Integer nearest to p under a decimal rounding mode."""
    half = p_const(Fraction(1, 2))
    if p_integral(p):
        return wrap_int(p)
    neg = lambda q: p_scale(q, Fraction(-1))
    fl = lambda q: p_floor(q)
    if rounding == 'ROUND_FLOOR':
        return fl(p)
    if rounding == 'ROUND_CEILING':
        return -fl(neg(p))
    s = rel(p, '>=')
    if s:
        a, back = p, lambda v: v
    else:
        a, back = neg(p), lambda v: -v
    if rounding == 'ROUND_HALF_UP':
        return back(fl(p_add(a, half)))
    if rounding == 'ROUND_HALF_DOWN':
        return back(-fl(neg(p_sub(a, half))))
    if rounding == 'ROUND_DOWN':
        return back(fl(a))
    if rounding == 'ROUND_UP':
        return back(-fl(neg(a)))
    if rounding == 'ROUND_HALF_EVEN':
        f = fl(a)
        d = p_sub(a, poly_of(f))
        if rel(p_sub(d, half), '<'):
            return back(f)
        if rel(p_sub(d, half), '>'):
            return back(f + 1)
        return back(f if f % 2 == 0 else f + 1)
    raise Unsupported('rounding mode ' + str(rounding))


def d_div(a, b):
    if p_isconst(b):
        v = p_constval(b)
        if v == 0:
            if rel(a, '=='):
                raise decimal.InvalidOperation([decimal.DivisionUndefined])
            raise decimal.DivisionByZero([decimal.DivisionByZero])
        return wrap_dec(p_scale(a, 1 / v))
    if rel(b, '=='):
        if rel(a, '=='):
            raise decimal.InvalidOperation([decimal.DivisionUndefined])
        raise decimal.DivisionByZero([decimal.DivisionByZero])
    if not a:
        return Decimal(0)
    # constant multiple
    if len(a) == len(b):
        m0 = next(iter(b))
        if m0 in a:
            k = a[m0] / b[m0]
            if p_scale(b, k) == a:
                r = wrap_dec(p_const(k))
                return r
    return wrap_dec(p_mul(a, p_inverse(b)))


def p_inverse(b):
    if len(b) == 1:
        (m, cf), = b.items()
        return {tuple((i, -e) for i, e in m): 1 / cf}
    # b = mono * B / c with B an integer polynomial: introduce an atom for B
    cden = 1
    for cf in b.values():
        cden = cden * cf.denominator // math.gcd(cden, cf.denominator)
    neg = {}
    for m in b:
        for i, e in m:
            if e < 0:
                neg[i] = max(neg.get(i, 0), -e)
    mult = tuple(sorted(neg.items()))
    B = {m_mul(m, mult): cf * cden for m, cf in b.items()}
    a = atomise(B)
    # 1/b = cden * mult / B
    return {m_mul(mult, ((a.id, -1),)): Fraction(cden)}


def atomise(B):
    c = core.C
    key = ('atom', p_key(B))
    if key not in c.memo:
        lo, hi = p_interval(B)
        a = new_atom('pt', lo if lo is None else math.ceil(lo), hi if hi is None else math.floor(hi))
        t, den = p_z3(B)
        c.add(a.z * den == t)
        c.memo[key] = a
    a = c.memo[key]
    if a.sign() == 0:
        # sign knowledge helps comparisons; ask the solver only cheaply
        pass
    return a


def d_divmod(x, y):
    a, b = poly_of(x), poly_of(y)
    if a is None or b is None:
        raise Unsupported('decimal divmod operands')
    zero = rel(b, '==') if not p_isconst(b) else p_constval(b) == 0
    if zero:
        if rel(a, '=='):
            raise decimal.InvalidOperation([decimal.DivisionUndefined])
        raise decimal.InvalidOperation([decimal.InvalidOperation])   # x % 0 (x // 0 is DivisionByZero, also an ArithmeticError)
    q = d_div(a, b)
    t = p_trunc(poly_of(q))
    tp = poly_of(t)
    return wrap_dec(tp), wrap_dec(p_sub(a, p_mul(tp, b)))


def p_trunc(p):
    if p_isconst(p):
        return math.trunc(p_constval(p))
    if p_integral(p):
        return wrap_int(p)
    if rel(p, '>='):
        return p_floor(p)
    return -p_floor(p_scale(p, Fraction(-1)))


def i_divmod(x, y):
    a, b = poly_of(x), poly_of(y)
    if a is None or b is None:
        raise Unsupported('integer divmod operands')
    if p_isconst(b):
        v = p_constval(b)
        if v == 0:
            raise ZeroDivisionError('integer modulo by zero')
        q = p_floor(p_scale(a, 1 / v))
    else:
        if rel(b, '=='):
            raise ZeroDivisionError('integer modulo by zero')
        q = p_floor(poly_of(d_div(a, b)))
    qp = poly_of(q)
    return q, wrap_int(p_sub(a, p_mul(qp, b)))


def d_ratio(p):
    """as_integer_ratio of a decimal value: lowest terms."""
    den = 1
    for m, cf in p.items():
        if any(e < 0 for _, e in m):
            raise Unsupported('as_integer_ratio of a symbolic quotient')
        den = den * cf.denominator // math.gcd(den, cf.denominator)
    num = p_scale(p, Fraction(den))
    if den == 1:
        return wrap_int(num), 1
    g = gcd2(wrap_int(num), den)
    if isinstance(g, Sym):
        gi = p_inverse(g.p)
        n, d = p_mul(num, gi), p_scale(gi, Fraction(den))
        core.C.integral.add(p_key(n))
        core.C.integral.add(p_key(d))
        return wrap_int(n), wrap_int(d)
    n = p_scale(num, Fraction(1, g))
    core.C.integral.add(p_key(n))
    return wrap_int(n), den // g


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def known_coprime(x, y):
    """Are two one-term integer polynomials with unit coefficients coprime by recorded facts?"""
    facts = core.C.coprime
    if not x or not y:
        return True

    def fact(u, v):
        for (p, q) in facts:
            for s, t in ((p, q), (q, p)):
                if len(s) == 1 and len(t) == 1 and abs(s[0][1]) == 1 and abs(t[0][1]) == 1 and s[0][0] == u and t[0][0] == v:
                    return True
        return False

    def root(m):
        k = 0
        for _, e in m:
            k = math.gcd(k, e)
        return tuple((i, e // k) for i, e in m)
    if fact(root(x), root(y)):
        return True
    if any(e < 0 for _, e in x) or any(e < 0 for _, e in y):
        return False
    return all(fact(((i, 1),), ((j, 1),)) for i, _ in x for j, _ in y)


def mono_gcd(a, b):
    """gcd of two products of atoms when it follows from common factors and recorded coprimality; else None."""
    pa, pb = a.p, b.p
    if len(pa) != 1 or len(pb) != 1:
        return None
    (ma, ca), = pa.items()
    (mb, cb), = pb.items()
    if abs(ca) != 1 or abs(cb) != 1:
        return None
    if all(e > 0 for _, e in ma) and all(e > 0 for _, e in mb):
        db = dict(mb)
        com = tuple((i, min(e, db[i])) for i, e in ma if i in db)
    else:
        com = ()
    ra, rb = m_mul(ma, m_pow(com, -1)), m_mul(mb, m_pow(com, -1))
    if known_coprime(ra, rb):
        return abs(wrap_int({com: Fraction(1)})) if com else 1
    if com:
        g = gcd2(wrap_int({ra: Fraction(1)}), wrap_int({rb: Fraction(1)}))
        return abs(wrap_int({com: Fraction(1)})) * g
    return None


def gcd2(a, b):
    sa, sb = isinstance(a, Sym), isinstance(b, Sym)
    if not sa and not sb:
        return math.gcd(a, b)
    if sa and not sb:
        a, b = b, a
    c = core.C
    if not isinstance(a, Sym):
        # concrete a, symbolic b
        a = abs(a)
        if a == 0:
            return abs(b)
        if a == 1:
            return 1
        if c.gcd_fork < 0:
            # numbers are not kept in lowest terms: the same value, for code that only looks at values
            c.notes.add('numbers not in lowest terms')
            return 1
        if a <= c.gcd_fork:
            for g in reversed(divisors(a)):
                if g == 1:
                    return 1
                t, den = p_z3(b.p)
                if den != 1 or any(e < 0 for m in b.p for _, e in m):
                    # integral by fact but not syntactically
                    fl = p_floor(p_scale(b.p, Fraction(1, g)))
                    ok = bool(rel(p_sub(p_scale(b.p, Fraction(1, g)), poly_of(fl)), '=='))
                else:
                    ok = c.branch(t % g == 0)
                if ok:
                    c.integral.add(p_key(p_scale(b.p, Fraction(1, g))))
                    return g
        a = wrap_sym_const(a)
    # content that divides both syntactically
    ka, kb = p_key(a.p), p_key(b.p)
    if ka == kb or p_key(p_scale(a.p, Fraction(-1))) == kb:
        return abs(a)
    r = mono_gcd(a, b)
    if r is not None:
        return r
    na, nb = (p_key(p_scale(v.p, Fraction(-1))) for v in (a, b))
    for (x, y) in c.coprime:
        if (x in (ka, na) and y in (kb, nb)) or (x in (kb, nb) and y in (ka, na)):
            return 1
    key = ('gcd',) + tuple(sorted((ka, kb)))
    if key not in c.memo:
        if p_rel(a.p, '==') is not False and a == 0:
            g = abs(b)
        elif p_rel(b.p, '==') is not False and b == 0:
            g = abs(a)
        else:
            (l1, h1), (l2, h2) = p_interval(a.p), p_interval(b.p)
            m1 = None if l1 is None or h1 is None else max(abs(l1), abs(h1))
            m2 = None if l2 is None or h2 is None else max(abs(l2), abs(h2))
            hs = [m for m in (m1, m2) if m is not None]
            at = new_atom('gcd', 1, math.floor(min(hs)) if hs else None)
            inv = {((at.id, -1),): Fraction(1)}
            qa, qb = p_mul(a.p, inv), p_mul(b.p, inv)
            c.integral.add(p_key(qa))
            c.integral.add(p_key(qb))
            c.coprime.append((p_key(qa), p_key(qb)))
            # divisibility witnesses for the solver
            for q, src in ((qa, a.p), (qb, b.p)):
                w = new_atom('q')
                d = p_sub(p_mul(p_atom(w), p_atom(at)), src)
                f = p_rel(d, '==')
                if f is not True:
                    c.lazy.append(f if f is not False else z3.BoolVal(False))
            c.notes.add('gcd of two symbolic integers: opaque positive common divisor with coprime cofactors')
            g = SymInt(p_atom(at))
        c.memo[key] = g
    return c.memo[key]


def wrap_sym_const(v):
    r = SymInt.__new__(SymInt)
    r.p = p_const(v)
    return r


def gcd_model(*args):
    g = 0
    for a in args:
        if not isinstance(a, int):
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(a).__name__)
    if len(args) == 2:
        return gcd2(*args)
    for a in args:
        g = gcd2(g, a) if not (isinstance(g, int) and not isinstance(g, Sym) and g == 0) else abs(a)
    return g


def lcm_model(*args):
    l = 1
    for a in args:
        if not isinstance(a, int):
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(a).__name__)
        if not isinstance(l, Sym) and not isinstance(a, Sym):
            l = math.lcm(l, a)
            continue
        if l == 0 or a == 0:
            return 0
        if not isinstance(l, Sym) and l == 1:
            l = abs(a)
            continue
        g = gcd2(l, a)
        la, lb = abs(l), abs(a)
        q = poly_of(d_div(poly_of(la), poly_of(g)))
        core.C.integral.add(p_key(q))
        r = p_mul(q, poly_of(lb))
        core.C.integral.add(p_key(r))
        l = wrap_int(r)
    return l


# ---------------------------------------------------------------------- bit operations
def bits_of(x, k):
    """k least significant bits of a non-negative bounded integer, as z3 0/1 terms with a linear link."""
    c = core.C
    if not isinstance(x, Sym):
        return [z3.IntVal((x >> i) & 1) for i in range(k)]
    key = ('bits', p_key(x.p), k)
    if key not in c.memo:
        t, den = p_z3(x.p)
        if den != 1:
            raise Unsupported('bits of a non-syntactic integer')
        bs = [z3.Int('bit!%d!%d' % (c.natoms, i)) for i in range(k)]
        c.natoms += 1
        for b in bs:
            c.add(z3.And(b >= 0, b <= 1))
        c.add(t == z3.Sum([b * (1 << i) for i, b in enumerate(bs)]))
        c.memo[key] = bs
    return c.memo[key]


def bitop(x, y, op):
    if isinstance(y, (float, Decimal)) and not isinstance(y, Sym):
        return NotImplemented
    if not isinstance(x, int) or not isinstance(y, int):
        return NotImplemented
    px, py = poly_of(x), poly_of(y)
    if (rel(px, '<') if isinstance(x, Sym) else x < 0) or (rel(py, '<') if isinstance(y, Sym) else y < 0):
        # two's complement identities for negative operands
        nx, ny = bool(rel(px, '<')), bool(rel(py, '<'))
        ix, iy = (~x if nx else x), (~y if ny else y)
        if op == 'xor':
            r = bitop_nn(ix, iy, 'xor')
            return ~r if nx != ny else r
        if op == 'and':
            if nx and ny:
                return ~bitop_nn(ix, iy, 'or')
            if nx:
                return bitop_nn(iy, ix, 'andnot')
            return bitop_nn(ix, iy, 'andnot')
        if nx and ny:
            return ~bitop_nn(ix, iy, 'and')
        if nx:
            return ~bitop_nn(ix, iy, 'andnot')
        return ~bitop_nn(iy, ix, 'andnot')
    return bitop_nn(x, y, op)


def bitop_nn(x, y, op):
    c = core.C
    if not isinstance(x, Sym) and not isinstance(y, Sym):
        return {'and': x & y, 'or': x | y, 'xor': x ^ y, 'andnot': x & ~y}[op]
    _, hx = p_interval(poly_of(x))
    _, hy = p_interval(poly_of(y))
    if hx is None or hy is None:
        raise Unsupported('bit operation on unbounded integers')
    k = max(int(hx).bit_length(), int(hy).bit_length(), 1)
    if k > 64:
        raise Unsupported('bit operation wider than 64 bits')
    key = ('bitop', op, p_key(poly_of(x)), p_key(poly_of(y)))
    if key not in c.memo:
        bx, by = bits_of(x, k), bits_of(y, k)
        rs = []
        for i in range(k):
            a, b = bx[i] == 1, by[i] == 1
            t = {'and': z3.And(a, b), 'or': z3.Or(a, b), 'xor': a != b, 'andnot': z3.And(a, z3.Not(b))}[op]
            rs.append(z3.If(t, 1 << i, 0))
        at = new_atom('bw', 0, (1 << k) - 1)
        c.add(at.z == z3.Sum(rs))
        c.memo[key] = at
    return wrap_int(p_atom(c.memo[key]))
