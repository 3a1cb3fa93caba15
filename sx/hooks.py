"""Models of the built-in operations reached with symbolic values, and the call hooks the instrumented code goes through."""
import builtins
import decimal
import functools
import math
import operator
import re
import statistics
import time
import types
import z3
from decimal import Decimal
from fractions import Fraction
from . import core
from . import num as N
from . import text as T
from . import regex as R
from .core import Control, Unsupported
from .num import SymInt, SymDec, SymBool, Sym
from .text import SymStr, SymChar, mk, elements

SYMT = frozenset((SymInt, SymDec, SymBool, SymStr))
FT = types.FunctionType
MT = types.MethodType
BT = types.BuiltinFunctionType
MODT = types.ModuleType
PATT = re.Pattern

entered = set()


def enter(q):
    entered.add(q)


class Opaque:
    """A floating-point value about which nothing is assumed: comparisons go both ways (over-approximation)."""
    __class__ = property(lambda self: float)

    def _o(self, *a):
        return Opaque()
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __rpow__ = _o
    __neg__ = __abs__ = __pos__ = __mod__ = __rmod__ = __floordiv__ = _o

    def _c(self, o):
        c = core.C
        c.natoms += 1
        import z3
        c.notes.add('floating-point comparisons over symbolic values are unconstrained (both outcomes explored)')
        return SymBool(z3.Bool('fl!%d' % c.natoms))
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _c

    def __hash__(self):
        raise Unsupported('hash of an opaque float')

    def __bool__(self):
        return bool(self._c(None))

    def __float__(self):
        raise Unsupported('native float() of an opaque float')

    def __getattr__(self, n):
        raise Unsupported('float.' + n)


class Log:
    """coef * log10(x) for an exact positive x, as a float without its rounding error. Comparisons that the exact values decide are
    decided by them, other ones go both ways."""
    __class__ = property(lambda self: float)
    __slots__ = ('coef', 'p')

    def __init__(self, coef, p):
        self.coef, self.p = coef, p
        core.C.notes.add('logarithms (closeness of units) are compared by the exact values, without floating-point rounding')

    def _const(self, o):
        if isinstance(o, bool) or not isinstance(o, (int, float)) or is_sym(o):
            raise Unsupported('logarithm with ' + type(o).__name__)
        return Fraction(o)

    def _shift(self, k):
        k = k / self.coef
        if k.denominator != 1 or abs(k) > 400:
            raise Unsupported('logarithm plus a fraction')
        return Log(self.coef, N.p_scale(self.p, Fraction(10) ** int(k)))

    def __add__(self, o): return self._shift(self._const(o))
    __radd__ = __add__
    def __sub__(self, o): return self._shift(-self._const(o))
    def __neg__(self): return Log(-self.coef, self.p)
    def __rsub__(self, o): return -self + o
    def __pos__(self): return self
    def __float__(self):
        raise Unsupported('native float() of a logarithm')

    def __mul__(self, o):
        o = self._const(o)
        return Log(self.coef * o, self.p) if o else 0.0
    __rmul__ = __mul__

    def __truediv__(self, o):
        return Log(self.coef / self._const(o), self.p)

    def _sign(self):
        """1 where the value is not negative, else -1"""
        ge = bool(N.rel(N.p_sub(self.p, N.p_const(1)), '>='))
        return 1 if ge == (self.coef > 0) else -1

    def __abs__(self):
        return self if self._sign() > 0 else -self

    def _less(self, o, strict):
        if not isinstance(o, Log):
            k = self._const(o) / self.coef
            if abs(k) > 300:
                raise Unsupported('logarithm compared with a large number')
            d = N.p_sub(self.p, N.p_const(Fraction(10) ** int(k) if k.denominator == 1 else Fraction(10.0 ** float(k))))
            return N.rel(d, ('<' if strict else '<=') if self.coef > 0 else ('>' if strict else '>='))
        a, b = self.coef, o.coef
        if a == b:
            d = N.p_sub(self.p, o.p)
            return N.rel(d, ('<' if strict else '<=') if a > 0 else ('>' if strict else '>='))
        if a == -b:
            d = N.p_sub(N.p_mul(self.p, o.p), N.p_const(1))
            return N.rel(d, ('>' if strict else '>=') if b > 0 else ('<' if strict else '<='))
        # different factors: decided where the values are far apart
        x, y = (self, o) if abs(a) > abs(b) else (o, self)
        if x._sign() < 0 or y._sign() < 0:
            return Opaque()._c(None)
        yy = y.p if y.coef > 0 else None
        if yy is not None:
            hi = N.p_interval(yy)[1]
        else:
            lo = N.p_interval(y.p)[0]
            lo = max(lo, Fraction(1, 10 ** 300)) if lo is not None else Fraction(1, 10 ** 300)
            hi = 1 / lo
            if not bool(N.rel(N.p_sub(y.p, N.p_const(lo)), '>=')):
                return Opaque()._c(None)
        k = 0
        while hi is not None and Fraction(10) ** k < hi and k < 2000:
            k += 1
        if hi is None or k >= 2000:
            return Opaque()._c(None)
        # |log x| * |coef| > |log y| * |coef| if log x >= m and m * coef_x > k * coef_y
        m = int(k * abs(y.coef) / abs(x.coef)) + 1
        big = N.rel(N.p_sub(x.p, N.p_const(Fraction(10) ** (m if x.coef > 0 else -m))), '>=' if x.coef > 0 else '<=')
        if bool(big):
            return x is o
        return Opaque()._c(None)

    def __lt__(self, o): return self._less(o, True)
    def __le__(self, o): return self._less(o, False)
    def __gt__(self, o): return o._less(self, True) if isinstance(o, Log) else inot(self._less(o, False))
    def __ge__(self, o): return o._less(self, False) if isinstance(o, Log) else inot(self._less(o, True))

    def __eq__(self, o):
        raise Unsupported('equality of logarithms')
    __ne__ = __eq__
    __hash__ = None

    def __bool__(self):
        raise Unsupported('truth of a logarithm')


class Flt:
    """float() of an exact symbolic value. Only values that a float holds exactly (whole numbers below 2^53) are computed with;
    other ones can be handed to a logarithm, which is taken without rounding errors."""
    __class__ = property(lambda self: float)
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def whole(self):
        p = self.d.p if isinstance(self.d, Sym) else N.p_const(Fraction(self.d))
        lo, hi = N.p_interval(p)
        if not N.p_integral(p) or lo is None or hi is None or max(abs(lo), abs(hi)) >= 2 ** 53:
            raise Unsupported('arithmetic on a symbolic float')
        return N.wrap_int(p)

    def _op(self, o, f):
        if type(o) is Flt:
            o = o.whole()
        elif isinstance(o, float) and o.is_integer():
            o = int(o)
        elif not isinstance(o, int):
            raise Unsupported('arithmetic on a symbolic float')
        r = f(self.whole(), o)
        if not isinstance(r, Sym):
            return float(r)
        r = Flt(r)
        r.whole()
        return r

    def __abs__(self): return Flt(abs(self.d))
    def __neg__(self): return Flt(-self.d)
    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._op(o, lambda a, b: b - a)
    def __mul__(self, o): return self._op(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported('round of a symbolic float')
        return self.whole()
    __int__ = __trunc__ = __floor__ = __ceil__ = whole

    def _cmp(self, o, r):
        return N.rel(N.p_sub(self.whole().p, N.p_const(Fraction(o))), r)
    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __eq__(self, o): return self._cmp(o, '==')
    def __ne__(self, o): return self._cmp(o, '!=')
    def __bool__(self): return bool(self._cmp(0, '!='))

    def _bad(self, *a):
        raise Unsupported('arithmetic on a symbolic float')
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __float__ = _bad
    __hash__ = None


def float_op(o, q, f):
    """An operation of a symbolic integer and a float"""
    r = Flt(o)._op(q, f)
    return r


def m_modf(x):
    if type(x) is Flt:
        return 0.0, Flt(x.whole())
    return math.modf(x)


def m_index(x):
    if type(x) is SymInt:
        return x
    if isinstance(x, Sym):
        raise TypeError("'decimal.Decimal' object cannot be interpreted as an integer")
    return operator.index(x)


DIRECTIVES = {'Y': 0, 'm': 1, 'd': 2, 'H': 3, 'M': 4, 'S': 5}


def m_struct_time(t, *a):
    t = tuple(t)
    return t if deep_sym(t) else time.struct_time(t, *a)


def pad_text(v, width, fill='0'):
    s = sstr(v)
    if len(s) < width:
        neg = fill == '0' and (s[0] == '-')
        s = join('', [s[:1] if neg else '', fill * (width - len(s)), s[1:] if neg else s])
    return s


def m_strftime(fmt, t=None):
    """time.strftime of the C library: %Y is not padded, other numbers have two digits; names of days and months are forked over."""
    if t is None:
        return time.strftime(fmt)
    es = elements(fmt)
    if not deep_sym(tuple(t)) and type(fmt) is str:
        return time.strftime(fmt, t)
    out, i = [], 0
    while i < len(es):
        ch = es[i]
        if ch != '%':
            out.append(mk((ch,)))
            i += 1
            continue
        d = es[i + 1]
        i += 2
        if d == '%':
            out.append('%')
        elif d == 'Y':
            out.append(sstr(t[0]))
        elif d in DIRECTIVES:
            out.append(pad_text(t[DIRECTIVES[d]], 2))
        elif d in 'Aa':
            w = t[6].concretise() if is_sym(t[6]) else t[6]
            out.append(time.strftime('%' + d, (2001, 1, 1 + w, 0, 0, 0, w, 1, 0)))
        elif d in 'Bb':
            w = t[1].concretise() if is_sym(t[1]) else t[1]
            out.append(time.strftime('%' + d, (2001, w, 1, 0, 0, 0, 0, 1, 0)))
        elif d == 'j':
            out.append(pad_text(t[7], 3))
        elif d == 'y':
            out.append(pad_text(t[0] % 100, 2))
        else:
            raise Unsupported('strftime directive %' + d)
    return join('', out)


def inot(b):
    return (not b) if isinstance(b, bool) and type(b) is bool else SymBool(z3.Not(b.z))


def dec_log10(d):
    """log10 of a decimal"""
    if not is_sym(d):
        return d.log10()
    if bool(N.rel(d.p, '<=')):
        raise ValueError('math domain error')
    return Log(Fraction(1), d.p)


SYMT = SYMT | {Opaque, Log, Flt}


def is_sym(x):
    return type(x) in SYMT


def deep_sym(x, d=3):
    if type(x) in SYMT:
        return True
    if d and type(x) in (tuple, list):
        return any(deep_sym(y, d - 1) for y in x)
    return False


class HashVal(int):
    """hash() of a tuple/number: equal exactly when the hashed values are equal. As a machine hash they all collide, so that a
    dictionary decides by == alone."""
    def __new__(cls, key):
        self = int.__new__(cls, 0)
        self.key = key
        return self

    def __eq__(self, o):
        if isinstance(o, HashVal):
            return self.key == o.key
        return NotImplemented

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 0


# ------------------------------------------------------------------------------------------------ text conversion
def sstr(x):
    """str(x)"""
    t = type(x)
    if t is SymStr or t is str:
        return x
    if t is SymInt:
        return T.int_text(x)
    if t is SymDec:
        return dec_str(x)
    if t is SymBool:
        return 'True' if x else 'False'
    if t is Opaque:
        raise Unsupported('text of an opaque float')
    if t in (list, tuple, dict, set):
        return srepr(x)
    f = getattr(t, '__str__', None)
    if type(f) is FT:
        r = f(x)
        if not isinstance(r, str):
            raise TypeError('__str__ returned non-string (type %s)' % type(r).__name__)
        return r
    if f is object.__str__:
        return srepr(x)
    if isinstance(x, BaseException):
        if len(x.args) == 1:
            return sstr(x.args[0])
        if deep_sym(x.args):
            return srepr(x.args)
    return str(x)


def dec_str(x):
    if x.exp is not None and -6 < x.exp <= 0:
        # adjusted exponent is never below -6 unless the value is tiny
        v = T.dec_text_f(x)
        return v
    if N.p_integral(x.p):
        return T.dec_text_f(x)
    raise Unsupported('str() of a decimal with unknown exponent')


def srepr(x):
    t = type(x)
    if t is SymStr:
        return str_repr(x)
    if t is SymInt:
        return T.int_text(x)
    if t is SymBool:
        return 'True' if x else 'False'
    if t is SymDec:
        return join('', ["Decimal('", dec_str(x), "')"])
    if t in (list, tuple, set, dict):
        if t is dict:
            parts = [join(': ', [srepr(k), srepr(v)]) for k, v in x.items()]
            o, c = '{', '}'
        else:
            parts = [srepr(e) for e in x]
            o, c = {'list': '[]', 'tuple': '()', 'set': '{}'}[t.__name__]
            if t is tuple and len(parts) == 1:
                return join('', ['(', parts[0], ',)'])
            if t is set and not parts:
                return 'set()'
        return join('', [o, join(', ', parts), c])
    f = getattr(t, '__repr__', None)
    if type(f) is FT:
        return f(x)
    if f is object.__repr__:
        return '<%s object>' % t.__name__
    if isinstance(x, BaseException) and deep_sym(x.args):
        return join('', [t.__name__, srepr(x.args)])
    return repr(x)


def str_repr(s):
    for ch in s.e:
        if type(ch) is SymChar:
            if not ch.test('plainrepr', lambda c: c.isprintable() and c not in "'\"\\"):
                return repr(s.concretise())
    return mk(("'",) + s.e + ("'",))


def sformat(x, spec=''):
    t = type(x)
    if t is SymStr or t is str:
        if spec == '':
            return x
        if t is str:
            return format(x, spec)
        m = re.fullmatch(r'(.?)([<>])(\d+)s?', spec)
        if m:
            fill = (m.group(1) or ' ') * max(0, int(m.group(3)) - len(x))
            return join('', [fill, x] if m.group(2) == '>' else [x, fill])
        return format(x.concretise(), spec)
    if t is SymDec:
        if spec == '':
            return sstr(x)
        if spec == 'f':
            return T.dec_text_f(x)
        m = re.fullmatch(r'\.(\d+)f', spec)
        if m:
            return T.dec_text_f(x, int(m.group(1)))
        m = re.fullmatch(r'\.(\d+)([eE])', spec)
        if m:
            return T.dec_text_e(x, int(m.group(1)), m.group(2))
        raise Unsupported('decimal format ' + spec)
    if t is SymInt:
        if spec in ('', 'd'):
            return T.int_text(x)
        if re.fullmatch(r'0\d+d?', spec):
            return pad_text(x, int(spec.rstrip('d')))
        if spec == 'f':
            return join('', [T.int_text(x), '.000000'])
        return format(x.concretise(), spec)
    if t is SymBool:
        return sformat(bool(x), spec)
    f = getattr(t, '__format__', None)
    if type(f) is FT:
        r = f(x, spec)
        return r
    if spec == '':
        return sstr(x)
    if type(spec) is SymStr:
        spec = spec.concretise()
    return format(x, spec)


_formatter = __import__('string').Formatter()


def str_format(s, args, kw):
    if type(s) is SymStr:
        raise Unsupported('symbolic format template')
    out = []
    auto = 0
    for lit, field, spec, conv in _formatter.parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        m = re.match(r'^(\d*|\w+)(.*)$', field)
        name, rest = m.group(1), m.group(2)
        if name == '':
            v = args[auto]; auto += 1
        elif name.isdigit():
            v = args[int(name)]
        else:
            v = kw[name]
        for g in re.finditer(r'\.(\w+)|\[([^\]]+)\]', rest):
            v = getattr(v, g.group(1)) if g.group(1) else v[int(g.group(2)) if g.group(2).isdigit() else g.group(2)]
        if conv == 'r':
            v = srepr(v)
        elif conv == 's':
            v = sstr(v)
        if spec and '{' in spec:
            spec = str_format(spec, args[auto:], kw)
        out.append(sformat(v, spec or ''))
    return join('', out)


def join(sep, it):
    it = list(it)
    if all(type(x) is str for x in it) and type(sep) is str:
        return sep.join(it)
    return T.join(sep, it)


def fval(v, conv, spec):
    if conv == 114:
        v = srepr(v)
    elif conv == 115:
        v = sstr(v)
    elif conv == 97:
        v = ascii(v)
    return sformat(v, spec)


def fstr(*parts):
    return join('', parts)


def mod(a, b):
    if type(a) is str and (deep_sym(b) or type(b) is dict):
        items = b if type(b) is tuple else (b,)
        out, i, k = [], 0, 0
        for m in re.finditer(r'%(0\d+)?([sdr%])', a):
            out.append(a[i:m.start()])
            i = m.end()
            c = m.group(2)
            if c == '%':
                out.append('%')
                continue
            v = items[k]; k += 1
            v = srepr(v) if c == 'r' else sstr(v)
            if m.group(1):
                v = pad_text(v, int(m.group(1)))
            out.append(v)
        if re.search(r'%', re.sub(r'%(0\d+)?[sdr%]', '', a)):
            raise Unsupported('printf template')
        out.append(a[i:])
        return join('', out)
    if type(a) is SymStr:
        raise Unsupported('symbolic printf template')
    return a % b


# ------------------------------------------------------------------------------------------------ containers
def _key_candidates(c, k):
    """The key of c equal to k on this path, or None (forks over candidates)."""
    n = len(k)
    for key in c:
        if isinstance(key, str) and len(key) == n and k == key:
            return key
    return None


_MISSING = object()


def find_key(c, k):
    if type(k) is SymStr:
        return _key_candidates(c, k) or _MISSING if len(k) else _MISSING
    if type(k) is SymBool:
        k = bool(k)
        return k if k in c else _MISSING
    if type(k) in (SymInt, SymDec):
        for key in c:
            if isinstance(key, (int, Decimal)) and k == key:
                return key
        return _MISSING
    if type(k) is tuple:
        for key in c:
            if type(key) is tuple and len(key) == len(k) and key == k:
                return key
        return _MISSING
    raise Unsupported('key of type ' + type(k).__name__)


def _has_symkey(c):
    return any(type(x) is SymStr for x in c)


def contains(a, c):
    ta, tc = type(a), type(c)
    if tc is SymStr:
        return c.__contains__(a)
    if ta in SYMT or (ta is tuple and deep_sym(a)):
        if tc is str:
            if ta is not SymStr:
                raise TypeError("'in <string>' requires string as left operand, not " + a.__class__.__name__)
            if len(a) > len(c):
                return False
            if len(a) == 1 and type(a.e[0]) is SymChar:
                return a.e[0].test(('in', c), lambda x: x in c)
            return SymStr(c).__contains__(a)
        if isinstance(c, (dict, set, frozenset)) or tc in (type({}.keys()), ):
            return find_key(c, a) is not _MISSING
        if tc in (list, tuple):
            for x in c:
                if x is a or x == a:
                    return True
            return False
    return a in c


def getitem(o, k):
    tk = type(k)
    if tk is slice:
        if type(o) is str and (is_sym(k.start) or is_sym(k.stop) or is_sym(k.step)):
            return SymStr(o)[k]
        return o[k]
    if tk in SYMT or (tk is tuple and type(o) is dict and deep_sym(k)):
        if isinstance(o, dict):
            r = find_key(o, k)
            if r is _MISSING:
                if hasattr(type(o), '__missing__'):
                    return o[k]
                raise KeyError('symbolic key')
            return o[r]
        if tk is SymInt and type(o) is str and len(o) > 1:
            if k < 0:
                return o[k.concretise()]
            if k >= len(o):
                raise IndexError('string index out of range')
            return T.pick(o, k)
        if tk is SymInt and type(o) in (list, tuple, str):
            return o[k.concretise()]
        if tk is SymBool:
            return o[bool(k)]
        if tk is SymDec:
            raise TypeError('indices must be integers')
    return o[k]


# ------------------------------------------------------------------------------------------------ builtin models
def _dunder(x, name):
    f = getattr(type(x), name, None)
    return f if type(f) is FT else None


def m_int(x=0, base=None):
    if base is not None:
        if type(x) is SymStr:
            if base == 10:
                return T.parse_int(x)
            return int(x.concretise(), base if not is_sym(base) else base.concretise())
        return int(x, base if not is_sym(base) else base.concretise())
    t = type(x)
    if t is SymInt:
        return x
    if t is SymDec:
        return x.__trunc__()
    if t is SymBool:
        return int(bool(x))
    if t is SymStr:
        return T.parse_int(x)
    if t is Opaque:
        raise Unsupported('int of an opaque float')
    for n in ('__int__', '__trunc__'):
        f = _dunder(x, n)
        if f:
            r = f(x)
            if not isinstance(r, int):
                raise TypeError('__int__ returned non-int (type %s)' % r.__class__.__name__)
            return r if n == '__int__' else m_int(r)
    return int(x)


def m_float(x=0.0):
    t = type(x)
    if t in (SymInt, SymDec):
        if core.C.float_opaque:
            return Opaque()
        return Flt(x)
    if t in (Opaque, Log, Flt):
        return x
    if t is SymStr:
        return float(x.concretise())
    f = _dunder(x, '__float__')
    if f:
        return f(x)
    return float(x)


def m_str(x='', *a, **k):
    if a or k:
        return str(x, *a, **k)
    return sstr(x)


def m_decimal(x='0', context=None):
    t = type(x)
    if t is SymInt:
        return N.wrap_dec(x.p)
    if t is SymDec:
        return x
    if t is SymBool:
        return Decimal(int(bool(x)))
    if t is SymStr:
        return T.parse_dec(x)
    if t is Opaque:
        raise Unsupported('decimal of an opaque float')
    return Decimal(x)


def m_bool(x=False):
    return bool(x)


def m_type(x, *a):
    if a:
        return type(x, *a)
    return x.__class__ if type(x) in SYMT else type(x)


def m_hash(x):
    t = type(x)
    if t in SYMT or (t is tuple and (deep_sym(x) or (x and all(type(y) in (int, Decimal) for y in x)))):
        return HashVal(x)
    f = _dunder(x, '__hash__')
    if f:
        return f(x)
    return hash(x)


def m_len(x):
    return len(x)


def m_ord(x):
    if type(x) is SymStr:
        return ord(x.concretise())
    return ord(x)


def m_chr(x):
    return chr(x.concretise() if is_sym(x) else x)


def m_isinstance(x, t):
    return isinstance(x, t)


def m_factorial(x):
    t = type(x)
    if t is SymInt:
        if x < 0:
            raise ValueError('factorial() not defined for negative values')
        return math.factorial(x.concretise())
    if t is SymDec:
        raise TypeError("'decimal.Decimal' object cannot be interpreted as an integer")
    return math.factorial(x)


def m_log(fn):
    def f(x, *a):
        if type(x) is Opaque or any(type(y) is Opaque for y in a):
            return Opaque()
        if type(x) is Flt and fn is math.log10:
            return dec_log10(x.d)
        if type(x) is SymInt and all(not is_sym(y) for y in a):
            if core.C.float_opaque:
                return Opaque()
            return fn(x.concretise(), *a)
        if is_sym(x):
            return f(m_float(x), *a)
        return fn(x, *a)
    return f


def m_mean(data):
    data = list(data)
    if not deep_sym(data):
        return statistics.mean(data)
    if not data:
        raise statistics.StatisticsError('mean requires at least one data point')
    t = data[0]
    for d in data[1:]:
        t = t + d
    if not is_sym(t):
        return t / len(data)
    return m_decimal(t) / len(data) if type(t) is SymInt else t / len(data)


def m_median(data):
    data = sorted(data)
    n = len(data)
    if n == 0:
        raise statistics.StatisticsError('no median for empty data')
    if n % 2 == 1:
        return data[n // 2]
    return (data[n // 2 - 1] + data[n // 2]) / 2


def m_median_low(data):
    data = sorted(data)
    n = len(data)
    return data[n // 2] if n % 2 == 1 else data[n // 2 - 1]


def m_median_high(data):
    data = sorted(data)
    return data[len(data) // 2]


def m_mode(data):
    data = list(data)
    if not deep_sym(data):
        return statistics.mode(data)
    groups = []
    for d in data:
        for g in groups:
            if g[0] == d:
                g[1] += 1
                break
        else:
            groups.append([d, 1])
    if not groups:
        raise statistics.StatisticsError('no mode for empty data')
    best = groups[0]
    for g in groups[1:]:
        if g[1] > best[1]:
            best = g
    return best[0]


def unsupported_fn(name):
    def f(*a, **k):
        raise Unsupported(name + ' of symbolic values')
    return f


def m_pow(a, b, m=None):
    if m is not None:
        return pow(a, b, m)
    return pow(a, b)


def m_abs(x):
    return abs(x)


def m_divmod(a, b):
    return divmod(a, b)


def m_sorted(it, key=None, reverse=False):
    return sorted(it, key=wrapkey(key), reverse=reverse)


def wrapkey(k):
    """A C function used as a key goes through the call hook."""
    if k is None or type(k) in (FT, MT):
        return k
    return lambda x: call(k, x)


def m_minmax(fn):
    def f(*a, **k):
        if 'key' in k:
            k = dict(k, key=wrapkey(k['key']))
        return fn(*a, **k)
    return f


def m_map(f, *its):
    return map(wrapkey(f) or f, *its)


def m_filter(f, it):
    return filter(wrapkey(f), it)


def m_round(x, n=None):
    if is_sym(n):
        n = n.concretise() if type(n) is SymInt else n
    if n is None:
        return round(x)
    if type(n) not in (int, bool) and not is_sym(n):
        f = _dunder(x, '__round__')
        if f:
            return f(x, n)
    return round(x, n)


def m_set(it=()):
    it = list(it)
    if deep_sym(it):
        out = []
        for x in it:
            if not any(x is y or x == y for y in out):
                out.append(x)
        conc = []
        for x in out:
            conc.append(x.concretise() if type(x) in (SymStr, SymInt) else x)
        return set(conc)
    return set(it)


def m_print(*a, **k):
    return None


def m_getattr(o, n, *d):
    if type(n) is SymStr:
        n = n.concretise()
    return getattr(o, n, *d)


def m_hasattr(o, n):
    if type(n) is SymStr:
        n = n.concretise()
    return hasattr(o, n)


def m_setattr(o, n, v):
    setattr(o, n.concretise() if type(n) is SymStr else n, v)


def m_complex(*a):
    raise Unsupported('complex of symbolic values')


def m_fraction(*a, **k):
    raise Unsupported('Fraction of symbolic values')


MODELS = {
    int: m_int, float: m_float, str: m_str, Decimal: m_decimal, bool: m_bool, type: m_type, hash: m_hash, ord: m_ord, chr: m_chr,
    repr: srepr, format: sformat, math.factorial: m_factorial, math.gcd: N.gcd_model, math.lcm: N.lcm_model,
    math.log: m_log(math.log), math.log10: m_log(math.log10), math.log2: m_log(math.log2), math.log1p: m_log(math.log1p),
    statistics.mean: m_mean, statistics.median: m_median, statistics.mode: m_mode, statistics.median_low: m_median_low,
    statistics.median_high: m_median_high, statistics.fmean: unsupported_fn('fmean'), statistics.stdev: unsupported_fn('stdev'),
    statistics.multimode: unsupported_fn('multimode'), statistics.pstdev: unsupported_fn('pstdev'),
    statistics.variance: unsupported_fn('variance'),
    sorted: m_sorted, min: m_minmax(min), max: m_minmax(max), map: m_map, filter: m_filter, round: m_round, set: m_set,
    frozenset: lambda it=(): frozenset(m_set(it)), print: m_print, getattr: m_getattr, hasattr: m_hasattr, setattr: m_setattr,
    complex: m_complex, Fraction: m_fraction, pow: m_pow,
    str.join: join, math.modf: m_modf, operator.index: m_index, time.strftime: m_strftime, time.struct_time: m_struct_time,
}
# models needed for objects with Python-level conversion methods, even if no argument is itself symbolic
OBJ = {int, float, str, hash, repr, format, print, sorted, min, max, map, filter, round, set, frozenset, str.join, statistics.mean,
       statistics.median, statistics.mode, statistics.fmean, statistics.stdev, statistics.multimode}
PLAIN = frozenset((int, str, float, bool, type(None), Decimal, bytes))

RE_FUNCS = {re.match: 'match', re.search: 'search', re.fullmatch: 'fullmatch', re.findall: 'findall', re.finditer: 'finditer',
            re.split: 'split', re.sub: 'sub', re.subn: 'subn'}


def call(f, *a, **k):
    tf = type(f)
    if tf is FT:
        if f in RE_FUNCS and any(type(x) is SymStr for x in a):
            return re_func(f, a, k)
        if f.__module__ == 'statistics' and f in MODELS and any(deep_sym(x) for x in a):
            return guard(MODELS[f], a, k)
        return f(*a, **k)
    if core.C is None:
        return f(*a, **k)
    if tf is MT:
        return f(*a, **k)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        for x in a:
            if type(x) not in PLAIN:
                return guard(m, a, k)
        for x in k.values():
            if type(x) not in PLAIN:
                return guard(m, a, k)
        return f(*a, **k)
    if tf is BT and f.__self__ is not None and type(f.__self__) is not MODT:
        # bound method of a built-in object
        s = f.__self__
        if deep_sym(a) or type(s) in SYMT:
            return mcall(s, f.__name__, *a, **k)
    if tf is type and f.__module__.startswith('modularcalculator'):
        return f(*a, **k)
    return guard(f, a, k)


def guard(f, a, k):
    try:
        return f(*a, **k)
    except (TypeError, AttributeError, ValueError) as e:
        s = e.args[0] if e.args else ''
        if type(s) is str and 'Sym' in s and ('SymStr' in s or 'SymInt' in s or 'SymDec' in s or 'SymBool' in s):
            raise Unsupported('built-in %s: %s' % (getattr(f, '__name__', f), s))
        raise


def re_func(f, a, k):
    pat = a[0]
    if type(pat) is SymStr:
        pat = pat.concretise()
    flags = k.pop('flags', 0)
    p = re.compile(pat, flags) if not isinstance(pat, PATT) else pat
    rest = a[1:]
    return mcall(p, RE_FUNCS[f], *rest, **k)


def any_sym(a, k):
    for x in a:
        if type(x) in SYMT or (type(x) in (list, tuple) and deep_sym(x)):
            return True
    for x in k.values():
        if type(x) in SYMT:
            return True
    return False


def mcall(o, name, *a, **k):
    to = type(o)
    if core.C is None:
        return getattr(o, name)(*a, **k)
    if to in SYMT:
        if to is SymStr:
            if name == 'format':
                return str_format(o, a, k)
            if name == 'join':
                return join(o, *a)
        elif name == '__format__':
            return sformat(o, *a)
        return guard(getattr(o, name), a, k)
    if to is str:
        if name == 'format':
            for x in a:
                if type(x) not in PLAIN:
                    return str_format(o, a, k)
            if k:
                return str_format(o, a, k)
            return o.format(*a)
        if name == 'join':
            return join(o, *a)
        if a and any_sym(a, k):
            if name in ('find', 'index') and len(a) == 1 and type(a[0]) is SymStr and len(a[0]) == 1 and len(set(o)) == len(o):
                if contains(a[0], o):
                    return T.char_index(a[0].e[0], o) if type(a[0]) is SymStr else o.index(a[0])
                if name == 'find':
                    return -1
                raise ValueError('substring not found')
            if name in ('ljust', 'rjust', 'center', 'zfill', 'expandtabs'):
                a = tuple(x.concretise() if type(x) is SymInt else x for x in a)
                if not any_sym(a, k):
                    return getattr(o, name)(*a, **k)
            return guard(getattr(SymStr(o), name), a, k)
        return getattr(o, name)(*a, **k)
    if to is MODT:
        return call(getattr(o, name), *a, **k)
    if to is PATT:
        if any(type(x) is SymStr for x in a):
            return R.method(o, name, a, k)
        return getattr(o, name)(*a, **k)
    if to is dict:
        if name in ('get', 'pop', 'setdefault') and a and type(a[0]) is SymStr:
            key = find_key(o, a[0])
            if key is not _MISSING:
                return getattr(o, name)(key, *a[1:])
            if name == 'get' or (name == 'pop' and len(a) > 1):
                return a[1] if len(a) > 1 else None
            if name == 'pop':
                raise KeyError('symbolic key')
        return getattr(o, name)(*a, **k)
    if to is Decimal and a and any_sym(a, k):
        s = SymDec(N.poly_of(o), None, None)
        return guard(getattr(s, name), a, k)
    if to is type:
        f = getattr(o, name)
        if o is str and a and type(f) is not FT:
            if name == 'join':
                return join(*a)
            if name == 'maketrans':
                return f(*a)
            return mcall(a[0], name, *a[1:], **k)
        return call(f, *a, **k)
    if to is list:
        if name == 'sort':
            if 'key' in k:
                k = dict(k, key=wrapkey(k['key']))
        return guard(getattr(o, name), a, k)
    f = getattr(o, name)
    if type(f) is MT or type(f) is FT:
        return f(*a, **k)
    return call(f, *a, **k)
