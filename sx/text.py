"""Symbolic text: a concrete number of characters, each a variable over a finite alphabet."""
import re
import z3
from . import core
from .core import Unsupported
from . import num as N


class CharVar:
    __slots__ = ('id', 'alphabet', 'z', 'index')
    _n = 0

    def __init__(self, name, alphabet):
        self.alphabet = alphabet
        self.z = z3.Int(name)
        self.index = {c: i for i, c in enumerate(alphabet)}

    def full(self):
        return (1 << len(self.alphabet)) - 1

    def among(self, mask):
        """z3 formula: the character is within mask (codes grouped in ranges)."""
        codes = sorted(ord(c) for i, c in enumerate(self.alphabet) if mask >> i & 1)
        if not codes:
            return z3.BoolVal(False)
        rs = []
        s = e = codes[0]
        for x in codes[1:]:
            if x == e + 1:
                e = x
            else:
                rs.append((s, e)); s = e = x
        rs.append((s, e))
        fs = [self.z == a if a == b else z3.And(self.z >= a, self.z <= b) for a, b in rs]
        return fs[0] if len(fs) == 1 else z3.Or(fs)


_mask_cache = {}


class SymChar:
    """A character variable, possibly seen through a per-character mapping (e.g. lower())."""
    __slots__ = ('var', 'table')

    def __init__(self, var, table=None):
        self.var, self.table = var, table

    def image(self, i):
        return self.var.alphabet[i] if self.table is None else self.table[i]

    def mask(self, key, pred):
        k = (key, self.var.alphabet, self.table)
        m = _mask_cache.get(k)
        if m is None:
            m = 0
            for i in range(len(self.var.alphabet)):
                if pred(self.image(i)):
                    m |= 1 << i
            _mask_cache[k] = m
        return m

    def test(self, key, pred):
        return core.C.decide_mask(self.var, self.mask(key, pred))

    def possible(self, key, pred):
        return bool(core.C.dom[self.var] & self.mask(key, pred))

    def const(self):
        """The concrete character if determined, else None."""
        d = core.C.dom[self.var]
        if d & (d - 1) == 0:
            return self.image(d.bit_length() - 1)
        if self.table is not None:
            vals = {self.table[i] for i in range(len(self.table)) if d >> i & 1}
            if len(vals) == 1:
                return vals.pop()
        return None

    def is_char(self, c):
        return self.test(('=', c), lambda x: x == c)

    def term(self):
        """z3 Int term of the code point."""
        core.C.promote(self.var)
        if self.table is None:
            return self.var.z
        t = None
        d = core.C.dom[self.var]
        groups = {}
        for i, c in enumerate(self.var.alphabet):
            if d >> i & 1:
                groups.setdefault(ord(self.table[i]) - ord(c), []).append(ord(c))
        for delta, codes in groups.items():
            cond = z3.Or([self.var.z == k for k in codes])
            t = self.var.z + delta if t is None else z3.If(cond, self.var.z + delta, t)
        return t

    def mapped(self, f):
        t = tuple(f(self.image(i)) for i in range(len(self.var.alphabet)))
        if any(len(x) != 1 for x in t):
            raise Unsupported('character mapping changes length')
        return SymChar(self.var, t)

    def concretise(self):
        return self.image(core.C.concretise_char(self.var))


def char_eq(a, b):
    """a == b for elements (1-char str or SymChar), decided on this path."""
    sa, sb = type(a) is SymChar, type(b) is SymChar
    if not sa and not sb:
        return a == b
    if sa and not sb:
        return a.is_char(b)
    if sb and not sa:
        return b.is_char(a)
    if a.var is b.var and a.table == b.table:
        return True
    ca, cb = a.const(), b.const()
    if ca is not None:
        return b.is_char(ca)
    if cb is not None:
        return a.is_char(cb)
    return core.C.branch(a.term() == b.term())


def char_lt(a, b):
    sa, sb = type(a) is SymChar, type(b) is SymChar
    if not sa and not sb:
        return a < b
    if sa and not sb:
        return a.test(('<', b), lambda x: x < b)
    if sb and not sa:
        return b.test(('>', a), lambda x: x > a)
    return core.C.branch(a.term() < b.term())


def elements(s):
    return s.e if type(s) is SymStr else s


def mk(es):
    """Build a string value, collapsing to str when every character is determined."""
    out = []
    sym = False
    for x in es:
        if type(x) is SymChar:
            c = x.const()
            if c is None:
                sym = True
                out.append(x)
            else:
                out.append(c)
        else:
            out.append(x)
    if not sym:
        return ''.join(out)
    r = SymStr.__new__(SymStr)
    r.e = tuple(out)
    return r


def need_str(o):
    if not isinstance(o, str):
        raise TypeError('must be str, not ' + type(o).__name__)
    return o


_WS = ' \t\n\r\x0b\x0c'


class SymStr:
    __slots__ = ('e',)

    __class__ = property(lambda self: str)

    def __init__(self, es):
        self.e = tuple(es)

    def __repr__(self):
        return 'SymStr(%s)' % ''.join(x if type(x) is str else '?' for x in self.e)

    def __str__(self):
        raise Unsupported('native str() of symbolic text')

    def __format__(self, spec):
        raise Unsupported('native format() of symbolic text')

    def __len__(self):
        return len(self.e)

    def __bool__(self):
        return len(self.e) > 0

    def __iter__(self):
        for x in self.e:
            yield mk((x,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            s = slice(*(x.concretise() if isinstance(x, N.Sym) else x for x in (i.start, i.stop, i.step)))
            return mk(self.e[s])
        if isinstance(i, N.Sym):
            i = i.concretise()
        return mk((self.e[i],))

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk(self.e + tuple(elements(o)))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk(tuple(elements(o)) + self.e)

    def __mul__(self, n):
        if isinstance(n, N.Sym):
            n = n.concretise()
        if not isinstance(n, int):
            return NotImplemented
        return mk(self.e * n)

    __rmul__ = __mul__

    def __mod__(self, o):
        raise Unsupported('symbolic format string')

    def _known_ne(self, o):
        if len(o) != len(self.e):
            return True
        for a, b in zip(self.e, elements(o)):
            sa, sb = type(a) is SymChar, type(b) is SymChar
            if sa and not sb:
                if not a.possible(('=', b), lambda x: x == b):
                    return True
            elif sb and not sa:
                if not b.possible(('=', a), lambda x: x == a):
                    return True
            elif not sa and a != b:
                return True
        return False

    def __eq__(self, o):
        if not isinstance(o, str):
            return False if o is None or isinstance(o, (int, float, list, tuple, dict)) else NotImplemented
        if self._known_ne(o):
            return False
        return all(char_eq(a, b) for a, b in zip(self.e, elements(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def _lt(self, o, or_eq):
        oe = elements(o)
        for a, b in zip(self.e, oe):
            if not char_eq(a, b):
                return char_lt(a, b)
        return len(self.e) <= len(oe) if or_eq else len(self.e) < len(oe)

    def __lt__(self, o):
        return self._lt(o, False) if isinstance(o, str) else NotImplemented

    def __le__(self, o):
        return self._lt(o, True) if isinstance(o, str) else NotImplemented

    def __gt__(self, o):
        return (not self._lt(o, True)) if isinstance(o, str) else NotImplemented

    def __ge__(self, o):
        return (not self._lt(o, False)) if isinstance(o, str) else NotImplemented

    def concretise(self):
        return ''.join(x.concretise() if type(x) is SymChar else x for x in self.e)

    def __hash__(self):
        return hash(self.concretise())

    def __contains__(self, o):
        need_str(o)
        return self._find(o, 0, len(self.e)) >= 0

    def _match_at(self, o, i):
        oe = elements(o)
        if i + len(oe) > len(self.e) or i < 0:
            return False
        if mk(self.e[i:i + len(oe)]) == o:
            return True
        return False

    def _span(self, start, end):
        n = len(self.e)
        s = slice(start, end).indices(n)
        return s[0], s[1]

    def _find(self, o, start, end):
        k = len(o)
        for i in range(start, end - k + 1):
            if self._match_at(o, i):
                return i
        return -1

    def find(self, o, start=None, end=None):
        need_str(o)
        if start is not None and start > len(self.e):
            return -1
        s, e = self._span(start, end)
        return self._find(o, s, e)

    def rfind(self, o, start=None, end=None):
        need_str(o)
        s, e = self._span(start, end)
        for i in range(e - len(o), s - 1, -1):
            if self._match_at(o, i):
                return i
        return -1

    def index(self, o, start=None, end=None):
        r = self.find(o, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, o, start=None, end=None):
        r = self.rfind(o, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, o, start=None, end=None):
        need_str(o)
        s, e = self._span(start, end)
        if len(o) == 0:
            return e - s + 1
        n = 0
        while s <= e - len(o):
            if self._match_at(o, s):
                n += 1
                s += len(o)
            else:
                s += 1
        return n

    def startswith(self, o, start=None, end=None):
        if isinstance(o, tuple):
            return any(self.startswith(x, start, end) for x in o)
        need_str(o)
        s, e = self._span(start, end)
        return e - s >= len(o) and self._match_at(o, s)

    def endswith(self, o, start=None, end=None):
        if isinstance(o, tuple):
            return any(self.endswith(x, start, end) for x in o)
        need_str(o)
        s, e = self._span(start, end)
        return e - s >= len(o) and self._match_at(o, e - len(o))

    def removeprefix(self, o):
        return self[len(o):] if self.startswith(o) else self

    def removesuffix(self, o):
        return self[:len(self.e) - len(o)] if len(o) and self.endswith(o) else self

    def _map(self, f):
        return mk([x.mapped(f) if type(x) is SymChar else f(x) for x in self.e])

    def lower(self): return self._map(str.lower)
    def upper(self): return self._map(str.upper)
    def casefold(self): return self._map(str.casefold)
    def swapcase(self): return self._map(str.swapcase)

    def capitalize(self):
        return mk([(x.mapped(f) if type(x) is SymChar else f(x)) for x, f in zip(self.e, [str.upper] + [str.lower] * len(self.e))])

    def _in(self, x, chars):
        if type(x) is SymChar:
            if type(chars) is SymStr:
                return any(char_eq(x, c) for c in chars.e)
            return x.test(('in', chars), lambda c: c in chars)
        if type(chars) is SymStr:
            return any(char_eq(x, c) for c in chars.e)
        return x in chars

    def lstrip(self, chars=None):
        chars = _WS if chars is None else need_str(chars)
        i = 0
        while i < len(self.e) and self._in(self.e[i], chars):
            i += 1
        return mk(self.e[i:])

    def rstrip(self, chars=None):
        chars = _WS if chars is None else need_str(chars)
        i = len(self.e)
        while i > 0 and self._in(self.e[i - 1], chars):
            i -= 1
        return mk(self.e[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars) if type(r) is SymStr else (r.rstrip(chars) if type(chars) is not SymStr else SymStr(r).rstrip(chars))

    def replace(self, old, new, count=-1):
        need_str(old); need_str(new)
        out = []
        i = n = 0
        k = len(old)
        if k == 0:
            ne = list(elements(new))
            for x in self.e:
                if count < 0 or n < count:
                    out += ne
                    n += 1
                out.append(x)
            if count < 0 or n < count:
                out += ne
            return mk(out)
        while i < len(self.e):
            if (count < 0 or n < count) and self._match_at(old, i):
                out += list(elements(new))
                i += k
                n += 1
            else:
                out.append(self.e[i])
                i += 1
        return mk(out)

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            cur = []
            word = False
            for x in self.e:
                ws = x.test('ws', lambda c: c.isspace()) if type(x) is SymChar else x.isspace()
                if ws:
                    if word:
                        out.append(mk(cur)); cur = []; word = False
                else:
                    cur.append(x); word = True
            if word:
                out.append(mk(cur))
            if maxsplit >= 0:
                raise Unsupported('split with maxsplit')
            return out
        need_str(sep)
        if len(sep) == 0:
            raise ValueError('empty separator')
        i = start = n = 0
        while i <= len(self.e) - len(sep):
            if (maxsplit < 0 or n < maxsplit) and self._match_at(sep, i):
                out.append(mk(self.e[start:i]))
                i += len(sep)
                start = i
                n += 1
            else:
                i += 1
        out.append(mk(self.e[start:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', self)
        return (self[:i], sep, self[i + len(sep):])

    def splitlines(self, keepends=False):
        raise Unsupported('splitlines')

    def join(self, it):
        return join(self, it)

    def zfill(self, w):
        if isinstance(w, N.Sym):
            w = w.concretise()
        pad = w - len(self.e)
        if pad <= 0:
            return self
        sign = self.e and (self.e[0].test('sign', lambda c: c in '+-') if type(self.e[0]) is SymChar else self.e[0] in '+-')
        if sign:
            return mk(self.e[:1] + ('0',) * pad + self.e[1:])
        return mk(('0',) * pad + self.e)

    def ljust(self, w, fill=' '):
        return mk(self.e + (fill,) * max(0, w - len(self.e)))

    def rjust(self, w, fill=' '):
        return mk((fill,) * max(0, w - len(self.e)) + self.e)

    def _all(self, name):
        f = getattr(str, name)
        return len(self.e) > 0 and all(x.test(name, f) if type(x) is SymChar else f(x) for x in self.e)

    def isdigit(self): return self._all('isdigit')
    def isdecimal(self): return self._all('isdecimal')
    def isnumeric(self): return self._all('isnumeric')
    def isalpha(self): return self._all('isalpha')
    def isalnum(self): return self._all('isalnum')
    def isspace(self): return self._all('isspace')
    def isascii(self): return len(self.e) == 0 or self._all('isascii')
    def isprintable(self): return len(self.e) == 0 or self._all('isprintable')
    def isupper(self): return self.concretise().isupper()
    def islower(self): return self.concretise().islower()
    def isidentifier(self): return self.concretise().isidentifier()

    def translate(self, table):
        return mk(sum([list(x.translate(table)) if type(x) is str else [x.mapped(lambda c: c.translate(table))] for x in self.e], []))

    def encode(self, *a):
        return self.concretise().encode(*a)

    def format(self, *a, **k):
        return self.concretise().format(*a, **k)

    def __getattr__(self, n):
        raise Unsupported('str.' + n)


def join(sep, it):
    out = []
    first = True
    for x in it:
        if not isinstance(x, str):
            raise TypeError('sequence item: expected str instance, %s found' % type(x).__name__)
        if not first:
            out += list(elements(sep))
        first = False
        out += list(elements(x))
    return mk(out)


# ---------------------------------------------------------------------- text -> number and number -> text
def digits_value(es):
    """Polynomial value of a run of digit elements (each known to be 0-9 on this path)."""
    p = {}
    k = 1
    for x in reversed(es):
        if type(x) is SymChar:
            c = x.const()
            if c is not None:
                p = N.p_add(p, N.p_const(int(c) * k))
            else:
                p = N.p_add(p, N.p_scale(digit_poly(x), N.Fraction(k)))
        else:
            p = N.p_add(p, N.p_const(int(x) * k))
        k *= 10
    return p


def digit_poly(x):
    c = core.C
    key = ('digit', x.var.z.get_id() if x.table is None else (x.var.z.get_id(), x.table))
    if key not in c.memo:
        t = x.term()
        a = N.new_atom('dg', 0, 9, constrain=True)
        c.add(a.z == t - 48)
        c.memo[key] = a
    return N.p_atom(c.memo[key])


def _isdig(x):
    return x.test('d', lambda c: c in '0123456789') if type(x) is SymChar else x in '0123456789'


def parse_int(s):
    """int(s) for symbolic text; falls back to concretisation when it is not plain [-]digits."""
    es = s.e
    sign = 1
    i = 0
    if es and (es[0].test('sign', lambda c: c in '+-') if type(es[0]) is SymChar else es[0] in '+-'):
        if char_eq(es[0], '-'):
            sign = -1
        i = 1
    if i < len(es) and all(_isdig(x) for x in es[i:]):
        return N.wrap_int(N.p_scale(digits_value(es[i:]), N.Fraction(sign)))
    return int(s.concretise())


def parse_dec(s):
    from decimal import Decimal
    es = s.e
    sign = 1
    i = 0
    if es and (es[0].test('sign', lambda c: c in '+-') if type(es[0]) is SymChar else es[0] in '+-'):
        if char_eq(es[0], '-'):
            sign = -1
        i = 1
    body = es[i:]
    whole, frac, dot = [], [], False
    ok = len(body) > 0
    for x in body:
        if _isdig(x):
            (frac if dot else whole).append(x)
        elif not dot and char_eq(x, '.'):
            dot = True
        else:
            ok = False
            break
    if ok and (whole or frac):
        p = digits_value(whole + frac)
        p = N.p_scale(p, N.Fraction(sign, 10 ** len(frac)))
        return N.wrap_dec(p, -len(frac))
    return Decimal(s.concretise())


def digit_chars(p, n, name='dc'):
    """n fresh digit characters spelling the non-negative integer value p (which must be < 10^n on this path)."""
    c = core.C
    cs = []
    terms = []
    for i in range(n):
        c.natoms += 1
        v = CharVar('%s!%d' % (name, c.natoms), '0123456789')
        c.newchar_domain(v, v.full())
        c.promote(v)
        cs.append(SymChar(v))
        terms.append((v.z - 48) * 10 ** (n - 1 - i))
    if n:
        t, den = N.p_z3(p)
        c.add(t == z3.Sum(terms) * den)
    return cs


def nat_text(p, mindigits=1):
    """Decimal digits (elements) of the non-negative integer value p without leading zeros beyond mindigits."""
    if N.p_isconst(p):
        return list(str(int(N.p_constval(p))).zfill(mindigits))
    lo, hi = N.p_interval(p)
    n = mindigits
    while True:
        if hi is not None and hi < 10 ** n:
            break
        if n > 140:
            raise Unsupported('text of an unbounded number')
        if N.rel(N.p_sub(p, N.p_const(10 ** n)), '<'):
            break
        n += 1
    key = ('nat', N.p_key(p), n)
    c = core.C
    if key not in c.memo:
        c.memo[key] = digit_chars(p, n)
    return list(c.memo[key])


def int_text(x):
    if not isinstance(x, N.Sym):
        return str(x)
    if type(x) is not N.SymInt and N.p_integral(x.p) is False:
        raise Unsupported('text of a non-integral value')
    if N.rel(x.p, '<'):
        return mk(['-'] + nat_text(N.p_scale(x.p, N.Fraction(-1))))
    return mk(nat_text(x.p))


def dec_text_f(x, places=None):
    """format(x, 'f') of a decimal with known exponent."""
    if places is not None:
        x = x._quantize(-places, __import__('decimal').getcontext().rounding)
        if not isinstance(x, N.SymDec):
            return format(x, '.%df' % places)
    exp = x.exp
    p = x.p
    if exp is None:
        if not N.p_integral(p):
            raise Unsupported('text of a decimal with unknown exponent')
        exp = 0
    src = x.signsrc if x.signsrc is not None else p
    k = -exp if exp < 0 else 0
    n = N.p_scale(p, N.Fraction(10) ** k)
    neg = False
    if N.rel(src, '<'):
        neg = True
        n = N.p_scale(n, N.Fraction(-1))
    ds = nat_text(n, k + 1)
    es = ds if k == 0 else ds[:len(ds) - k] + ['.'] + ds[len(ds) - k:]
    return mk((['-'] if neg else []) + es)


def _groups(pairs):
    """Maximal runs of (code, index) pairs in which both grow by one."""
    out = []
    for a, b in pairs:
        if out and out[-1][1] + 1 == a and out[-1][2] + (a - out[-1][0]) == b:
            out[-1][1] = a
        else:
            out.append([a, a, b])
    return out


def char_index(x, alphabet):
    """Index of the character within alphabet (which it must belong to on this path), as a symbolic integer."""
    c = core.C
    k = x.const()
    if k is not None:
        return alphabet.index(k)
    d = c.dom[x.var]
    pairs = []
    for i, ch in enumerate(x.var.alphabet):
        if d >> i & 1:
            pairs.append((ord(ch), alphabet.index(x.image(i))))
    key = ('cidx', x.var.z.get_id(), x.table, alphabet)
    if key not in c.memo:
        c.promote(x.var)
        idx = [b for _, b in pairs]
        a = N.new_atom('ci', min(idx), max(idx))
        c.add(z3.Or([z3.And(x.var.z >= lo, x.var.z <= hi, a.z == x.var.z + (first - lo)) for lo, hi, first in _groups(sorted(pairs))]))
        c.memo[key] = a
    return N.SymInt(N.p_atom(c.memo[key]))


def pick(s, i):
    """s[i] for a symbolic integer i known to be a valid non-negative index."""
    c = core.C
    lo, hi = N.p_interval(i.p)
    lo = 0 if lo is None else max(0, int(lo))
    hi = len(s) - 1 if hi is None else min(len(s) - 1, int(hi))
    sub = s[lo:hi + 1]
    key = ('pick', N.p_key(i.p), sub, lo)
    if key not in c.memo:
        c.natoms += 1
        v = CharVar('pk!%d' % c.natoms, ''.join(sorted(set(sub))))
        c.newchar_domain(v, v.full())
        c.promote(v)
        t, den = N.p_z3(i.p)
        c.add(z3.Or([z3.And(t >= a * den, t <= b * den, v.z * den == t + (first - a) * den)
                     for a, b, first in _groups([(lo + k, ord(ch)) for k, ch in enumerate(sub)])]))
        c.memo[key] = v
    return mk((SymChar(c.memo[key]),))


def dec_text_e(x, places, letter='E'):
    """format(x, '.<places>E')"""
    import decimal
    F = N.Fraction
    p = x.p
    if N.rel(p, '=='):
        raise Unsupported('scientific text of zero')
    neg = bool(N.rel(p, '<'))
    if neg:
        p = N.p_scale(p, F(-1))
    lo, hi = N.p_interval(p)
    e = 0
    # find e with 10^e <= p < 10^(e+1)
    if N.rel(N.p_sub(p, N.p_const(F(1))), '>='):
        while not N.rel(N.p_sub(p, N.p_const(F(10) ** (e + 1))), '<'):
            e += 1
            if e > 150:
                raise Unsupported('scientific text of an unbounded number')
    else:
        e = -1
        while not N.rel(N.p_sub(p, N.p_const(F(10) ** e)), '>='):
            e -= 1
            if e < -150:
                raise Unsupported('scientific text of an unboundedly small number')
    f = N.p_round(N.p_scale(p, F(10) ** (places - e)), decimal.getcontext().rounding)
    fp = N.poly_of(f)
    if N.rel(N.p_sub(fp, N.p_const(F(10) ** (places + 1))), '>='):
        e += 1
        ds = list('1' + '0' * places)
    else:
        ds = nat_text(fp, places + 1)
    es = ds[:1] + (['.'] + ds[1:] if places else [])
    return mk((['-'] if neg else []) + es + list('%s%s%d' % (letter, '-' if e < 0 else '+', abs(e))))
