"""Symbolic calendar of the datetime module: years and months are decided by cases, so that what remains symbolic (days, times) is
linear. Every case is a comparison with the day number of a first of a month, computed by the module's own functions."""
from . import num as N
from .core import Unsupported


def patch(m):
    ymd2ord, is_leap, ord2ymd = m._ymd2ord, m._is_leap, m._ord2ymd

    def con(x):
        return x.concretise() if isinstance(x, N.Sym) else x

    def sym_ord2ymd(n):
        if not isinstance(n, N.Sym):
            return ord2ymd(n)
        lo, hi = N.p_interval(n.p)
        if lo is None or hi is None:
            lo, hi = 1, m._MAXORDINAL
        lo, hi = max(1, int(lo)), min(m._MAXORDINAL, int(hi))
        a, b = ord2ymd(lo), ord2ymd(hi)
        a, b = a[0] * 12 + a[1] - 1, b[0] * 12 + b[1] - 1         # first and last month possible
        if b - a > 12 * 60:
            raise Unsupported('dates more than 60 years apart')
        while a < b:
            mid = (a + b + 1) // 2
            if n >= ymd2ord(mid // 12, mid % 12 + 1, 1):
                a = mid
            else:
                b = mid - 1
        return a // 12, a % 12 + 1, n - ymd2ord(a // 12, a % 12 + 1, 1) + 1

    m._ord2ymd = sym_ord2ymd
    m._ymd2ord = lambda y, mo, d: ymd2ord(con(y), con(mo), d)
    m._is_leap = lambda y: is_leap(con(y))
