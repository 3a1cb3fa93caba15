"""N04: floor, ceil and round give the nearest multiple in the stated direction."""
from common import tryev, failed
LIBS = ['objects.number']
CALCS = ['Computing']


def verdict(h, f, qx, r, unit):
    """r is the multiple of 1/unit that f defines for qx."""
    s = h.q(r) * unit
    h.check(s == h.floor(s), 'the result is a multiple')
    t = qx * unit
    if f == 'floor':
        h.check(s <= t, 'floor is not above')
        h.check(t < s + 1, 'floor is the largest such multiple')
    elif f == 'ceil':
        h.check(s >= t, 'ceil is not below')
        h.check(t > s - 1, 'ceil is the smallest such multiple')
    else:
        h.check(2 * t <= 2 * s + 1 and 2 * t >= 2 * s - 1, 'round is a nearest multiple')
        if qx >= 0:
            h.check(2 * t != 2 * s + 1, 'ties go up for positive numbers')
        else:
            h.check(2 * t != 2 * s - 1, 'ties go down for negative numbers')


def h_places(h):
    c = h.calc('Computing')
    N = h.lib('objects.number')
    from fractions import Fraction
    x, qx = h.number('x', -h.p('m'), h.p('m'), h.p('d'))
    f = h.choose('f', ['floor', 'ceil', 'round'])
    p = h.choose('places', [None] + h.p('places'))
    if p is None:
        r = tryev(h, c, f + '(vx)', {'vx': x})
    else:
        r = tryev(h, c, f + '(vx, vp)', {'vx': x, 'vp': N.Number(p)})
    h.check(not failed(r), 'rounding a number to a whole number of places always succeeds')
    verdict(h, f, qx, r, Fraction(10) ** (p or 0))
    h.check(h.q(x) == qx, 'operand unchanged')
    h.observe(r)
    h.cover(f)


def h_cast(h):
    """In the representation of the operand: places of the base, or of the percentage."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    from fractions import Fraction
    x, qx = h.number('x', -h.p('m'), h.p('m'), h.p('d'))
    kind, base = h.choose('kind', [('binary', 2), ('octal', 8), ('hexadecimal', 16), ('percentage', 100), ('scientific', 10), ('decimal', 10)])
    f = h.choose('f', ['floor', 'ceil', 'round'])
    p = h.choose('places', h.p('places'))
    r = tryev(h, c, f + '(vx as ' + kind + ', vp)', {'vx': x, 'vp': N.Number(p)})
    h.check(not failed(r), 'rounding a number to a whole number of places always succeeds')
    unit = Fraction(10) ** (p + 2) if kind == 'percentage' else Fraction(base) ** p
    verdict(h, f, qx, r, unit)
    h.cover(kind)


def h_close(h):
    """Just above or below a multiple."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    from fractions import Fraction
    n, k, e = h.int('n', -h.p('m'), h.p('m')), h.int('k', -9, 9), h.choose('e', h.p('e'))
    f = h.choose('f', ['floor', 'ceil', 'round'])
    p = h.choose('places', h.p('places'))
    half = h.choose('half', [0, 1])
    x = N.Number((2 * n + half) * 10 ** e + 2 * k, 2 * 10 ** e)
    x = x / N.Number(10 ** p) if p > 0 else x * N.Number(10 ** -p)
    qx = (h.q(n) + Fraction(half, 2) + h.q(k) * Fraction(1, 10 ** e)) * Fraction(1, 10) ** p
    r = tryev(h, c, f + '(vx, vp)', {'vx': x, 'vp': N.Number(p)})
    h.check(not failed(r), 'rounding a number to a whole number of places always succeeds')
    verdict(h, f, qx, r, Fraction(10) ** p)
    h.cover(f)


HARNESSES = [
    dict(name='close', fn=h_close, quick={'m': 99, 'places': [-1, 0, 3], 'e': [25, 80]}, thorough={'m': 10 ** 6, 'places': [-4, -1, 0, 1, 3, 9], 'e': [15, 25, 45, 80]},
         bounds='numbers k * 10^-e, k to 9, e of the listed, from a multiple or from the middle between two', covers=['floor', 'ceil', 'round']),
    dict(name='places', fn=h_places, quick={'m': 10 ** 6, 'd': 10 ** 6, 'places': [-2, -1, 0, 1, 2]}, thorough={'m': 10 ** 12, 'd': 10 ** 9, 'places': list(range(-6, 9))},
         bounds='fractions up to m/d, the listed places', covers=['floor', 'ceil', 'round']),
    dict(name='cast', fn=h_cast, quick={'m': 10 ** 6, 'd': 10 ** 4, 'places': [-1, 0, 2]}, thorough={'m': 10 ** 9, 'd': 10 ** 6, 'places': [-3, -2, -1, 0, 1, 2, 3, 5]},
         bounds='fractions up to m/d, the listed places', covers=['binary', 'octal', 'hexadecimal', 'percentage', 'scientific', 'decimal']),
]
