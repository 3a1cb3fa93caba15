"""N03: integer powers are exact."""
from common import tryev, failed
LIBS = ['objects.number']
CALCS = ['Computing']
M = 10 ** 4


def h_pow(h):
    c = h.calc('Computing')
    N = h.lib('objects.number')
    a, qa = h.number('a', -M, M, M)
    n = h.choose('n', list(range(-h.p('n'), h.p('n') + 1)) + h.p('more'))
    r = tryev(h, c, 'va ^ vn', {'va': a, 'vn': N.Number(n)})
    if failed(r):
        h.check(qa == 0 and n <= 0, 'a power of a number fails only for zero to a power that is not positive')
        h.cover('error')
        return
    h.check(qa != 0 or n >= 0, 'zero to a negative power is an error')
    if n == 0:
        h.check(h.q(r) == 1, 'x^0 is 1')
    elif n > 0:
        h.check(h.q(r) == qa ** n, 'x^n is the repeated product')
    else:
        h.check(h.q(r) * qa ** -n == 1, 'x^-n is 1/x^n')
    h.check(r.den > 0, 'denominator stays positive')
    h.check(h.q(a) == qa, 'operand unchanged')
    h.observe(r)
    h.cover('done')


def h_sum(h):
    """x^n * x^m == x^(n+m)."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    a, qa = h.number('a', -100, 100, 100, nonzero=True)
    k = h.p('n')
    n = h.choose('n', list(range(-k, k + 1)))
    m = h.choose('m', list(range(-k, k + 1)))
    r = tryev(h, c, '(va ^ vn) * (va ^ vm)', {'va': a, 'vn': N.Number(n), 'vm': N.Number(m)})
    s = tryev(h, c, 'va ^ (vn + vm)', {'va': a, 'vn': N.Number(n), 'vm': N.Number(m)})
    h.check(not failed(r) and not failed(s), 'powers of a non-zero number exist')
    h.check(h.q(r) == h.q(s), 'x^n * x^m == x^(n+m)')
    h.cover('done')


HARNESSES = [
    dict(name='pow', fn=h_pow, quick={'n': 5, 'more': [-20, -13, -9, 8, 9, 10, 13, 17, 33]}, thorough={'n': 24, 'more': [-64, 33, 64, 65]}, bounds='fractions up to 10^4, exponents -n..n and those listed', covers=['done', 'error']),
    dict(name='sum', fn=h_sum, quick={'n': 2}, thorough={'n': 4}, bounds='fractions up to 100, exponents -n..n', covers=['done']),
]
