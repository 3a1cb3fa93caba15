"""N10: gcd, lcm, abs and factorial match their definitions."""
from common import tryev, failed
LIBS = ['objects.number']
CALCS = ['Computing']


def h_gcd(h):
    c = h.calc('Computing')
    f = h.choose('f', ['gcd', 'lcm'])
    N = h.lib('objects.number')
    M = h.p('m')
    a, b = h.int('a', -M, M), h.int('b', -M, M)
    r = tryev(h, c, f + '(va, vb)', {'va': N.Number(a), 'vb': N.Number(b)})
    h.check(not failed(r), f + ' of whole numbers exists')
    import math
    want = math.gcd(a, b) if f == 'gcd' else math.lcm(a, b)
    h.check(h.q(r) == h.q(want), f + ' as defined')
    h.check(h.q(r) >= 0, 'not negative')
    h.observe(r)
    h.cover(f)


def h_gcd_small(h):
    """Against the definition itself, with divisibility decided by the solver."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    M = h.p('small')
    a, b = h.int('a', -M, M), h.choose('b', h.p('bs'))
    r = tryev(h, c, 'gcd(va, vb)', {'va': N.Number(a), 'vb': N.Number(b)})
    l = tryev(h, c, 'lcm(va, vb)')
    h.check(not failed(r) and not failed(l), 'gcd and lcm of whole numbers exist')
    g = int(r)
    h.check(g > 0 and a % g == 0 and b % g == 0, 'gcd divides both')
    for k in range(2, abs(b) + 1):
        if b % k == 0 and h.is_true(a % k == 0):
            h.check(g % k == 0, 'gcd is the greatest common divisor')
    h.check(h.q(l) * g == abs(h.q(a) * b), 'lcm * gcd == |a * b|')
    h.cover('done')


def h_frac(h):
    """Fractions are refused."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    n, d = h.int('n', -10 ** 6, 10 ** 6), h.choose('d', h.p('ds'))
    h.assume(n % d != 0)
    x = N.Number(n, d)
    f = h.choose('f', ['gcd(vx, 4)', 'gcd(4, vx)', 'lcm(vx, 4)', 'lcm(4, vx)', 'fact(vx)'])
    r = tryev(h, c, f, {'vx': x})
    h.check(failed(r), 'a fraction is refused')
    h.cover('done')


def h_abs(h):
    c = h.calc('Computing')
    x, qx = h.number('x', -10 ** 12, 10 ** 12, 10 ** 12)
    r = tryev(h, c, 'abs(vx)', {'vx': x})
    h.check(not failed(r), 'abs exists')
    h.check(h.q(r) == (qx if qx >= 0 else -qx), 'magnitude')
    h.cover('done')


def h_fact(h):
    c = h.calc('Computing')
    N = h.lib('objects.number')
    n = h.choose('n', list(range(-3, h.p('n') + 1)))
    r = tryev(h, c, 'fact(vx)', {'vx': N.Number(n)})
    if n < 0:
        h.check(failed(r), 'fact of a negative number is an error')
        return
    h.check(not failed(r), 'fact exists')
    w = 1
    for i in range(2, n + 1):
        w *= i
    h.check(h.q(r) == w, 'product 1..n')
    h.cover('done')


def h_negfact(h):
    c = h.calc('Computing')
    N = h.lib('objects.number')
    n = h.int('n', -10 ** 9, -1)
    r = tryev(h, c, 'fact(vx)', {'vx': N.Number(n)})
    h.check(failed(r), 'fact of a negative number is an error')
    h.cover('done')


HARNESSES = [
    dict(name='gcd', fn=h_gcd, quick={'m': 10 ** 12}, bounds='whole numbers up to 10^12 in magnitude', covers=['gcd', 'lcm']),
    dict(name='gcd_small', fn=h_gcd_small, quick={'small': 1000, 'bs': [1, -2, 6, 12, -15, 30]}, thorough={'small': 10 ** 5, 'bs': [1, -1, 2, 6, -12, 15, 30, 36, 60, 64, -84, 90]},
         bounds='first operand up to small, second from the list', covers=['done']),
    dict(name='frac', fn=h_frac, quick={'ds': [2, 3, 7, 10, 1000]}, thorough={'ds': list(range(2, 40)) + [100, 360, 1000]}, bounds='numerators up to 10^6, the listed denominators', covers=['done']),
    dict(name='abs', fn=h_abs, quick={}, bounds='fractions up to 10^12', covers=['done']),
    dict(name='fact', fn=h_fact, quick={'n': 12}, thorough={'n': 40}, bounds='n from -3 to n (factorial itself runs in C on concrete n)', covers=['done']),
    dict(name='negfact', fn=h_negfact, quick={}, bounds='n from -10^9 to -1', covers=['done']),
]
